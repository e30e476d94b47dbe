import { quiet } from "./_util.js";
const P = "other/swagger-joiner/src/";
export const property = {
  id: "C36",
  title: "Published interface descriptions join every service without loss",
  statement: "The published description contains every callable operation of every joined service and of the applications, unchanged but for what it promises to change: no health-check or preflight methods, no paths left without methods, operations announced to be removed marked as deprecated, broken nullable fields repaired, and, when asked, no trace of security. The configured title, address, terms, contact and license replace those of the services, both published files tell the same and are written to the configured place, and when any service cannot be read nothing is published. A new documentation version of a service is always one that the service does not have yet, one more than the highest when all are numbers.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "1 or 2 services and any of the two applications, any methods on separate or shared paths, any configuration given or not, any texts of up to 3 characters, any request failing" },
  why_tests_cant: "The tests call the transformations one by one with fixed descriptions; the joining itself, the export of the services and the upload are not run at all.",
  anchors: {
    files: [P + "lambda", P + "swagger-utils.ts", P + "apigw-utils.ts"],
    mechanism: [{ name: "handler", where: P + "lambda/update-swagger/lambda-update-swagger.ts" }, { name: "mergeApiDescriptions, withDeprecations, withoutMethods", where: P + "swagger-utils.ts" }, { name: "fixApiGatewayNullable", where: P + "apigw-utils.ts" }, { name: "getNextVersion", where: P + "lambda/update-api-gateway-documentation/lambda-update-api-gateway-documentation.ts" }],
    observe_at: "what is sent to the object storage and to the gateway",
  },
  assumptions: ["the same operation is described by one source", "both removal headers of an operation are in the same answer", "a nullable field is not directly inside another one"],
};
const LOG = "lib/digitraffic-common/src/";
function storage(S, fails) {
  const sent = [];
  S.stub("@aws-sdk/client-s3", { ObjectCannedACL: { private: "private", public_read: "public-read" }, PutObjectCommand: class { constructor(input) { this.input = input; } }, S3: class { async send(c) { await null; sent.push(c.input); if (fails?.(sent.length)) throw new Error("no storage"); return {}; } } });
  return sent;
}
function gateway(S, answer) {
  const asked = [];
  const command = (kind) => class { constructor(input) { this.kind = kind; this.input = input; } };
  S.stub("@aws-sdk/client-api-gateway", { APIGatewayClient: class { constructor(c) { this.config = c; } async send(c) { asked.push([c.kind, c.input]); await null; return answer(c.kind, c.input, this.config); } }, GetExportCommand: command("export"), GetDocumentationVersionsCommand: command("versions"), CreateDocumentationVersionCommand: command("create") });
  return asked;
}
const clone = (x) => (Array.isArray(x) ? x.map(clone) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, clone(v)])) : x);
const operation = (S, name, more = {}) => ({ tags: [name], summary: "about " + name, operationId: name, parameters: [{ name: "lang", in: "query", schema: { type: "string" } }], responses: { 200: { description: "ok " + name, headers: {} } }, ...more });
// how the bytes of an exported description lie in memory
function bytes(S, text, views) {
  const raw = Buffer.from(text, "utf8");
  const before = S.choose("view" + text.length, views), all = new Uint8Array(before + raw.length + before).fill(32 + before);
  all.set(raw, before);
  return before ? all.subarray(before, before + raw.length) : all;
}
function description(paths, title, more = {}) {
  return { openapi: "3.0.1", info: { title, version: "1" }, servers: [{ url: "https://" + title }], security: [{ api_key: [] }], paths, components: { schemas: { [title]: { type: "object" } }, securitySchemes: { api_key: { type: "apiKey", name: "x-api-key", in: "header" } } }, ...more };
}
// what should be published of an operation
const METHODS = ["get", "put", "post", "delete", "patch", "trace"];
async function publish(S, { apis, app, beta, env = {}, views = [0], storageFails, gatewayFails, appFails, betaFails }) {
  const log = quiet(S), sent = storage(S, storageFails);
  const asked = gateway(S, (kind, input) => {
    if (kind !== "export") return S.gap(kind);
    if (gatewayFails === input.restApiId) throw new Error("no gateway");
    const a = apis[input.restApiId];
    return a === undefined ? {} : { body: bytes(S, JSON.stringify(a), views) };
  });
  const gotten = [];
  S.stub("ky", { default: { get: (url, o) => { gotten.push(url); return { json: async () => { await null; if ((url === "https://app" && appFails) || (url === "https://beta" && betaFails)) throw new Error("no application"); return clone(url === "https://app" ? app : beta); } }; } } });
  Object.assign(S.world.process.env, { BUCKET_NAME: "bucket", APIGW_APPS: JSON.stringify(Object.keys(apis)), ...(app && { APP_URL: "https://app" }), ...(beta && { APP_BETA_URL: "https://beta" }), ...env });
  const { handler } = S.load(P + "lambda/update-swagger/lambda-update-swagger.ts");
  const out = await S.settle(() => handler());
  for (const id of Object.keys(apis)) S.assert(asked.filter(([, i]) => i.restApiId === id && i.stageName === "prod" && i.exportType === "oas30").length <= 1, "each service is asked once");
  return { out, sent, log, asked, gotten };
}
// the published description, after both files have been compared
function published(S, sent, dir) {
  S.assert(sent.length === 2 && sent.every((x) => x.Bucket === "bucket"), "both files are written");
  const spec = sent.find((x) => S.decide(S.eq(x.Key, dir + "openapi.json"))), page = sent.find((x) => S.decide(S.eq(x.Key, dir + "dt-swagger.js")));
  if (!spec || !page) S.fail("to the configured place");
  S.assert(spec.ContentType === "application/json" && spec.ACL === "private", "as a description");
  S.assert(page.Body.includes("spec: " + spec.Body + ",\n"), "both files tell the same");
  return JSON.parse(spec.Body);
}
export const harnesses = {
  joined: {
    bounds: "1 or 2 services with 1 or 2 paths of their own or shared, each with any of get, post, head, options; with or without application and trial application; exported bytes anywhere in memory; one of the sources failing",
    reach: ["one", "two", "shared path", "no methods", "applications", "failed", "empty"],
    async run(S) {
      const mode = S.choose("mode", ["methods", "sources", "failing"]), n = S.choose("n", [1, 2]), shared = n === 2 && S.choose("shared", [false, true]);
      const item = (name, methods) => Object.fromEntries(methods.map((m) => [m, operation(S, name + "-" + m)]));
      const apis = { one: description({ "/one": item("one", S.choose("methods1", mode !== "methods" ? [["get", "options"]] : [["get"], ["get", "options"], ["options"], ["head", "options"], ["post", "head", "get"], []])) }, "one") };
      if (n === 2) apis.two = description({ [shared ? "/one" : "/two"]: item("two", S.choose("methods2", mode !== "methods" ? [["put"]] : [["put", "options"], ["options"], ["delete"]])), "/two/more": { ...item("more", ["patch"]), summary: "more of two" } }, "two");
      const app = S.choose("app", mode === "methods" ? [false] : [false, true]) ? description({ "/app": item("app", ["get"]) }, "app", { openapi: "3.0.3" }) : undefined;
      const beta = S.choose("beta", mode === "methods" ? [false] : [false, true]) ? description({ "/beta": item("beta", ["get", "trace"]) }, "beta") : undefined;
      const fails = S.choose("fails", mode === "failing" ? ["one", "app", "beta", "storage", "empty"] : [""]);
      if (fails === "empty") apis.two = undefined;
      const before = clone({ apis, app, beta });
      const dir = mode === "sources" ? S.str("dir", [0, 1], "a-z") : "dir/ectory";
      const { out, sent } = await publish(S, { apis, app, beta, env: { DIRECTORY: dir }, views: mode === "sources" ? [0, 3] : [0], gatewayFails: fails, appFails: fails === "app", betaFails: fails === "beta", storageFails: (k) => fails === "storage" && k === 1 });
      if (fails === "storage") { S.assert(out.error !== undefined, "a description that was not written is an error"); return S.reach("failed"); }
      if (fails === "one" || fails === "empty" || (fails === "app" && app) || (fails === "beta" && beta)) {
        S.assert(out.error !== undefined && sent.length === 0, "without all the sources nothing is published");
        return S.reach(fails === "empty" ? "empty" : "failed");
      }
      if (out.error) S.fail("descriptions are published");
      const r = published(S, sent, S.decide(S.eq(dir, "")) ? "" : dir + "/");
      const sources = [beta && before.beta, ...Object.values(before.apis), app && before.app].filter((x) => x);
      const paths = {};
      for (const s of sources) for (const [p, i] of Object.entries(s.paths)) for (const [k, v] of Object.entries(i)) if (k !== "head" && k !== "options") (paths[p] ??= {})[k] = v;
      for (const p of Object.keys(paths)) if (!Object.keys(paths[p]).some((k) => METHODS.includes(k))) delete paths[p];
      S.assert(S.eq(r.paths, paths), "every operation that can be called, and nothing else");
      S.assert(S.eq(r.components.schemas, Object.fromEntries(sources.map((s) => [s.info.title, { type: "object" }]))), "with what they refer to");
      S.assert(S.eq(r.info, sources[sources.length - 1].info), "the application, if any, introduces");
      S.assert(r.security === undefined && r.servers === undefined, "no place nor security for all");
      S.assert(S.eq(r.components.securitySchemes, before.apis.one.components.securitySchemes), "the keys are described");
      S.reach(n === 2 ? "two" : "one");
      if (shared) S.reach("shared path");
      if (app && beta) S.reach("applications");
      if (n === 1 && Object.keys(before.apis.one.paths["/one"]).every((k) => k === "options" || k === "head")) S.reach("no methods");
    },
  },
  configured: {
    bounds: "all, none, one or all but one of the configured texts given (any text of 1 character); security removed, kept or not said",
    reach: ["all", "none", "secured", "open"],
    async run(S) {
      const env = {}, texts = {};
      const mode = S.choose("mode", ["all", "none", "but one", "only one"]), keys = ["HOST", "TITLE", "DESCRIPTION", "TERMS_OF_SERVICE", "CONTACT_NAME", "CONTACT_URL", "LICENSE_NAME", "LICENSE_URL"];
      const chosen = mode === "all" || mode === "none" ? undefined : S.choose("key", keys);
      for (const k of keys) if (mode === "all" || (mode === "only one" && k === chosen) || (mode === "but one" && k !== chosen)) texts[k] = env[k] = S.str("text" + k, 1, k === "DESCRIPTION" ? "a-zä\"" : "a-zä");
      const remove = S.choose("remove", [undefined, "true", "false"]);
      if (remove !== undefined) env.REMOVESECURITY = remove;
      const secured = { "/x": { get: operation(S, "x", { security: [{ api_key: [] }] }), summary: "x" }, "/y": { post: operation(S, "y", { security: [] }), put: operation(S, "z") } };
      const own = { title: "service", version: "1", description: "own", termsOfService: "own terms", contact: { name: "own", url: "own" }, license: { name: "own" } };
      const api = description(secured, "service", { info: own });
      const { out, sent } = await publish(S, { apis: { one: api }, env });
      if (out.error) S.fail("descriptions are published");
      const r = published(S, sent, "");
      const t = (k, d) => texts[k] ?? d;
      S.assert(S.eq(r.info, { version: "1", title: t("TITLE", own.title), description: t("DESCRIPTION", own.description), termsOfService: t("TERMS_OF_SERVICE", own.termsOfService), contact: texts.CONTACT_NAME && texts.CONTACT_URL ? { name: texts.CONTACT_NAME, url: texts.CONTACT_URL } : own.contact, license: texts.LICENSE_NAME && texts.LICENSE_URL ? { name: texts.LICENSE_NAME, url: texts.LICENSE_URL } : own.license }), "the configured texts replace those of the services");
      S.assert(S.eq(r.servers, texts.HOST ? [{ url: texts.HOST }] : undefined), "and the address");
      S.assert(r.security === undefined, "no security for all");
      const wanted = clone(secured);
      if (remove === "true") { delete wanted["/x"].get.security; delete wanted["/y"].post.security; S.assert(S.eq(r.components, { schemas: { service: { type: "object" } } }), "no keys are described"); S.reach("open"); }
      else { S.assert(S.eq(r.components, api.components), "keys are described"); S.reach("secured"); }
      S.assert(S.eq(r.paths, wanted), "operations stay");
      if (Object.keys(texts).length === 8) S.reach("all");
      if (!Object.keys(texts).length) S.reach("none");
    },
  },
  marked: {
    bounds: "summaries of the words that announce a removal in either case with any character before and after or missing, one or both headers in any case and order in the first or second answer; nullable fields of both kinds in any order, at four places",
    reach: ["announced", "headers", "supported", "nullable", "choice"],
    async run(S) {
      quiet(S);
      if (S.choose("what", ["deprecated", "nullable"]) === "deprecated") {
        const { withDeprecations } = S.load(P + "swagger-utils.ts");
        const pre = S.str("pre", [0, 1], "abc \n"), words = S.choose("words", ["", "will be removed", "Will Be Removed", "will not be removed", "be removed"]), post = S.str("post", [0, 1], "xyz .");
        const names = S.choose("headers", [[], ["Deprecation"], ["Sunset"], ["Sunset", "Deprecation"], ["deprecation", "X-Other", "sunset"]]);
        const headers = Object.fromEntries(names.map((h) => [h, { schema: { type: "string" } }]));
        const at = S.choose("answer", ["200", "400"]);
        const op = { ...(S.choose("summarized", [true, false]) && { summary: pre + words + post }), description: "It will be removed from the list", responses: { 200: { description: "ok" }, 400: { description: "bad" } } };
        op.responses[at].headers = headers;
        const other = { summary: "other", responses: { 200: { description: "ok", headers: {} } } };
        const paths = { "/a": { summary: "will be removed", get: op, post: other, parameters: [] }, "/b": { put: { ...other, deprecated: true } } };
        const before = clone(paths), r = withDeprecations(paths);
        S.assert(S.eq(paths, before), "the given description stays");
        const announced = op.summary !== undefined && /^will be removed$/i.test(words), both = names.length > 1;
        const wanted = clone(before);
        if (announced || both) wanted["/a"].get.deprecated = true;
        S.assert(S.eq(r, wanted), "operations announced to be removed, and only those, are marked");
        return S.reach(announced ? "announced" : both ? "headers" : "supported");
      }
      const { fixApiGatewayNullable } = S.load(P + "apigw-utils.ts");
      const key = S.choose("key", ["anyOf", "oneOf", "allOf"]), first = S.choose("first", [true, false]);
      const part = S.choose("part", [{ type: "string" }, { $ref: "#/components/schemas/X" }, { type: "object", properties: { a: { type: "integer", format: S.str("format", 2, "a-z") } } }, null]);
      const more = S.choose("more", [[], [{ type: "number" }]]);
      const field = { description: S.str("text", 1, "a-z"), [key]: [...(first ? [null, part] : [part, null]), ...more] };
      const plain = { type: "object", properties: { b: { anyOf: [{ type: "string" }, { type: "number" }] } } };
      const places = (f) => ({ openapi: "3.0.1", info: { title: "t", version: "1" }, paths: { "/a": { get: { parameters: [{ name: "p", in: "query", schema: f() }], responses: { 200: { content: { "application/json": { schema: { type: "array", items: f() } } } } } } } }, components: { schemas: { A: f(), B: { type: "object", properties: { c: f(), d: clone(plain) } } } } });
      const schema = places(() => clone(field));
      fixApiGatewayNullable(schema);
      const broken = key !== "allOf" && part !== null && !more.length;
      S.assert(S.eq(schema, places(() => (broken ? { description: field.description, ...clone(part), nullable: true } : clone(field)))), "fields that may be empty say so, wherever they are");
      S.reach(broken ? "nullable" : "choice");
    },
  },
  versions: {
    bounds: "1 or 2 services with up to 3 versions of any numbers up to 200 or one of 13 digits, texts or missing, or without versions; any of the requests failing",
    reach: ["first", "next", "mixed", "none", "failed"],
    async run(S) {
      quiet(S);
      S.world.time = S.int("now", 1.7e12, 1.8e12);
      const ids = S.choose("n", [["a"], ["a", "b"]]), fails = S.choose("fails", ["", "versions", "create"]);
      const kinds = Object.fromEntries(ids.map((id) => [id, S.choose("kind" + id, id === "a" ? ["none", "first", "numbers", "mixed", "unnamed"] : ["numbers", "none"])]));
      const nums = Object.fromEntries(ids.map((id) => [id, Array.from({ length: { none: 0, first: 0, numbers: S.choose("count", [1, 3]), mixed: 1, unnamed: 1 }[kinds[id]] }, (_, i) => (id === "a" && i === 2 ? S.choose("large", [3, 1763500000000]) : S.int(id + i, 1, id === "a" ? 200 : 20)))]));
      const versions = Object.fromEntries(ids.map((id) => [id, kinds[id] === "none" ? undefined : [...nums[id].map((x) => ({ version: "" + x })), ...(kinds[id] === "mixed" ? [{ version: "a3f8b2c1" }] : kinds[id] === "unnamed" ? [{}] : [])]]));
      let count = 0;
      const asked = gateway(S, (kind, input, config) => {
        S.assert(config?.region === "eu-west-1", "in the configured region");
        if (kind === "versions") { if (fails === "versions" && input.restApiId === "a") throw new Error("no gateway"); return { items: versions[input.restApiId] }; }
        if (kind !== "create") return S.gap(kind);
        if (fails === "create" && !count++) throw new Error("no gateway");
        return {};
      });
      Object.assign(S.world.process.env, { APIGW_IDS: JSON.stringify(ids), REGION: "eu-west-1" });
      const { handler } = S.load(P + "lambda/update-api-gateway-documentation/lambda-update-api-gateway-documentation.ts");
      const out = await S.settle(() => handler());
      const created = asked.filter(([k]) => k === "create").map(([, i]) => i);
      if (fails === "versions") { S.assert(out.error !== undefined && created.length === 0, "services that cannot be read are an error"); return S.reach("failed"); }
      S.assert(created.length === ids.filter((id) => versions[id]).length && created.every((c) => c.stageName === "prod"), "each documented service gets a version");
      for (const id of ids) {
        const c = created.filter((x) => x.restApiId === id);
        if (!versions[id]) { S.assert(c.length === 0, "others do not"); S.reach("none"); continue; }
        S.assert(c.length === 1, "each once");
        const v = c[0].documentationVersion;
        if (kinds[id] === "first") { S.assert(v === "1", "the first version"); S.reach("first"); continue; }
        if (kinds[id] === "numbers") {
          let max = nums[id][0];
          for (const x of nums[id]) max = S.ite(x > max, x, max);
          S.assert(S.eq(v, "" + (max + 1)), "one more than the highest");
          S.reach("next");
        } else { S.assert(S.eq(v, "" + S.world.time), "the time is a number that no version has"); S.reach("mixed"); }
      }
      if (fails === "create" && created.length) { S.assert(out.error !== undefined, "a version that was not created is an error"); S.reach("failed"); } else S.assert(!out.error, "otherwise it succeeds");
    },
  },
};
