import { LIB, quiet } from "./_util.js";
import { cdkRecorder } from "./_cdk.js";
export const property = {
  id: "C16",
  title: "REST APIs admit exactly the intended callers and export the right key",
  statement: "An API restricted to addresses admits exactly the listed addresses, also when the list is empty, and an API without a list admits everybody; unknown end points answer the configured status with a valid JSON message. The exported end point carries the key that was asked for or the only one there is, and the export is refused when there is none or more than one. Every created key belongs to exactly one plan of the API's stage, and storage is opened only to the named distribution, for reading unless told otherwise.",
  quantifier: { over: ["inputs"], text: "address lists of 0..3 entries and their absence, any sequence of up to 3 keys and exports, any status and message of up to 3 characters, all grant options" },
  why_tests_cant: "The tests create a few interfaces; access and key choice depend on combinations they do not try.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/stack/rest-api.ts", "lib/digitraffic-common/src/aws/infra/usage-plans.ts", "lib/digitraffic-common/src/aws/infra/bucket-policy.ts", "lib/digitraffic-common/src/aws/infra/canaries/url-canary.ts", "lib/digitraffic-common/src/utils/api-model.ts"],
    mechanism: [{ name: "DigitrafficRestApi, createRestApi, add404Support", where: "lib/digitraffic-common/src/aws/infra/stack/rest-api.ts" }, { name: "createUsagePlan, createDefaultUsagePlan", where: "lib/digitraffic-common/src/aws/infra/usage-plans.ts" }, { name: "grantOACRights, grantOAIRights", where: "lib/digitraffic-common/src/aws/infra/bucket-policy.ts" }],
    observe_at: "what is given to the infrastructure library, read with its documented meaning",
  },
  assumptions: ["the documented meaning of policy statements: access needs an allowing statement whose conditions hold and no denying one", "addresses are compared as written"],
};
const FILE = LIB + "aws/infra/stack/rest-api.js";
const IPS = ["192.0.2.1", "192.0.2.2", "10.0.0.0/8"];
const defs = () => ({
  methods: {
    RestApi: {
      addApiKey: (self, id, o) => { const k = { keyId: `key:${self.$n = (self.$n ?? 0) + 1}`, keyArn: "arn", id, o }; (self.$keys ??= []).push(k); return k; },
    },
  },
  props: { RestApi: { restApiName: (self) => self.$props?.restApiName, deploymentStage: (self) => ({ $stageOf: self }), url: (self) => "https://" + self.node.id + "/prod/" } },
});
// does a policy admit a caller from this address?
function admits(S, doc, ip) {
  const lists = doc.$props?.statements ?? [];
  let allow = false, deny = false;
  for (const st of lists) {
    const p = st.$props;
    S.assert(p.actions.includes("execute-api:Invoke") || p.actions.includes("execute-api:*"), "the statement is about calling the API");
    S.assert(S.eq(p.resources, ["*"]) || p.resources.some((r) => r.startsWith("execute-api:")), "the statement covers the API");
    S.assert(p.principals.length === 1 && p.principals[0].$type === "AnyPrincipal", "the statement is about every principal");
    let holds = true;
    for (const [op, c] of Object.entries(p.conditions ?? {})) {
      const keys = Object.keys(c);
      if (keys.length === 0) continue;
      if (keys.length !== 1) S.gap("conditions on " + keys);
      if (keys[0] !== "aws:SourceIp") { holds = false; continue; } // nothing a caller of an API has
      const l = Array.isArray(c[keys[0]]) ? c[keys[0]] : [c[keys[0]]];
      const within = S.or(false, ...l.map((x) => S.eq(x, ip)));
      holds = S.and(holds, op === "IpAddress" ? within : op === "NotIpAddress" ? S.not(within) : S.gap("condition " + op));
    }
    if (p.effect === undefined || p.effect === "Allow") allow = S.or(allow, holds); else deny = S.or(deny, holds);
  }
  return S.and(allow, S.not(deny));
}
const config = (features) => ({ shortName: "Short", production: false, trafficType: null, stackProps: {}, stackFeatures: features });
function stackOf(cdk, features) {
  const s = cdk.make("aws-cdk-lib", "Stack", undefined, "stack");
  s.configuration = config(features);
  return s;
}
export const harnesses = {
  addresses: {
    bounds: "no list, null, and lists of 0..3 addresses of 1..2 symbolic characters; any caller; both ways of creating an API; overriding configuration",
    reach: ["open", "restricted", "nobody"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const m = S.load(FILE);
      const stack = stackOf(cdk, undefined);
      const kind = S.choose("kind", ["undefined", "null", "list"]);
      const n = kind === "list" ? S.choose("n", [0, 1, 2, 3]) : 0;
      const list = kind === "undefined" ? undefined : kind === "null" ? null : Array.from({ length: n }, (_, i) => S.str("ip" + i, [1, 2], "0-9"));
      const how = S.choose("how", ["class", "function", "document", "extra"]);
      let doc, api;
      if (how === "document") doc = list === undefined || list === null ? m.createDefaultPolicyDocument() : m.createIpRestrictionPolicyDocument(list);
      else {
        api = how === "class" ? new m.DigitrafficRestApi(stack, "id", "name", list) : how === "extra" ? new m.DigitrafficRestApi(stack, "id", "name", list, { description: "d", deployOptions: { stageName: "x" } }) : m.createRestApi(stack, "id", "name", list);
        doc = api.$props.policy;
        S.assert(api.$props.restApiName === "name" && S.eq(api.$props.endpointTypes, ["REGIONAL"]), "the API has its name and is regional");
        if (how === "extra") S.assert(api.$props.description === "d" && api.$props.deployOptions.stageName === "x", "further configuration is kept");
        else S.assert(api.$props.deployOptions.loggingLevel === "ERROR", "errors are logged");
      }
      const caller = S.str("caller", [1, 2], "0-9");
      const expected = list === undefined || list === null ? true : S.or(false, ...list.map((x) => S.eq(x, caller)));
      S.assert(S.iff(admits(S, doc, caller), expected), "exactly the listed addresses are admitted");
      S.reach(list === undefined || list === null ? "open" : n ? "restricted" : "nobody");
    },
  },
  keys: {
    bounds: "0..3 keys created in either way, exported with and without a chosen key and name; the canaries' key",
    reach: ["exported", "chosen", "none", "many"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const { DigitrafficRestApi } = S.load(FILE);
      const { UrlCanary } = S.load(LIB + "aws/infra/canaries/url-canary.js");
      const stack = stackOf(cdk, undefined);
      const api = new DigitrafficRestApi(stack, "id", "name");
      const n = S.choose("n", [0, 1, 2, 3]);
      const ids = [];
      for (let i = 0; i < n; i++) {
        const v2 = S.choose("v2" + i, [false, true]);
        const value = v2 ? S.choose("value" + i, [undefined, "secretvalue"]) : undefined;
        const id = v2 ? api.createUsagePlanV2("Api" + i, value) : api.createUsagePlan("k" + i, "Plan" + i);
        const key = api.$keys[api.$keys.length - 1];
        S.assert(api.$keys.length === i + 1 && id === key.keyId, "every call creates one key");
        if (v2) S.assert(key.o.apiKeyName === `Api${i} API Key` && key.o.value === value, "the key has its name and value"); else S.assert(key.id === "k" + i, "the key has its name");
        const plans = cdk.called("addUsagePlan");
        S.assert(plans.length === i + 1, "every key has its own plan");
        const plan = plans[i];
        S.assert(plan.args[1].name === (v2 ? `Api${i} API Usage Plan` : "Plan" + i), "the plan has its name");
        const stages = cdk.called("addApiStage"), added = cdk.called("addApiKey").filter((x) => x.self !== api);
        S.assert(stages.length === i + 1 && stages[i].args[0].stage.$stageOf === api && stages[i].args[0].api === undefined, "the plan is for the stage of the API");
        S.assert(added.length === i + 1 && added[i].args[0] === key && added[i].self === stages[i].self, "the key belongs to the plan");
        ids.push(id);
      }
      S.assert(S.eq(api.apiKeyIds, ids), "the keys are known in order");
      S.assert(UrlCanary.getApiKey(api) === ids[0], "canaries use the first key");
      const wanted = S.choose("wanted", [undefined, "own", ""]), exportName = S.choose("exportName", [undefined, "Other"]);
      const bare = wanted === undefined && exportName === undefined && S.choose("bare", [false, true]);
      const r = S.sync(() => (bare ? api.exportEndpoint() : api.exportEndpoint({ apiKeyId: wanted, exportName })));
      if (!wanted && n !== 1) {
        S.reach(n ? "many" : "none");
        S.assert(r.error instanceof Error && cdk.of("StringParameter").length === 0, "the export is refused unless there is exactly one key");
        return;
      }
      S.assert(!r.error, "the export succeeds");
      S.reach(wanted ? "chosen" : "exported");
      const [a, b] = r.value, name = exportName ?? "Short";
      S.assert(cdk.of("StringParameter").length === 2 && a.$args[0] === stack && b.$args[0] === stack && a.$args[1] !== b.$args[1], "two parameters");
      S.assert(a.$props.parameterName === `/digitraffic/${name}/endpointUrl` && a.$props.stringValue === api.url, "the address of the API");
      S.assert(api.hostname() === `${api.restApiId}.execute-api.${api.stack.region}.amazonaws.com`, "the API has its own host name");
      S.assert(b.$props.parameterName === `/digitraffic/${name}/apiKeyId` && b.$props.stringValue === (wanted || ids[0]), "the key");
    },
  },
  answers: {
    bounds: "any status 400..499 and message of 0..3 characters; APIs of two names",
    reach: ["missing", "own", "unauthorised"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const m = S.load(FILE);
      const stack = stackOf(cdk, undefined);
      const kind = S.choose("kind", ["missing", "own", "unauthorised", "created"]);
      const name = S.choose("name", ["a", "b"]);
      let status = "404", message = "Not Found", api;
      if (kind === "created") { api = S.choose("how", [0, 1]) ? new m.DigitrafficRestApi(stack, "id", name) : m.createRestApi(stack, "id", name); } else {
        api = cdk.make("aws-cdk-lib/aws-apigateway", "RestApi", stack, "id", { restApiName: name });
        if (kind === "missing") m.add404Support(api, stack);
        if (kind === "unauthorised") m.add401Support(api, stack);
        if (kind === "own") { const code = S.int("code", 400, 499); message = S.str("message", [0, 3]); status = `${code}`; m.setReturnCodeForMissingAuthenticationToken(code, message, api, stack); }
      }
      const rs = cdk.of("GatewayResponse");
      S.assert(rs.length === 1 && rs[0].$props.restApi === api && rs[0].$args[1].includes(name), "one answer of the API is configured");
      const p = rs[0].$props;
      if (kind === "unauthorised") { S.reach("unauthorised"); S.assert(p.statusCode === "401" && p.type.$path === "ResponseType.UNAUTHORIZED" && p.responseHeaders["WWW-Authenticate"] === "'Basic'", "callers are asked to authenticate"); return; }
      S.reach(kind === "own" ? "own" : "missing");
      S.assert(p.type.$path === "ResponseType.MISSING_AUTHENTICATION_TOKEN" && S.eq(p.statusCode, status), "unknown end points answer the status");
      const r = S.sync(() => JSON.parse(p.templates["application/json"]));
      S.assert(!r.error, "the answer is valid JSON");
      const got = r.value.message;
      S.assert(got !== undefined && S.eq(got, message), "the answer has the message");
    },
  },
  storage: {
    bounds: "every combination of resources, actions and effect, both kinds of grants",
    reach: ["distribution", "identity"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const m = S.load(LIB + "aws/infra/bucket-policy.js");
      const bucket = cdk.make("aws-cdk-lib/aws-s3", "Bucket", undefined, "b");
      const resources = S.choose("resources", [undefined, ["r"]]), actions = S.choose("actions", [undefined, ["s3:PutObject", "s3:GetObject"]]), effect = S.choose("effect", [undefined, "Allow", "Deny"]);
      const kind = S.choose("kind", ["distribution", "identity"]);
      const who = S.str("who", [1, 2], "a-z");
      S.reach(kind);
      const base = { bucket, resources, actions, effect };
      if (kind === "distribution") m.grantOACRights({ ...base, distributionArn: who }); else m.grantOAIRights({ ...base, canonicalUserId: who });
      const added = cdk.called("addToResourcePolicy");
      S.assert(added.length === 1 && added[0].self === bucket, "one statement of the storage");
      const p = added[0].args[0].$props;
      S.assert((p.effect ?? "Allow") === (effect ?? "Allow"), "allowed unless denied");
      S.assert(S.eq(p.resources, resources ?? [bucket.bucketArn + "/*"]) && S.eq(p.actions, actions ?? ["s3:GetObject"]), "reading everything unless told otherwise");
      S.assert(p.principals.length === 1, "one principal");
      if (kind === "distribution") S.assert(S.and(p.principals[0].$type === "ServicePrincipal" && p.principals[0].$args[0] === "cloudfront.amazonaws.com", Object.keys(p.conditions).length === 1, S.eq(p.conditions.StringEquals, { "AWS:SourceArn": who })), "only the distribution");
      else S.assert(S.and(p.principals[0].$type === "CanonicalUserPrincipal", S.eq(p.principals[0].$args[0], who), p.conditions === undefined), "only the identity");
    },
  },
  describing: {
    bounds: "documentation switched on, off and unspecified, 0..3 parts of all types; models; cross-origin options with and without overrides",
    reach: ["documented", "skipped", "model", "cors"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const m = S.load(FILE);
      const features = S.choose("features", [undefined, {}, { enableDocumentation: true }, { enableDocumentation: false }]);
      const stack = stackOf(cdk, features);
      const api = new m.DigitrafficRestApi(stack, "id", "name");
      const resource = cdk.make("aws-cdk-lib/aws-apigateway", "Resource", stack, "r");
      resource.path = "/a/b"; resource.api = api;
      const kind = S.choose("kind", ["documentation", "model", "cors"]);
      if (kind === "documentation") {
        const d = S.load(LIB + "aws/infra/documentation.js");
        const n = S.choose("n", [0, 1, 2, 3]);
        const parts = Array.from({ length: n }, (_, i) => (S.choose("type" + i, ["query", "path", "method"]) === "method" ? d.DocumentationPart.method(["T"], "m" + i, "summary") : d.DocumentationPart[S.choose("which" + i, ["queryParameter", "pathParameter"])]("p" + i, "text" + i)));
        const log = [];
        const was = console.info;
        api.documentResource(resource, ...parts);
        const made = cdk.of("CfnDocumentationPart");
        if (features?.enableDocumentation === false) { S.reach("skipped"); S.assert(made.length === 0, "documentation that is switched off is not added"); return; }
        if (n) S.reach("documented");
        S.assert(made.length === n && new Set(made.map((x) => x.$args[1])).size === n, "every part is added once");
        for (const [i, x] of made.entries()) {
          const t = parts[i].type;
          S.assert(x.$props.restApiId === api.restApiId && x.$props.location.path === "/a/b" && x.$props.location.type === t && x.$props.location.name === (t === "METHOD" ? undefined : "p" + i), "the part is about its place");
          S.assert(typeof x.$props.properties === "string" && S.eq(JSON.parse(x.$props.properties), JSON.parse(JSON.stringify(parts[i].documentationProperties))), "the part has its text");
        }
        return;
      }
      if (kind === "model") {
        S.reach("model");
        const json = S.choose("json", [false, true]);
        const schema = { type: "object" };
        const r = json ? api.addJsonModel("Thing", schema) : api.addCSVModel("Thing");
        const c = cdk.called("addModel");
        S.assert(c.length === 1 && c[0].args[0] === "Thing" && c[0].args[1].modelName === "Thing", "the model has its name");
        S.assert(c[0].args[1].contentType === (json ? "application/json" : "text/csv") && (json ? c[0].args[1].schema === schema : S.eq(c[0].args[1].schema, {})), "the model has its content");
        S.assert(typeof r.modelReference === "string" && r.modelReference.includes(api.restApiId) && r.modelReference.includes(`models/${r.modelId}`) && r.modelReference.startsWith("https://apigateway.amazonaws.com/restapis/"), "the model can be referred to");
        return;
      }
      S.reach("cors");
      const over = S.choose("over", [undefined, { defaultMethodOptions: { x: 1 } }, { defaultCorsPreflightOptions: { allowOrigins: ["o"] } }]);
      const sub = S.choose("sub", [false, true]);
      if (sub) api.addResourceWithCorsOptionsSubTree(resource, "part", over); else api.addCorsOptions(resource);
      const c = cdk.called(sub ? "addResource" : "addCorsPreflight");
      S.assert(c.length === 1 && c[0].self === resource && (!sub || c[0].args[0] === "part"), "one resource");
      const o = sub ? c[0].args[1].defaultCorsPreflightOptions : c[0].args[0];
      if (sub && over) S.assert(Object.keys(over).every((k) => c[0].args[1][k] === over[k]), "given options win");
      if (!sub || !over?.defaultCorsPreflightOptions) S.assert(S.eq(o.allowOrigins, ["*"]) && ["Content-Type", "X-Api-Key", "Authorization", "Digitraffic-User"].every((h) => o.allowHeaders.includes(h)) && S.eq([...o.allowMethods].sort(), ["GET", "HEAD", "OPTIONS"]), "browsers of every origin may read");
    },
  },
};
