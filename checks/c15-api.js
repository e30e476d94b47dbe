import { LIB, quiet } from "./_util.js";
import { VMap, render, escapeJavaScript, readJson } from "./_vtl.js";
export const property = {
  id: "C15",
  title: "API integrations hand requests and responses over unchanged",
  statement: "Whatever characters a request contains, the function behind an API receives valid JSON with exactly the configured path, query, multi-value, header and context parameters and the encoded body, each with the value that was sent, and no query parameter of the caller can replace a configured one. The client receives the status, body, entity tag, modification time and file name that the function answered, as plain text unless the status is 200, with the cross-origin header and, when deprecated, the deprecation headers. Handlers return the answer of the function, or of the error handler exactly when the function failed, and the logging wrapper runs once around it.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "20 parameter configurations; one or two values or one query name of up to 2 (thorough: 3) arbitrary characters; all statuses, optional response fields; throwing handlers" },
  why_tests_cant: "The tests render the templates with harmless values and one request each; only special characters and colliding names break them.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/api/integration.ts", "lib/digitraffic-common/src/aws/infra/api/response.ts", "lib/digitraffic-common/src/aws/runtime/digitraffic-integration-response.ts", "lib/digitraffic-common/src/aws/infra/api/handler-factory.ts", "lib/digitraffic-common/src/aws/infra/api/static-integration.ts"],
    mechanism: [{ name: "DigitrafficIntegration.createRequestTemplates", where: "lib/digitraffic-common/src/aws/infra/api/integration.ts" }, { name: "RESPONSE_DEFAULT_LAMBDA, getDeprecatedDefaultLambdaResponse", where: "lib/digitraffic-common/src/aws/infra/api/response.ts" }, { name: "HandlerFactory", where: "lib/digitraffic-common/src/aws/infra/api/handler-factory.ts" }],
    observe_at: "the templates given to the infrastructure library, read with the meaning the gateway gives them; calls of the handlers",
  },
  assumptions: ["the documented meaning of the gateway's templates and helpers; undefined references render as nothing", "requests with a JSON or no content type", "file names without $, backslash and quotes", "names of query parameters are not empty", "static responses contain no template syntax"],
};
const DIR = LIB + "aws/infra/api/";
const VALUE = "\u0007\n -~\u00e4";
// [path, query, multi, header, context, all, body]
const CONFIGS = {
  path: { path: ["p1"] }, query: { query: ["q1"] }, queries: { query: ["q1", "q2"] }, multi: { multi: ["m1"] }, header: { header: ["h1"] }, context: { context: ["c1"] },
  nested: { context: ["authorizer.groups"] }, body: { body: true }, all: { all: true }, allPath: { path: ["p1"], all: true }, pathAfterAll: { all: true, path: ["p1"], allFirst: true }, allHeader: { header: ["h1"], all: true },
  allMulti: { multi: ["m1"], all: true, allFirst: true }, allBody: { all: true, body: true }, allContext: { context: ["c1"], all: true, allFirst: true }, mixed: { path: ["p1", "p2"], query: ["q1"], header: ["h1"] },
  queryBody: { query: ["q1"], body: true }, multiQuery: { query: ["q1"], multi: ["m1", "m2"] }, everything: { path: ["p1"], multi: ["m1"], header: ["h1"], context: ["c1"], all: true, body: true, allFirst: true }, generic: { path: ["p1"], query: ["q1"], generic: true },
};
function setup(S) {
  quiet(S);
  return S.cdk();
}
export const harnesses = {
  request: {
    bounds: "20 configurations; any one value of 1..2 (thorough: 3) characters printable, control or non-ASCII, the others fixed, missing or symbolic of one character; up to one further query parameter with a symbolic or colliding name; bodies",
    reach: ["delivered", "missing", "colliding", "body", "several"],
    budgetMs: 240000,
    async run(S) {
      const cdk = setup(S);
      const { DigitrafficIntegration } = S.load(DIR + "integration.js");
      const { MediaType } = S.load(LIB + "aws/types/mediatypes.js");
      const name = S.choose("configuration", Object.keys(CONFIGS));
      const c = CONFIGS[name];
      const lambda = {};
      const i = new DigitrafficIntegration(lambda, MediaType.APPLICATION_JSON);
      const chain = (r) => S.assert(r === i, "configuration can be continued");
      if (c.all && c.allFirst) chain(i.passAllQueryParameters());
      if (c.generic) { for (const p of c.path) chain(i.addParameter("path", p)); for (const p of c.query) chain(i.addParameter("querystring", p)); } else {
        if (c.path) chain(i.addPathParameter(...c.path));
        if (c.query) chain(i.addQueryParameter(...c.query));
        if (c.multi) chain(i.addMultiValueQueryParameter(...c.multi));
        if (c.header) chain(i.addHeaderParameter(...c.header));
        if (c.context) chain(i.addContextParameter(...c.context));
      }
      if (c.all && !c.allFirst) chain(i.passAllQueryParameters());
      if (c.body) chain(i.passBody());
      const built = i.build();
      S.assert(built.$type === "LambdaIntegration" && built.$args[0] === lambda && built.$args[1].proxy === false, "the integration calls the function without a proxy");
      const template = built.$args[1].requestTemplates?.["application/json"];
      if (template === undefined) S.fail("the parameters are passed");
      // the request
      const all = ["path", "query", "multi", "header", "context"].flatMap((k) => (c[k] ?? []).map((n) => [k, n]));
      const extras = ["none", "plain", "symbolic", "value", ...all.map(([, p]) => p), "_p1", ...(c.multi ? ["_m1"] : []), ...(c.body ? ["payload"] : []), "_"];
      const extra = c.all ? S.choose("extra", extras) : S.choose("other", ["none", "other"]);
      const focus = all.length && !["symbolic", "value"].includes(extra) ? S.choose("focus", all.map((_, n) => n)) : -1;
      const missing = c.all ? false : S.choose("missing", [false, true]);
      const max = extra !== "none" && extra !== "value" ? 1 : S.thorough ? 3 : 2;
      const expected = [];
      const req = { path: new VMap(S), querystring: new VMap(S), header: new VMap(S), multi: {}, context: { responseOverride: { header: {} } } };
      for (const [n, [kind, p]] of all.entries()) {
        const one = (tag, len) => (n === focus ? S.str("v" + n + tag, len, VALUE) : "v" + n + tag);
        if (missing && n !== focus && ["query", "header"].includes(kind)) { S.reach("missing"); expected.push([p, undefined]); continue; }
        if (kind === "multi") {
          const vs = [one("a", [0, max])];
          if (n !== focus || S.choose("two" + n, [false, true])) vs.push(n === focus ? S.str("v" + n + "b", 1, "'\"a") : "w" + n);
          req.multi[p] = vs;
          req.querystring.put(p, vs[vs.length - 1]);
          expected.push([p, vs]);
          continue;
        }
        const v = one("", [kind === "path" ? 1 : 0, max]);
        expected.push([p, v]);
        if (kind === "context") { const parts = p.split("."); let o = req.context; for (const q of parts.slice(0, -1)) o = o[q] = {}; o[parts[parts.length - 1]] = v; } else (kind === "query" ? req.querystring : req[kind]).put(p, v);
      }
      const body = c.body ? S.str("body", 2, VALUE) : "ignored";
      if (c.body) expected.push(["payload", "Ym9keQ=="]);
      if (extra !== "none") {
        const k = extra === "symbolic" ? S.str("k", [1, 2], " -~") : extra === "plain" || extra === "value" ? "zz" : extra;
        const v = extra === "value" ? S.str("x", [1, max], VALUE) : "extra";
        if (extra === "symbolic") S.assume(S.not(req.querystring.containsKey(k)));
        const known = expected.some(([e]) => S.decide(S.eq(e, k)));
        req.querystring.put(k, v);
        if (c.all && !known && !S.decide(k.startsWith("_"))) { expected.push([k, v]); if (S.choose("second", [false, true])) { S.reach("several"); req.querystring.put("another", "more"); expected.push(["another", "more"]); } }
        if (known) S.reach("colliding");
      }
      const util = { escapeJavaScript: (s) => escapeJavaScript(S, s), base64Encode: (s) => { S.assert(S.eq(s, body), "the body of the request is encoded"); return "Ym9keQ=="; } };
      const out = render(S, template, {
        input: { params: () => new VMap(S, [["path", req.path], ["querystring", req.querystring], ["header", req.header]]), body },
        util, method: { request: { multivaluequerystring: req.multi } }, context: req.context,
      });
      const r = S.sync(() => readJson(S, out));
      S.assert(!r.error, "the function receives valid JSON");
      const event = r.value;
      S.assert(event instanceof VMap, "the function receives an object");
      for (const [k, v] of expected) {
        const got = event.get(k);
        if (v === undefined) { S.assert(got === undefined || S.eq(got, ""), "a missing parameter is empty"); continue; }
        if (got === undefined) S.fail("every configured parameter is received");
        S.assert(S.eq(got, v), "every parameter has the value that was sent");
      }
      const names = extra.startsWith("_") ? [extra, extra.slice(1)] : [];
      for (const k of event.keySet()) S.assert(S.or(false, ...expected.map(([e]) => S.eq(e, k)), ...names.map((e) => S.eq(e, k)), c.all ? k.startsWith("_") : false, extra === "symbolic" ? true : false), "nothing else is received");
      S.reach(c.body ? "body" : "delivered");
    },
  },
  rules: {
    bounds: "query parameters together with all query parameters, names that start with an underscore or not (1..2 characters), every kind of parameter",
    reach: ["refused", "accepted"],
    async run(S) {
      setup(S);
      const { DigitrafficIntegration } = S.load(DIR + "integration.js");
      const i = new DigitrafficIntegration({});
      const how = S.choose("how", ["all then query", "query then all", "name"]);
      if (how === "name") {
        const n = S.str("n", [1, 2], "!-~");
        const kind = S.choose("kind", ["addPathParameter", "addQueryParameter", "addMultiValueQueryParameter", "addHeaderParameter", "addContextParameter"]);
        const r = S.sync(() => i[kind](n));
        S.assert(S.iff(r.error !== undefined, S.eq(n.charAt(0), "_")), "names that start with an underscore are refused");
        S.reach(r.error ? "refused" : "accepted");
        return;
      }
      const r = S.sync(() => (how === "all then query" ? i.passAllQueryParameters().addQueryParameter("q") : i.addQueryParameter("q").passAllQueryParameters()));
      S.assert(r.error instanceof Error, "single and all query parameters are not combined");
      S.reach("refused");
    },
  },
  response: {
    bounds: "statuses 100..599, bodies of 0..2 printable or non-ASCII characters, with and without time, tag and file name (1..2 characters), plain and deprecated with and without an end date, four media types",
    reach: ["ok", "error", "deprecated", "file"],
    async run(S) {
      setup(S);
      S.stub("etag", (b) => '"tag"');
      const { DigitrafficIntegration } = S.load(DIR + "integration.js");
      const { DigitrafficIntegrationResponse } = S.load(LIB + "aws/runtime/digitraffic-integration-response.js");
      const { MediaType } = S.load(LIB + "aws/types/mediatypes.js");
      const media = S.choose("media", [MediaType.APPLICATION_JSON, MediaType.TEXT_PLAIN, MediaType.APPLICATION_GEOJSON, MediaType.IMAGE_SVG]);
      const deprecated = S.choose("deprecated", [false, true]);
      const sunset = deprecated ? S.choose("sunset", [undefined, "2024-06-01", "2023-12-31T22:00:00Z"]) : undefined;
      const via = S.choose("via", ["integration", "ok", "badRequest", "notImplemented"]);
      let responses;
      if (via === "integration") responses = new DigitrafficIntegration({}, media, deprecated, sunset).build().$args[1].integrationResponses;
      else if (via === "ok") responses = [DigitrafficIntegrationResponse.ok(media, deprecated, sunset)];
      else { if (deprecated) return; responses = [DigitrafficIntegrationResponse[via](media)]; S.assert(responses[0].statusCode === (via === "badRequest" ? "400" : "501"), "the status it is named after"); }
      S.assert(responses.length === 1 && (via === "badRequest" || via === "notImplemented" || responses[0].statusCode === "200") && responses[0].selectionPattern === undefined, "every answer of the function uses the one response");
      const templates = Object.entries(responses[0].responseTemplates);
      S.assert(templates.length === 1 && templates[0][0] === media, "the response has the media type asked for");
      const status = S.int("status", 100, 599);
      const body = S.str("body", [0, 2], " -~\u00e4");
      const fields = S.choose("fields", [0, 1, 2, 4, 7]);
      const answer = { status, body: Buffer.from(body).toString("base64") };
      if (fields & 1) answer.timestamp = "Sat, 01 Jun 2024 00:00:00 GMT";
      if (fields & 2) answer.etag = S.choose("etag", ['"tag"', 'W/"x"']);
      if (fields & 4) answer.fileName = S.str("file", [1, 2], "a-zA-Z0-9._ -");
      const context = { responseOverride: { header: {} } };
      const out = render(S, templates[0][1], { input: { path: (p) => { S.assert(p === "$", "the whole answer"); return answer; } }, util: { base64Decode: (b) => Buffer.from(b, "base64").toString("utf8") }, context });
      const o = context.responseOverride;
      if (deprecated) { S.reach("deprecated"); S.assert(out.startsWith(body), "the body is the one answered"); S.assert(S.eq(out.substring(body.length).trim(), ""), "nothing but white space follows the body"); } else S.assert(S.eq(out, body), "the body is the one answered");
      if (via === "integration" || via === "ok") S.assert(S.eq(o.status ?? 200, status), "the status is the one answered");
      const ok = S.decide(S.eq(status, 200));
      S.reach(ok ? "ok" : "error");
      S.assert(o.header["Content-Type"] === (ok ? undefined : "text/plain"), "errors are plain text, others have their media type");
      S.assert(o.header["Access-Control-Allow-Origin"] === "*", "answers are open to other origins");
      S.assert(o.header["Last-Modified"] === answer.timestamp && o.header.ETag === answer.etag, "time and tag are the ones answered");
      if (fields & 4) { S.reach("file"); S.assert(S.eq(o.header["Content-Disposition"], 'attachment; filename="' + answer.fileName + '"'), "the file name is the one answered"); } else S.assert(o.header["Content-Disposition"] === undefined, "no file name unless answered");
      S.assert(o.header.Deprecation === (deprecated ? "true" : undefined), "deprecated answers say so");
      S.assert(o.header.Sunset === (sunset ? new Date(sunset).toUTCString() : undefined), "the end date is told when known");
    },
  },
  handlers: {
    bounds: "functions that answer or fail at once or later; default, returning and failing error handlers; default, JSON and own logging wrappers",
    reach: ["answer", "handled", "failure", "own wrapper"],
    async run(S) {
      const log = quiet(S);
      const lines = [];
      const own = S.mock({ info: (m) => lines.push(m) }, "logger");
      const { HandlerFactory, createJsonLoggingHandler } = S.load(DIR + "handler-factory.js");
      const f = new HandlerFactory();
      const wrapper = S.choose("wrapper", ["default", "json", "own"]);
      const trace = [];
      let r = f;
      if (wrapper === "json") r = f.withLoggingHandler(createJsonLoggingHandler());
      if (wrapper === "own") { S.reach("own wrapper"); r = f.withLoggingHandler(async (m, l) => { trace.push("before"); S.assert(l === own, "the logger is passed on"); try { return await m(); } finally { trace.push("after"); } }); }
      S.assert(r === f, "configuration can be continued");
      const failure = new Error("broken"), other = new Error("worse");
      const answer = { status: 200 }, repaired = { status: 500 };
      const errors = S.choose("errors", ["default", "answers", "fails"]);
      const handled = [];
      if (errors !== "default") S.assert(f.withErrorHandler((e, l) => { handled.push(e); trace.push("error"); S.assert(l === own, "the logger is passed on"); if (errors === "fails") throw other; return repaired; }) === f, "configuration can be continued");
      const outcome = S.choose("outcome", ["ok", "throws", "rejects", "later"]);
      const event = { e: S.int("e", 0, 5) };
      const h = f.createEventHandler((e) => {
        trace.push("call");
        S.assert(e === event, "the event is passed unchanged");
        if (outcome === "ok") return Promise.resolve(answer);
        if (outcome === "throws") throw failure;
        if (outcome === "rejects") return Promise.reject(failure);
        return new Promise((_, bad) => setTimeout(() => { trace.push("done"); bad(failure); }, 10));
      }, own);
      const res = await S.settle(() => h(event));
      S.assert(trace.filter((x) => x === "call").length === 1, "the function is called once");
      if (wrapper === "own") S.assert(trace[0] === "before" && trace[trace.length - 1] === "after" && trace.filter((x) => x === "before").length === 1, "the wrapper is around the call and its error handling");
      else S.assert((wrapper === "json" ? lines : log.filter(([l]) => l === "info")).length === 1, "the call is logged once");
      if (outcome === "ok") { S.reach("answer"); S.assert(!res.error && res.value === answer && handled.length === 0, "the answer of the function"); return; }
      if (errors === "default") { S.reach("failure"); S.assert(res.error === failure, "a failure is passed on"); return; }
      S.assert(handled.length === 1 && handled[0] === failure, "the error handler gets the failure once");
      if (errors === "answers") { S.reach("handled"); S.assert(!res.error && res.value === repaired, "the answer of the error handler"); } else { S.reach("failure"); S.assert(res.error === other, "a failure of the error handler is passed on"); }
    },
  },
  describing: {
    bounds: "all flags of a described response; static responses with and without cross-origin, keys and up to two headers",
    reach: ["method", "static", "json"],
    async run(S) {
      const cdk = setup(S);
      const { MediaType } = S.load(LIB + "aws/types/mediatypes.js");
      const model = cdk.make("aws-cdk-lib/aws-apigateway", "Model", undefined, "m");
      const kind = S.choose("kind", ["method", "static", "json"]);
      S.reach(kind);
      const media = S.choose("media", [MediaType.APPLICATION_JSON, MediaType.TEXT_PLAIN]);
      const H = "method.response.header.";
      if (kind === "method") {
        const { DigitrafficMethodResponse: D } = S.load(DIR + "response.js");
        const noCors = S.choose("noCors", [false, true]), dep = S.choose("deprecated", [false, true]), sun = S.choose("sunset", [false, true]);
        const code = S.choose("code", ["200", "400", "404", "500"]);
        const via = S.choose("via", ["response", "named"]);
        if (via === "named" && (noCors || code === "404" || (code !== "200" && (dep || sun)))) return;
        const r = via === "response" ? D.response(code, model, media, noCors, dep, sun) : D["response" + code](model, media, dep, sun);
        S.assert(r.statusCode === code && r.responseModels[media] === model && Object.keys(r.responseModels).length === 1, "status and model");
        const want = [!noCors && H + "Access-Control-Allow-Origin", dep && H + "Deprecation", sun && H + "Sunset"].filter(Boolean);
        S.assert(S.eq(Object.keys(r.responseParameters).sort(), want.sort()) && want.every((k) => r.responseParameters[k] === true), "the headers of the response are declared");
        return;
      }
      const { DigitrafficStaticIntegration: D } = S.load(DIR + "static-integration.js");
      const cors = S.choose("cors", [undefined, false, true]), key = S.choose("key", [undefined, false, true]);
      const headers = S.choose("headers", [undefined, { "X-A": "1" }, { "X-A": "1", "X-B": "b" }]);
      const resource = cdk.make("aws-cdk-lib/aws-apigateway", "Resource", undefined, "r");
      const text = S.str("text", [1, 2], "a-z");
      const value = { a: text };
      const made = kind === "static" ? new D(resource, media, text, model, cors, key, headers) : D.json(resource, value, model, cors, key, headers);
      const type = kind === "json" ? MediaType.APPLICATION_JSON : media;
      const o = made.$args[0] ?? made.$props;
      const first = readJson(S.symbolic ? S : S, Object.values(o.requestTemplates)[0].replace(/200/, '"200"'));
      S.assert(Object.keys(o.requestTemplates).length === 1 && first.get("statusCode") === "200", "the gateway answers itself");
      const expected = { ...headers, ...(cors === false ? {} : { "Access-Control-Allow-Origin": "*" }) };
      const ir = o.integrationResponses;
      S.assert(ir.length === 1 && ir[0].statusCode === "200" && Object.keys(ir[0].responseTemplates).length === 1, "one answer");
      S.assert(S.eq(ir[0].responseTemplates[type], kind === "json" ? JSON.stringify(value) : text), "the given answer with the given type");
      S.assert(S.eq(ir[0].responseParameters, Object.fromEntries(Object.entries(expected).map(([k, v]) => [H + k, `'${v}'`]))), "the given headers");
      const methods = cdk.called("addMethod").filter((x) => x.self === resource);
      S.assert(S.eq(methods.map((m) => m.args[0]).sort(), ["GET", "HEAD"]), "both reading methods");
      for (const m of methods) {
        const r = m.args[2].methodResponses;
        S.assert(m.args[1] === made && m.args[2].apiKeyRequired === (key ?? true), "a key is needed unless told otherwise");
        S.assert(r.length === 1 && r[0].statusCode === "200" && r[0].responseModels[type] === model && S.eq(r[0].responseParameters, Object.fromEntries(Object.keys(expected).map((k) => [H + k, true]))), "the answer is described with its headers");
      }
    },
  },
};
