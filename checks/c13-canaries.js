import { quiet, LIB } from "./_util.js";
export const property = {
  id: "C13",
  title: "Canaries raise the alarm exactly when the service is wrong",
  statement: "For every response (status, headers, body in any chunks, compressed or not) and every database count, a canary check passes exactly when the response or count is what was asked for: the expected status and content type for negative checks, every given checker satisfied for positive ones, every count within its limits; all other outcomes make the canary fail. Checkers see the exact body the service sent. The checks for missing credentials never send the API key, all other requests do, and step names contain only permitted characters and never the value of an auth parameter.",
  quantifier: { over: ["inputs", "schedules"], text: "all status codes, header values, chunkings, checker outcomes, counts and step schedules within the bounds" },
  why_tests_cant: "The canary code has no tests at all, and a check that never fails looks healthy in any run against a healthy service.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts", "lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts"],
    mechanism: [{ name: "UrlChecker, ResponseChecker, ContentChecker, ContentTypeChecker, HeaderChecker, GeoJsonChecker", where: "lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts" }, { name: "DatabaseCountChecker", where: "lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts" }],
    observe_at: "requests and steps handed to CloudWatch Synthetics, verdicts of the checks",
  },
  assumptions: ["CloudWatch Synthetics is a stand-in: an HTTP step performs the request, hands the response to the callback and fails when the callback fails; a plain step runs its function at once or a little later and continues after a failure", "gzip is a stand-in that undoes an invertible byte transformation and rejects anything else"],
};
const URLS = LIB + "aws/infra/canaries/url-checker.js";
const DBS = LIB + "aws/infra/canaries/database-checker.js";
// a fake compression that survives no text decoding: 1f 8b ff, then the bytes with the top bit flipped
const zip = (text) => Buffer.concat([Buffer.from([0x1f, 0x8b, 0xff]), Buffer.from([...Buffer.from(text)].map((b) => b ^ 0x80))]);
const gunzip = (b) => {
  if (!Buffer.isBuffer(b) || b[0] !== 0x1f || b[1] !== 0x8b || b[2] !== 0xff) throw new Error("incorrect header check");
  return Buffer.from([...b.subarray(3)].map((x) => x ^ 0x80));
};
function world(S) {
  const w = { steps: [], config: [], log: quiet(S), keys: [] };
  const config = () => { const c = S.mock(Object.fromEntries(["withIncludeRequestBody", "withIncludeRequestHeaders", "withIncludeResponseBody", "withIncludeResponseHeaders", "withFailedCanaryMetric", "disableRequestMetrics"].map((k) => [k, (v) => { w.config.push([k, v]); return c; }])), "config"); return c; };
  const syn = S.mock({
    getConfiguration: config,
    executeHttpStep: async (name, options, callback) => {
      w.steps.push({ name, options });
      const res = w.respond();
      await callback(res);
    },
    executeStep: async (name, f, c) => {
      w.steps.push({ name, c });
      if (w.stepDelay) await new Promise((r) => setTimeout(r, w.stepDelay));
      try { f(); } catch (e) { if (!(c && c.continueOnStepFailure)) throw e; }
    },
  }, "synthetics");
  S.stub("Synthetics", { default: syn, __esModule: true });
  S.stub("zlib", { default: { gunzipSync: gunzip }, gunzipSync: gunzip, __esModule: true });
  S.stub("vitest", { expect: () => S.gap("expect") });
  S.stub("aws/runtime/apikey", { getApiKeyFromAPIGateway: async (id) => { w.keys.push(id); return { value: "key of " + id }; } });
  return w;
}
const response = (S, o) => {
  const handlers = { data: [], end: [] };
  const chunks = o.chunks ?? [];
  const res = S.mock({
    statusCode: o.status, statusMessage: "message", headers: o.headers ?? {},
    on(ev, f) {
      handlers[ev]?.push(f);
      if (ev === "end" && handlers.end.length === 1) setTimeout(() => { for (const c of chunks) for (const g of [...handlers.data]) g(c); for (const g of [...handlers.end]) g(); }, 1);
      return res;
    },
    once(ev, f) { return res.on(ev, f); },
  }, "response");
  return res;
};
const passed = async (S, f) => !(await S.settle(f)).error;
export const harnesses = {
  negative: {
    bounds: "404, 400 and missing-key checks; any status 100..599; content types text, JSON or another symbolic text; with and without a configured key",
    reach: ["pass", "wrong status", "wrong type"],
    async run(S) {
      const w = world(S);
      const { UrlChecker, API_KEY_HEADER } = S.load(URLS);
      const key = S.choose("key", ["secret-key", undefined]);
      const c = new UrlChecker("host.example", key);
      const [kind, expected] = S.choose("kind", [["404", 404], ["400", 400], ["403", 403]]);
      const mt = kind === "403" ? S.choose("media", [undefined, "text/csv"]) : undefined;
      const wanted = kind === "403" ? (mt ?? "application/json") : "text/plain";
      const status = S.int("status", 100, 599);
      const type = S.choose("type", ["application/json", "text/plain", "text/csv", undefined, "symbolic"]);
      const ct = type === "symbolic" ? S.str("ct", [0, 12], "a-z/") : type;
      w.respond = () => response(S, { status, headers: ct === undefined ? {} : { "content-type": ct } });
      const ok = await passed(S, () => (kind === "404" ? c.expect404("/x") : kind === "400" ? c.expect400("/x") : mt ? c.expect403WithoutApiKey("/x", mt) : c.expect403WithoutApiKey("/x")));
      const right = S.and(S.eq(status, expected), ct === undefined ? false : S.eq(ct, wanted));
      S.assert(S.iff(ok, right), "passes exactly for the expected status and content type");
      if (ok) S.reach("pass"); else if (S.decide(S.eq(status, expected))) S.reach("wrong type"); else S.reach("wrong status");
      S.assert(w.steps.length === 1, "one request");
      const o = w.steps[0].options;
      S.assert(o.hostname === "host.example" && o.path === "/x" && o.method === "GET" && o.protocol === "https:", "the request goes to the given address");
      S.assert((o.headers[API_KEY_HEADER] ?? undefined) === (kind === "403" ? undefined : key), "the key is sent except when checking that it is needed");
      S.assert(o.headers["Digitraffic-User"] === "internal-digitraffic-canary", "the canary identifies itself");
      // the next request has the key again
      w.respond = () => response(S, { status: 404, headers: { "content-type": "text/plain" } });
      await c.expect404("/y");
      S.assert((w.steps[1].options.headers[API_KEY_HEADER] ?? undefined) === key && w.steps[1].options.path === "/y", "other requests send the key");
    },
  },
  positive: {
    bounds: "1 or 2 checkers out of content type, header, JSON, text and custom ones that pass or fail at once or later, or 3 or 4 custom ones; any status 100..599; header values present, absent or empty",
    reach: ["pass", "fails at once", "fails later", "fails in the first", "fails in the last"],
    async run(S) {
      const w = world(S);
      const { UrlChecker, ContentTypeChecker, ContentChecker, HeaderChecker, API_KEY_HEADER } = S.load(URLS);
      S.world.process.env.HOSTNAME = "host.example";
      const { ENV_HOSTNAME, ENV_API_KEY } = S.load(LIB + "aws/infra/canaries/canary-keys.js");
      S.world.process.env[ENV_HOSTNAME] = "host.example"; S.world.process.env[ENV_API_KEY] = "key-id";
      const c = S.choose("create", [true, false]) ? await UrlChecker.create("host.example", "key-id") : await UrlChecker.createV2();
      for (const [k, v] of w.config) S.assert(v === undefined || v === (k === "withFailedCanaryMetric"), "neither headers nor bodies are recorded, failures are");
      S.assert(w.config.filter(([, v]) => v !== undefined).length === 5, "recording is configured");
      S.assert(w.keys.length === 1 && w.keys[0] === "key-id", "the key with the given identifier is read");
      const status = S.int("status", 100, 599);
      const headers = { "content-type": S.choose("type", ["application/json", "text/plain"]) };
      const cors = S.choose("cors", [undefined, "*"]);
      if (cors) headers["access-control-allow-origin"] = cors;
      const extra = S.choose("extra", [undefined, "v"]);
      if (extra !== undefined) headers["x-extra"] = extra;
      const n = S.choose("n", [1, 2, 3, 4]);
      const body = '{"a":1,"b":"ä"}';
      w.respond = () => response(S, { status, headers, chunks: [Buffer.from(body)] });
      const list = [], want = [];
      let later = false, once = false;
      const in2xx = S.and(status >= 200, status <= 299);
      for (let i = 0; i < n; i++) {
        const k = n > 2 ? (i === 1 ? "sync" : "late") : S.choose("checker" + i, i === 0 ? ["type", "json", "text", "present", "missing", "sync", "late"] : ["type", "json", "sync"]);
        const good = k === "type" || k === "present" || k === "missing" ? undefined : S.choose("good" + i, [true, false]);
        if (k === "type") { list.push(ContentTypeChecker.checkContentType("application/json")); want.push(S.and(in2xx, cors === "*", headers["content-type"] === "application/json")); }
        if (k === "present") { list.push(HeaderChecker.checkHeaderExists("x-extra")); want.push(extra !== undefined); }
        if (k === "missing") { list.push(HeaderChecker.checkHeaderMissing("x-extra")); want.push(extra === undefined); }
        if (k === "json") { list.push(ContentChecker.checkJson((j, text) => { if (j.a !== 1 || j.b !== "ä" || text !== body) S.fail("the checker gets the body"); if (!good) throw new Error("json"); })); want.push(good); if (!good) later = true; }
        if (k === "text") { list.push(ContentChecker.checkResponse((text) => { if (text !== body) S.fail("the checker gets the body"); if (!good) throw new Error("text"); })); want.push(good); if (!good) later = true; }
        if (k === "sync") { list.push(() => { if (!good) throw new Error("sync"); return Promise.resolve(); }); want.push(good); if (!good) once = true; }
        if (k === "late") { list.push(async () => { await new Promise((r) => setTimeout(r, 50)); if (!good) throw new Error("late"); }); want.push(good); if (!good) later = true; }
      }
      const ok = await passed(S, () => c.expect200("/x", ...list));
      S.assert(S.implies(S.not(S.and(...want)), !ok), "a failing checker fails the canary");
      S.assert(S.implies(S.not(S.eq(status, 200)), !ok), "a status other than 200 fails the canary");
      S.assert(S.implies(S.and(S.eq(status, 200), ...want), ok), "the canary passes when every checker is satisfied");
      if (ok) S.reach("pass");
      else { if (once) S.reach("fails at once"); if (later) S.reach("fails later"); if (n === 2 && want[1] === true) S.reach("fails in the first"); if (n === 2 && want[0] === true) S.reach("fails in the last"); }
      S.assert(w.steps[0].options.hostname === "host.example" && w.steps[0].options.headers[API_KEY_HEADER] === "key of key-id" && w.steps[0].options.path === "/x", "the request is sent with the key");
    },
  },
  status: {
    bounds: "a positive check without checkers, any status 100..599",
    reach: ["done"],
    async run(S) {
      const w = world(S);
      const { UrlChecker } = S.load(URLS);
      const c = new UrlChecker("h", "k");
      const status = S.int("status", 100, 599);
      w.respond = () => response(S, { status, headers: { "content-type": "text/plain" } });
      const ok = await passed(S, () => c.expect200("/x"));
      S.reach("done");
      S.assert(S.implies(S.eq(status, 200), ok), "status 200 passes");
      S.assert(S.implies(ok, S.eq(status, 200)), "a check for 200 without checkers fails for other statuses");
    },
  },
  checker: {
    bounds: "the five response checkers; any status 0..599 or none; CORS header present, absent or empty; content type right, wrong, absent or a symbolic text",
    reach: ["pass", "fail"],
    async run(S) {
      const w = world(S);
      const { ResponseChecker, GeoJsonChecker, ContentTypeChecker } = S.load(URLS);
      const { MediaType } = S.load(LIB + "aws/types/mediatypes.js");
      const kind = S.choose("kind", ["json", "csv", "geojson", "jpeg", "custom", "features", "type only"]);
      const type = { json: "application/json", csv: "text/csv", geojson: MediaType.APPLICATION_GEOJSON, jpeg: "image/jpeg", custom: "x/y", "type only": "text/plain", features: MediaType.APPLICATION_GEOJSON }[kind];
      const status = S.choose("has status", [true, false]) ? S.int("status", 0, 599) : undefined;
      const cors = S.choose("cors", [undefined, "*", ""]);
      const t = S.choose("type", ["right", "absent", "symbolic"]);
      const ct = t === "right" ? type : t === "absent" ? undefined : S.str("ct", [type.length - 1, type.length], "a-zA-Z0-9/+;=-");
      const headers = {};
      if (cors !== undefined) headers["access-control-allow-origin"] = cors;
      if (ct !== undefined) headers["content-type"] = ct;
      const good = S.choose("good", [true, false]);
      const gt = kind === "features" ? S.choose("geo", ["FeatureCollection", "Feature", "Point", "broken"]) : undefined;
      const geo = { FeatureCollection: { type: "FeatureCollection", features: [] }, Feature: { type: "Feature", geometry: { type: "Point", coordinates: [1, 2] }, properties: {} }, Point: { type: "Point", coordinates: [1, 2] }, broken: { type: "FeatureCollection", features: [{ type: "Feature", properties: {}, geometry: { type: "Point", coordinates: ["1"] } }] } };
      const value = gt ? geo[gt] : { n: 5 };
      const res = response(S, { status, headers, chunks: [Buffer.from(JSON.stringify(value))] });
      let seen = 0;
      const fn = (json) => { seen++; if (JSON.stringify(json) !== JSON.stringify(value)) S.fail("the checker gets the parsed body"); if (!good) throw new Error("no"); };
      let checker;
      if (kind === "type only") checker = ContentTypeChecker.checkContentType(type);
      else if (kind === "features") checker = GeoJsonChecker.validFeatureCollection(fn);
      else { const r = { json: () => ResponseChecker.forJson(), csv: () => ResponseChecker.forCSV(), geojson: () => ResponseChecker.forGeojson(), jpeg: () => ResponseChecker.forJpeg(), custom: () => new ResponseChecker("x/y") }[kind](); checker = S.choose("with function", [true, false]) ? r.checkJson(fn) : undefined; if (!checker) { checker = r.check(); } }
      const ok = await passed(S, () => checker(res));
      const plain = seen === 0 && kind !== "features"; // no function, or not reached
      const basic = S.and(status === undefined ? false : S.and(status >= 200, status <= 299), cors === "*", ct === undefined ? false : S.eq(ct, type));
      S.assert(S.implies(ok, basic), "only a successful response of the right type with CORS passes");
      if (seen) S.assert(ok === (good && (gt === undefined || gt === "FeatureCollection")), "passes exactly when the content check does");
      else if (gt !== undefined) S.assert(S.implies(basic, gt !== "FeatureCollection"), "the content check is applied");
      else S.assert(S.implies(S.and(basic, plain), ok), "a right response passes");
      if (gt !== undefined && gt !== "FeatureCollection") S.assert(!ok, "anything but a feature collection fails");
      S.reach(ok ? "pass" : "fail");
    },
  },
  body: {
    bounds: "bodies with characters of 1 to 3 bytes split at every pair of byte positions, plain or compressed, compressed-labelled garbage",
    reach: ["plain", "compressed", "split character"],
    async run(S) {
      const w = world(S);
      const { ContentChecker, ResponseChecker } = S.load(URLS);
      const text = '{"a":"ä€x"}';
      const gz = S.choose("gz", [false, true]);
      const bytes = gz ? zip(text) : Buffer.from(text);
      const i = S.choose("i", Array.from({ length: bytes.length + 1 }, (_, k) => k)), j = S.thorough ? S.choose("j", Array.from({ length: bytes.length + 1 - i }, (_, k) => i + k)) : bytes.length;
      const chunks = [bytes.subarray(0, i), bytes.subarray(i, j), bytes.subarray(j)].filter((b) => b.length);
      const headers = { "content-type": "application/json", "access-control-allow-origin": "*" };
      if (gz) headers["content-encoding"] = "gzip";
      const res = response(S, { status: 200, headers, chunks });
      let got, parsed;
      const how = S.choose("how", ["text", "json", "response"]);
      const ck = how === "text" ? ContentChecker.checkResponse((b) => { got = b; }) : how === "json" ? ContentChecker.checkJson((v, b) => { parsed = v; got = b; }) : ResponseChecker.forJson().checkJson((v, b) => { parsed = v; got = b; });
      const r = await S.settle(() => ck(res));
      S.assert(!r.error, "an intact body is accepted");
      S.assert(got === text, "the checker sees the exact body");
      if (how !== "text") S.assert(parsed && parsed.a === "ä€x", "the checker sees the parsed body");
      S.reach(gz ? "compressed" : "plain");
      if (!gz && i > 6 && i < 8) S.reach("split character");
    },
  },
  names: {
    bounds: "addresses of 0..3 arbitrary characters, auth parameters with two different values of up to 3 characters",
    reach: ["plain", "auth"],
    async run(S) {
      const w = world(S);
      const { UrlChecker } = S.load(URLS);
      const c = new UrlChecker("h", "k");
      w.respond = () => response(S, { status: 404, headers: { "content-type": "text/plain" } });
      const url = "/" + S.str("url", [0, 3], "\x01-ÿ");
      if (S.choose("auth", [false, true])) {
        S.reach("auth");
        const m = S.choose("m", ["404", "200"]);
        const go = (u) => (m === "404" ? c.expect404(u) : S.settle(() => c.expect200(u)));
        await go(url + "?auth=" + S.str("one", [1, 3], "!-~"));
        await go(url + "?auth=" + S.str("two", [1, 3], "!-~"));
        S.assert(S.eq(w.steps[0].name, w.steps[1].name), "the step name does not reveal the auth parameter");
      } else {
        S.reach("plain");
        await c.expect404(url);
      }
      const name = w.steps[0].name;
      for (let i = 0; i < S.len(name); i++) {
        const ch = name.charCodeAt(i);
        S.assert(S.or(S.and(ch >= 48, ch <= 57), S.and(ch >= 65, ch <= 90), S.and(ch >= 97, ch <= 122), S.eq(ch, 45), S.eq(ch, 95), S.eq(ch, 46), S.eq(ch, 32)), "step names contain only permitted characters");
      }
    },
  },
  counts: {
    bounds: "up to 2 (thorough: 3) count checks, counts 0..1000 given as numbers (or missing), steps run at once or 10 ms later, failing queries",
    reach: ["pass", "fail", "query fails", "none", "no count"],
    async run(S) {
      const w = world(S);
      const events = [];
      const holder = (n) => ({ create: () => ({ setCredentials: async () => { await new Promise((r) => setTimeout(r, 5)); events.push("credentials " + n); } }) });
      S.stub("secrets/proxy-holder", { ProxyHolder: holder("proxy") });
      S.stub("secrets/rds-holder", { RdsHolder: holder("rds") });
      const sql = {};
      S.stub("database/database", { inDatabaseReadonly: async (f) => { events.push("session"); const r = await f(S.mock({ one: async (q) => { events.push(q); const v = sql[q]; if (v === "fail") throw new Error("query failed"); return v === "none" ? {} : { count: v }; } }, "db")); events.push("closed"); return r; } });
      w.stepDelay = S.choose("step", [0, 10]);
      const { DatabaseCountChecker: D } = S.load(DBS);
      const which = S.choose("which", ["proxy", "rds"]);
      const c = which === "proxy" ? D.createForProxy() : D.createForRds();
      const n = S.choose("n", S.thorough ? [0, 1, 2, 3] : [0, 1, 2]);
      const good = [];
      let broken = false;
      for (let i = 0; i < n; i++) {
        const q = `select count(*) from t${i}`;
        const kind = S.choose("kind" + i, ["one", "zero", "more"]);
        const val = S.choose("value" + i, ["count", "fail", "none"]);
        const count = val === "count" ? S.int("count" + i, 0, 1000) : val;
        sql[q] = count;
        const same = kind === "one" ? c.expectOne("n" + i, q) : kind === "zero" ? c.expectZero("n" + i, q) : c.expectOneOrMore("n" + i, q);
        S.assert(same === c, "checks can be chained");
        if (val === "fail") { broken = true; S.reach("query fails"); }
        if (val === "none") S.reach("no count");
        good.push(val !== "count" ? false : kind === "one" ? S.eq(count, 1) : kind === "zero" ? S.eq(count, 0) : count >= 1);
      }
      const r = await S.settle(() => c.expect());
      if (n === 0) { S.reach("none"); S.assert(!!r.error, "no checks is a failure"); return; }
      S.assert(S.iff(!r.error, S.and(...good)), "passes exactly when every count is within its limits");
      if (!r.error) S.assert(r.value === "OK", "says OK");
      S.reach(r.error ? "fail" : "pass");
      S.assert(events[0] === "credentials " + which && events[1] === "session", "credentials are set before the session");
      if (!broken) S.assert(S.eq(events.slice(2, 2 + n), Array.from({ length: n }, (_, i) => `select count(*) from t${i}`)), "every check is run");
      if (!broken) S.assert(w.steps.length === n && w.steps.every((s, i) => s.name === "n" + i), "one step per check");
    },
  },
  "count rules": {
    bounds: "every check given a query that does not count",
    reach: ["refused", "accepted"],
    async run(S) {
      world(S);
      S.stub("secrets/proxy-holder", { ProxyHolder: { create: () => ({ setCredentials: async () => undefined }) } });
      S.stub("secrets/rds-holder", { RdsHolder: {} });
      S.stub("database/database", { inDatabaseReadonly: async () => undefined });
      const { DatabaseCountChecker: D } = S.load(DBS);
      const q = S.choose("sql", ["SELECT COUNT(*) FROM x", "select count(1) from y where z > 1", "select * from x", "delete from count", "", "count"]);
      const m = S.choose("m", ["expectOne", "expectZero", "expectOneOrMore"]);
      const r = S.sync(() => D.createForProxy()[m]("n", q));
      const counts = /select/i.test(q) && /count/i.test(q);
      S.assert(!r.error === counts, "only counting queries are accepted");
      S.reach(counts ? "accepted" : "refused");
    },
  },
};
