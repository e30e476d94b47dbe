import { cdkRecorder } from "./_cdk.js";
import { quiet } from "./_util.js";
const P = "other/cloudfront/src/";
export const property = {
  id: "C35",
  title: "Edge functions let through, rewrite and mark requests as they promise",
  statement: "At the edge of the content network a GET without gzip is refused and every preflight is answered, only listed addresses pass an address restriction, answers to GET get the cross-origin headers, and paths are shortened, completed or redirected as the function was deployed to do, while everything else passes unchanged. Camera images with a query go to the history service, keep the time they were taken, and are replaced by the placeholder when they are missing or forbidden. Traffic measurement history requests reach the raw files of their year, the history service with all and only their own parameters and its key, or the web page, incomplete ones are refused, and the answers are named files that carry no key.",
  quantifier: { over: ["inputs"], text: "any method, address, header text, path and parameters up to a few characters each, any combination of parameters given once, twice or not at all" },
  why_tests_cant: "The tests send a dozen fixed requests to functions whose placeholders have not been replaced, and look at a few fields of what comes out.",
  anchors: {
    files: [P + "lambda", P + "util/lambda-creator.ts", P + "util/function-creator.ts"],
    mechanism: [{ name: "handler", where: P + "lambda/lambda-lam-redirect.ts" }, { name: "handler", where: P + "lambda/lambda-gzip-requirement.ts" }, { name: "handler", where: P + "lambda/lambda-ip-restriction.ts" }, { name: "createIpRestriction, createWeathercamRewrite", where: P + "util/lambda-creator.ts" }, { name: "createPathRewriteFunction", where: P + "util/function-creator.ts" }],
    observe_at: "what the deployed text of each function returns for an event of the content network",
  },
  assumptions: ["header names arrive in lower case and every header has a value, as the content network sends them", "the bundler puts exports last, as it does in the published functions"],
};
const CORS = { "access-control-allow-origin": "*", "access-control-allow-methods": "GET, POST, OPTIONS" };
// deploys a function with its creator, and runs the text that was deployed
function deploy(S, module, create) {
  const cdk = cdkRecorder(S), log = quiet(S);
  const source = S.published(P + "lambda/" + module + ".ts");
  const read = [];
  S.stub("node:fs", { default: { readFileSync: (name) => { read.push(name); return source.text; } } });
  const made = create(S.load(P + "util/lambda-creator.ts"), S.load(P + "util/function-creator.ts"), cdk.make("aws-cdk-lib", "Stack", undefined, "stack", {}));
  S.assert(read.length === 1 && read[0] === `dist/lambda/${module}.cjs`, "the function that was asked for is deployed");
  const fn = cdk.of("Function")[0];
  let text = fn.$props.code.$args[0];
  const edge = fn.$module === "aws-cdk-lib/aws-lambda" || fn.$props.handler !== undefined;
  if (edge) S.assert(fn.$props.handler === "index.handler", "the handler is called");
  else { S.assert(!/^exports\./m.test(text), "a plain function exports nothing"); text += "\nexports.handler = handler;"; }
  return { handler: source.run(text).handler, log, made, fn, cdk };
}
// a module as it is
function load(S, module) { quiet(S); return S.load(P + "lambda/" + module + ".ts").handler; }
const event = (request, response) => ({ Records: [{ cf: { request, ...(response && { response }), config: {} } }] });
const header = (name, value) => ({ [name]: [{ key: name, value }] });
const copy = (x) => (Array.isArray(x) ? x.map(copy) : x && typeof x === "object" && Object.getPrototypeOf(x) === Object.prototype ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, copy(v)])) : x);
const method = (S) => { const m = S.choose("method", ["GET", "HEAD", "OPTIONS", "other"]); return m === "other" ? S.str("verb", [3, 4], "A-Z") : m; };
function isCors(S, headers, list) {
  for (const [k, v] of Object.entries(CORS)) {
    const h = headers[k];
    if (!h) S.fail("cross-origin callers may read the answer: " + k);
    S.assert(S.eq(list ? h[0].value : h.value, v), "cross-origin callers may read the answer: " + k);
    if (list) S.assert(h.length === 1 && h[0].key.toLowerCase() === k, "one header of each");
  }
  for (const k of ["access-control-allow-headers", "access-control-expose-headers"]) S.assert(/Digitraffic-User/.test(list ? headers[k]?.[0].value : headers[k]?.value), "callers may name themselves");
}
async function without(S, handler) {
  const e = S.choose("event", [{}, { Records: [] }]), out = await S.settle(() => handler(e, {}, () => {}));
  S.assert(out.error !== undefined, "an event without a record is an error");
  S.reach("no record");
}
function segments(S, n) { return Array.from({ length: n }, (_, i) => S.str("part" + i, [0, 2], "a-c.")); }
export const harnesses = {
  gzip: {
    bounds: "any method of 3 or 4 letters, no accepted encoding, or any text of up to 8 characters of the letters of gzip, with up to one more value",
    reach: ["preflight", "refused", "passes", "not asked", "no record"],
    async run(S) {
      const { handler } = deploy(S, "lambda-gzip-requirement", (l, f, stack) => l.createGzipRequirement(stack, {}));
      if (S.choose("bad", [false, true])) return without(S, handler);
      const m = method(S), given = S.choose("given", [false, true]), value = S.str("encoding", [0, 8], "gzip, br");
      const request = { method: m, uri: "/api/x", querystring: "", clientIp: "192.0.2.1", headers: { host: [{ key: "Host", value: "h" }], ...(given && { "accept-encoding": [{ key: "Accept-Encoding", value }, ...(S.choose("more", [false, true]) ? [{ key: "Accept-Encoding", value: "br" }] : [])] }) } };
      const before = copy(request);
      const r = await handler(event(request), {}, () => {});
      if (S.decide(S.eq(m, "OPTIONS"))) {
        S.assert(r.status === "204", "a preflight is answered");
        isCors(S, r.headers, true);
        S.assert(r.headers["access-control-max-age"]?.[0].value === "86400", "for a day");
        return S.reach("preflight");
      }
      const ok = given && S.decide(value.includes("gzip"));
      if (S.decide(S.eq(m, "GET")) && !ok) { S.assert(r.status === "406" && r.statusDescription === "Not Acceptable", "gzip is required"); return S.reach("refused"); }
      S.assert(S.eq(r, before), "passes unchanged");
      S.reach(ok ? "passes" : "not asked");
    },
  },
  cors: {
    bounds: "any method of 3 or 4 letters, any other headers and status",
    reach: ["lambda marked", "lambda unmarked", "function marked", "function unmarked", "no record"],
    async run(S) {
      const plain = S.choose("plain", [false, true]);
      const { handler } = plain ? deploy(S, "function-http-headers", (l, f, stack) => f.createHttpHeadersFunction(stack)) : deploy(S, "lambda-http-headers", (l, f, stack) => l.createHttpHeaders(stack, {}));
      if (!plain && S.choose("bad", [false, true])) return without(S, handler);
      const m = method(S), status = S.choose("status", ["200", "404"]), type = S.str("type", [1, 2], "a-z/");
      const response = plain ? { statusCode: 200, headers: { "content-type": { value: type } } } : { status, statusDescription: "x", headers: header("content-type", type) };
      const before = copy(response);
      const request = { method: m, uri: "/x", headers: {} };
      const r = await (plain ? handler({ request, response }) : handler(event(request, response), {}, () => {}));
      const what = plain ? "function" : "lambda";
      const rest = { ...r, headers: Object.fromEntries(Object.entries(r.headers).filter(([k]) => !k.startsWith("access-control-"))) };
      S.assert(S.eq(rest, before), "the rest of the answer stays");
      if (S.decide(S.eq(m, "GET"))) { isCors(S, r.headers, !plain); S.reach(what + " marked"); }
      else { S.assert(S.eq(r, before), "other answers pass unchanged"); S.reach(what + " unmarked"); }
    },
  },
  address: {
    bounds: "lists of one to three addresses, any caller's address of up to 12 characters",
    reach: ["allowed", "forbidden", "no record"],
    async run(S) {
      const list = S.choose("list", ["192.0.2.1", "192.0.2.1,192.0.2.22", "10.0.0.1,::1,192.0.2.1"]);
      const { handler } = deploy(S, "lambda-ip-restriction", (l, f, stack) => l.createIpRestriction(stack, {}, "path", list));
      if (S.choose("bad", [false, true])) return without(S, handler);
      const ip = S.str("ip", [0, 12], "0-2.:,");
      const request = { method: "GET", uri: "/x", querystring: "", clientIp: ip, headers: {} }, before = copy(request);
      const r = await handler(event(request), {}, () => {});
      if (S.decide(S.or(...list.split(",").map((a) => S.eq(ip, a))))) { S.assert(S.eq(r, before), "a listed address passes"); S.reach("allowed"); }
      else { S.assert(r.status === "403" && r.clientIp === undefined && r.uri === undefined, "other addresses do not"); S.reach("forbidden"); }
    },
  },
  paths: {
    bounds: "paths of up to 4 parts of up to 2 characters, 1..3 parts to remove; three addresses to redirect to",
    reach: ["completed", "as it is", "shortened", "too short", "redirected"],
    async run(S) {
      const kind = S.choose("kind", ["index", "remove", "redirect"]);
      if (kind === "redirect") {
        const url = S.choose("url", ["https://www.digitraffic.fi/", "https://www.digitraffic.fi/tieliikenne?a=b", "/swagger/index.html"]);
        const { handler } = deploy(S, "function-redirect", (l, f, stack) => f.createRedirectFunction(stack, url));
        const r = handler({ request: { uri: "/" + S.str("uri", [0, 3], "a-c/"), method: method(S) } });
        S.assert(r.statusCode === 302 && r.headers.location.value === url, "everything is redirected");
        return S.reach("redirected");
      }
      const parts = segments(S, S.choose("n", [1, 2, 3, 4])), uri = parts.map((p) => "/" + p).join("");
      if (kind === "index") {
        const { handler } = deploy(S, "function-index-html", (l, f, stack) => f.createIndexHtml(stack));
        const r = handler({ request: { uri, method: "GET" } });
        const open = S.decide(S.eq(parts[parts.length - 1], ""));
        S.assert(S.eq(r.uri, open ? uri + "index.html" : uri), "a folder is its page"), S.assert(r.method === "GET", "the rest stays");
        return S.reach(open ? "completed" : "as it is");
      }
      const count = S.choose("count", [1, 2, 3]);
      const { handler } = deploy(S, "function-rewrite-uri", (l, f, stack) => f.createPathRewriteFunction(stack, count));
      const r = handler({ request: { uri, method: "GET" } });
      const left = parts.slice(Math.min(count, parts.length - 1));
      S.assert(S.eq(r.uri, left.map((p) => "/" + p).join("")), "the first parts of the path are removed");
      S.reach(count < parts.length ? "shortened" : "too short");
    },
  },
  camera: {
    bounds: "any query of up to 2 characters; any status, method, times under either name",
    reach: ["history", "current", "placeholder", "taken", "no time", "not GET", "no record"],
    async run(S) {
      if (S.choose("request", [true, false])) {
        const { handler } = deploy(S, "lambda-weathercam-rewrite", (l, f, stack) => l.createWeathercamRewrite(stack, {}, "history.example.com", "api.example.com"));
        if (S.choose("bad", [false, true])) return without(S, handler);
        const q = S.str("query", [0, 2], "a-c=");
        const request = { method: "GET", uri: "/C123.jpg", querystring: q, headers: { ...header("host", "bucket"), ...header("accept", "image/jpeg") }, origin: { s3: { domainName: "bucket" } } }, before = copy(request);
        const r = await handler(event(request), {}, () => {});
        if (S.decide(S.eq(q, ""))) { S.assert(S.eq(r, before), "current images come from where they were"); return S.reach("current"); }
        S.assert(S.eq({ ...r, origin: 0, headers: { ...r.headers, host: 0 } }, { ...before, origin: 0, headers: { ...before.headers, host: 0 } }), "the rest of the request stays");
        const c = r.origin.custom;
        S.assert(r.origin.s3 === undefined && c.domainName === "history.example.com" && c.port === 80 && c.protocol === "http" && c.path === "" && Object.keys(c.customHeaders).length === 0, "old images come from the history service");
        S.assert(S.eq(r.headers.host, [{ key: "host", value: "api.example.com" }]), "under its name");
        return S.reach("history");
      }
      const { handler } = deploy(S, "lambda-weathercam-http-headers", (l, f, stack) => l.createWeathercamHttpHeaders(stack, {}));
      if (S.choose("bad", [false, true])) return without(S, handler);
      const status = S.str("status", 3, "0-5"), m = method(S);
      const lower = S.choose("lower", [false, true]), upper = S.choose("upper", [false, true]), old = S.choose("old", [false, true]);
      const t = S.str("time", 3, "a-z0-9"), t2 = S.str("time2", 3, "a-z0-9");
      const response = { status, statusDescription: "x", headers: { ...header("content-length", "12"), ...header("content-type", "application/xml"), ...(lower && header("x-amz-meta-last-modified", t)), ...(upper && header("X-Amz-Meta-Last-Modified", t2)), ...(old && header("last-modified", "uploaded")) } };
      const before = copy(response), request = { method: m, uri: "/C1.jpg", headers: {} };
      const r = await handler(event(request, response), {}, () => {});
      if (S.decide(S.or(S.eq(status, "403"), S.eq(status, "404")))) {
        S.assert(r === response, "headers that may not be removed stay");
        S.assert(r.status === "200" && S.eq(r.headers["content-length"], before.headers["content-length"]), "a missing image is an answer");
        S.assert(S.eq(r.headers["content-type"].map((h) => h.value), ["image/jpeg"]) && S.eq(r.headers["cache-control"].map((h) => h.value), ["no-cache"]), "an image that is asked again");
        S.assert(r.bodyEncoding === "base64" && r.body.length > 1000 && Buffer.from(r.body, "base64").subarray(0, 3).toString("hex") === "ffd8ff", "the placeholder");
        return S.reach("placeholder");
      }
      S.assert(r.body === undefined, "an image that exists is shown");
      const same = { ...before, headers: { ...before.headers } };
      if (S.decide(S.eq(m, "GET"))) {
        if (lower || upper) same.headers["last-modified"] = [{ key: "last-modified", value: lower ? t : t2 }];
        S.reach(lower || upper ? "taken" : "no time");
      } else S.reach("not GET");
      S.assert(S.eq(r, same), "the time an image was taken");
    },
  },
  lamAnswer: {
    bounds: "answers of the history service or of files, any type and date or week given once, twice or not, with any keys in the answer",
    reach: ["named", "week", "a file", "undated", "no record"],
    async run(S) {
      stubQuery(S);
      const { handler, log } = deploy(S, "lambda-lam-headers", (l, f, stack) => l.createLamHeaders(stack, {}));
      if (S.choose("bad", [false, true])) return without(S, handler);
      const remapped = S.choose("remapped", [false, true]), key = S.choose("key", [false, true]), fwd = S.choose("forwarded", [false, true]);
      const uri = S.str("api", [1, 2], "a-z"), given = {};
      for (const k of ["tyyppi", "pvm", "viikko"]) given[k] = [() => [], () => [S.str(k + "0", [0, 1], "a-z0-9-")], () => ["x", "y"]][S.choose(k, remapped ? [0, 1, 2] : [0])]();
      const response = { status: "200", headers: { ...header("content-type", "application/json"), ...(remapped && header("x-amzn-remapped-host", "h")), ...(key && header("x-api-key", "secret")), ...(fwd && header("x-amzn-remapped-x-forwarded-for", "192.0.2.1")) } };
      const before = copy(response), request = { uri: "/" + uri, querystring: write(given), method: "GET", headers: {} };
      const out = await S.settle(() => handler(event(request, response), {}, () => {}));
      const one = (k) => (given[k].length === 1 ? given[k][0] : "");
      let when = one("pvm"), week = false;
      if (S.decide(S.eq(when, ""))) { when = one("viikko"); week = true; }
      if (remapped && S.decide(S.eq(when, ""))) { S.assert(out.error !== undefined, "an answer without a date is an error"); return S.reach("undated"); }
      const h = out.value.headers;
      for (const k of ["x-api-key", "x-amzn-remapped-x-forwarded-for", "x-amzn-remapped-host"]) S.assert(h[k] === undefined, "no keys in the answer");
      for (const [, m] of log) S.assert(!JSON.stringify(m).includes("secret"), "nor in the log");
      if (!remapped) { S.assert(S.eq(h, { "content-type": before.headers["content-type"] }) && out.value.status === "200", "files stay as they are"); return S.reach("a file"); }
      S.assert(S.eq(h["content-disposition"], [{ key: "Content-Disposition", value: `attachment; filename="${uri}_${one("tyyppi")}_${when}.csv"` }]), "the answer is a file named after the request");
      S.assert(S.eq(h["content-type"], [{ key: "Content-Type", value: "text/csv; charset=utf-8" }]), "of values");
      S.reach(week ? "week" : "named");
    },
  },
  lamFiles: {
    bounds: "any raw file name of a station of 1 or 2 digits, a year of 2 characters and a day, or with a part missing, from any folder; any page below the web page of 1 or 2 characters",
    reach: ["ongoing", "history", "no year", "moved", "page", "resource", "elsewhere", "no origin", "no record"],
    async run(S) {
      stubQuery(S);
      const { handler } = lam(S);
      if (S.choose("bad", [false, true])) return without(S, handler);
      const where = S.choose("where", ["raw", "raw folder", "raw short", "page", "index", "root", "resource", "deep", "elsewhere"]);
      const s3 = S.choose("s3", [true, false]), origin = s3 ? { s3: { domainName: "history-bucket", region: "eu-west-1", authMethod: "none" } } : undefined;
      const name = S.str("name", [1, 2], "a-z."), yy = S.str("year", 2, "0-9a");
      const file = where === "raw short" ? `lamraw_${name}.csv` : `lamraw_12_${yy}_${S.choose("day", [1, 365])}.csv`;
      const uri = { raw: "/api/tms/v1/history/raw/" + file, "raw folder": "/api/tms/v1/history/raw/x/" + file, "raw short": "/api/tms/v1/history/raw/" + file, page: "/ui/tms/history", index: "/ui/tms/history/index." + name, root: "/ui/tms/history/", resource: "/ui/tms/history/" + name, deep: "/ui/tms/history/assets/" + name, elsewhere: "/api/tms/v1/stations/" + name }[where];
      const request = { method: "GET", uri, querystring: S.choose("query", where.startsWith("raw") ? ["", "api=x"] : [""]), headers: header("host", "history-bucket"), ...(origin && { origin }) }, before = copy(request);
      const out = await S.settle(() => handler(event(request), {}, () => {}));
      if (where.startsWith("raw")) {
        const digit = (i) => S.or(...[..."0123456789"].map((d) => S.eq(yy[i], d)));
        // the leading digits are the year
        let after = false;
        if (where !== "raw short" && S.decide(S.and(digit(0), digit(1)))) after = S.decide(S.or(S.eq(yy[0], "3"), S.eq(yy[0], "4"), S.eq(yy[0], "5"), S.eq(yy[0], "6"), S.eq(yy[0], "7"), S.eq(yy[0], "8"), S.eq(yy[0], "9"), S.and(S.eq(yy[0], "2"), S.not(S.or(S.eq(yy[1], "0"), S.eq(yy[1], "1"))))));
        else S.reach("no year");
        if (after && !s3) { S.assert(out.error !== undefined, "files cannot be found without their bucket"); return S.reach("no origin"); }
        const wanted = { ...before, uri: "/" + file, ...(after && { origin: { s3: { ...origin.s3, domainName: "ongoing.example.com" } }, headers: { host: [{ key: "host", value: "ongoing.example.com" }] } }) };
        S.assert(S.eq(out.value, wanted), after ? "files from 2022 on are in the ongoing bucket" : "older files are in the history bucket");
        return S.reach(after ? "ongoing" : "history");
      }
      if (out.error) S.fail("pages are found");
      const r = out.value;
      if (where === "page" || where === "index") {
        S.assert(r.status === "301" && S.eq(r.headers.location, [{ key: "Location", value: "/ui/tms/history/" }]) && r.headers["cache-control"][0].value === "max-age=300", "the page has one address");
        return S.reach("moved");
      }
      S.assert(S.eq(r, { ...before, uri: { root: "/index.html", resource: "/" + name, deep: "/" + name, elsewhere: uri }[where] }), "the page and its parts are in the root of their bucket");
      S.reach({ root: "page", resource: "resource", deep: "resource", elsewhere: "elsewhere" }[where]);
    },
  },
  lamQuery: {
    bounds: "every parameter of the request given with any text of 0 or 1 characters, twice, or not at all (the required ones together, those of the time together, those of the classes together), on three paths",
    reach: ["queried", "incomplete", "period", "joined", "classes", "classes refused"],
    async run(S) {
      stubQuery(S);
      const { handler } = lam(S);
      const group = S.choose("group", ["api", "required", "time", "class"]);
      const str = new Map(), lazily = (k, len) => { if (!str.has(k)) str.set(k, S.str(k, len, "a-z0-9")); return str.get(k); };
      const any = (k) => () => [lazily(k, [0, 1])], one = (k) => () => [lazily(k, 1)], two = (k) => () => ["1", lazily(k, 1)];
      const pick = (k, options) => { const i = S.choose(k, options.map((_, j) => j)); return get(options[i]); };
      const in_ = (g, k, options, fixed) => (g === group ? pick(k, options) : get(fixed));
      const given = {
        api: in_("api", "api", [[], any("api0"), ["x", "y"]], one("api0")),
        tyyppi: group === "required" ? pick("tyyppi", [[], any("tyyppi0")]) : in_("class", "tyyppi", [["h"], one("tyyppi0")], ["v"]),
        pvm: group === "required" ? pick("pvm", [[], any("pvm0")]) : in_("time", "pvm", [any("pvm0"), []], one("pvm0")),
        viikko: group === "required" ? pick("viikko", [[], any("viikko0")]) : get(one("viikko0")),
        loppu: group === "time" || group === "class" ? pick("loppu", [[], any("loppu0")]) : [],
        piste: group === "required" ? pick("piste", [[], any("piste0")]) : ["1"],
        pistejoukko: group === "required" ? pick("pistejoukko", [[], any("pistejoukko0")]) : [],
        suunta: in_("time", "suunta", [[], any("suunta0"), two("suunta0")], group === "class" ? ["1"] : []),
        sisallytakaistat: in_("time", "kaistat", [[], any("kaistat0")], []),
        ryhma: in_("class", "ryhma", [[], any("ryhma0"), two("ryhma0")], []),
        luokka: in_("class", "luokka", [[], any("luokka0"), two("luokka0")], []),
        muu: ["z"],
      };
      const uri = in_("api", "uri", ["/ui/tms/history", "/api/tms/v1/history", "/ui/tms/history/"], "/ui/tms/history");
      const querystring = write(given);
      const request = { method: "GET", uri, querystring, headers: { ...header("host", "bucket"), ...header("accept", "*/*") }, origin: { s3: { domainName: "bucket" } } };
      const out = await S.settle(() => handler(event(request), {}, () => {}));
      const has = (k) => given[k].length > 1 || (given[k].length === 1 && S.decide(S.not(S.eq(given[k][0], ""))));
      const bad = given.api.length !== 1 || !has("api") || !has("tyyppi") || !(has("piste") || has("pistejoukko")) || !(has("pvm") || has("viikko"));
      if (bad) { S.assert(out.error !== undefined, "an incomplete request is refused"); return S.reach("incomplete"); }
      const wanted = { tyyppi: given.tyyppi[0] };
      const when = has("pvm") ? "pvm" : "viikko";
      wanted[when] = has("loppu") ? given[when][0] + "-" + given.loppu[0] : given[when][0];
      if (has("loppu")) S.reach("period");
      const place = has("piste") ? "piste" : "pistejoukko";
      wanted[place] = given[place][0];
      if (has("suunta")) { wanted.suunta = given.suunta.join("-"); if (given.suunta.length > 1) S.reach("joined"); }
      if (has("sisallytakaistat")) wanted.sisallytakaistat = given.sisallytakaistat[0];
      if (has("ryhma")) wanted.ryhma = given.ryhma.join(",");
      else if (has("luokka")) {
        if (!S.decide(S.eq(given.tyyppi[0], "h"))) { S.assert(out.error !== undefined, "classes are only for hours"); return S.reach("classes refused"); }
        wanted.ajoneuvoluokka = given.luokka.join(",");
        S.reach("classes");
      }
      if (out.error) S.fail("a complete request is carried out");
      const r = out.value, c = r.origin.custom;
      S.assert(r.origin.s3 === undefined && c.domainName === "snow.example.com" && c.port === 443 && c.protocol === "https" && c.path === "/prod", "at the history service");
      S.assert(S.eq(c.customHeaders, { "x-api-key": [{ key: "x-api-key", value: "snow-key" }] }), "with its key");
      S.assert(S.eq(r.headers, { host: [{ key: "host", value: "snow.example.com" }], accept: [{ key: "accept", value: "*/*" }] }), "under its name");
      S.assert(S.eq(r.uri, "/" + given.api[0]), "the interface that was asked");
      S.assert(S.eq(plainQuery(S, r.querystring), wanted), "all and only its own parameters");
      S.reach("queried");
    },
  },
};
const get = (x) => (typeof x === "function" ? x() : x);
// parameters of a request as text
const write = (given) => Object.entries(given).flatMap(([k, vs]) => vs.map((v) => k + "=" + v)).join("&");
const dec = (t) => t.split("%2C").join(",");
function plainQuery(S, text) { return parse(text); }
function parse(text) {
  const out = {};
  if (text.length === 0) return out;
  for (const p of text.split("&")) {
    const i = p.indexOf("="), k = i < 0 ? p : p.slice(0, i), v = i < 0 ? "" : dec(p.slice(i + 1));
    if (out[k] === undefined) out[k] = v; else if (Array.isArray(out[k])) out[k].push(v); else out[k] = [out[k], v];
  }
  return out;
}
// reading and writing of parameters whose texts need no escaping but for the comma
function stubQuery(S) {
  const stringify = (o) => Object.entries(o).flatMap(([k, v]) => (Array.isArray(v) ? v : [v]).map((x) => k + "=" + (x === undefined || x === null ? "" : ("" + x).split(",").join("%2C")))).join("&");
  S.stub("querystring", { default: { parse, stringify }, parse, stringify });
}
function lam(S) {
  const asked = [];
  S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: { create: (prefix) => ({ get: async () => { await null; asked.push(prefix); S.assert(prefix === "tms-history", "the secret of the measurement history"); return { snowflakeApikey: "snow-key", s3DomainTmsRawOngoing: "ongoing.example.com", s3DomainTmsRawHistory: "history.example.com", snowflakeDomain: "snow.example.com" }; } }) } });
  return { ...deploy(S, "lambda-lam-redirect", (l, f, stack) => l.createLamRedirect(stack, {}, "arn:secret")), asked };
}
