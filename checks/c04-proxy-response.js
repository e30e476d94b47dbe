import { quiet, LIB } from "./_util.js";
export const property = {
  id: "C04",
  title: "Proxy responses: faithful body, honest encoding headers, size limit",
  statement: "For every body, status, option set and builder call order, a built proxy response carries the requested status, content type, file name, location and timestamp, and a body from which the client recovers exactly the given body: unchanged, or gzip compressed in base64 exactly when it says so, which happens only when compression was asked for and makes it smaller. Its entity tag is a quoted tag that depends on the given body content only. A response whose serialised size exceeds 6 MiB is replaced by a 400 response, no smaller response is, and a missing body is refused unless the status needs none.",
  quantifier: { over: ["inputs"], text: "all bodies up to 16 MB, all option combinations and call orders" },
  why_tests_cant: "The size limit and the compress-only-if-smaller rule depend on arbitrary body sizes and compression results; tests sample a few.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts", "lib/digitraffic-common/src/utils/base64.ts"],
    mechanism: [{ name: "LambdaProxyResponseBuilder", where: "lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts" }],
    observe_at: "the response object handed to API Gateway",
  },
  assumptions: ["gzip output is any byte string of any size; the entity tag hash is replaced by an injective stand-in"],
};
const MAX = 6 * 1024 * 1024;
function load(S, gz) {
  const log = quiet(S);
  // log texts of big responses are not of interest here
  if (gz) S.stub("utils/logging", S.mock({ truncateMiddle: () => "shortened" }, "logging"));
  const tags = [];
  S.stub("etag", (b) => { const t = '"tag' + tags.length + '"'; tags.push(b); return t; });
  const zin = [];
  S.stub("node:zlib", S.mock({ gzipSync: (b) => { zin.push(b); return gz ? gz(b) : S.gap("gzip"); } }, "zlib"));
  const m = S.load(LIB + "aws/types/lambda-proxy-types.js");
  return { B: m.LambdaProxyResponseBuilder, tags, zin, log };
}
const tagged = (S, r, tags, body, label) => {
  const k = /^"tag(\d+)"$/.exec(r.headers.ETag);
  S.assert(!!k && S.decide(S.eq(tags[Number(k[1])], body)), label);
};
export const harnesses = {
  plain: {
    bounds: "text bodies of 0..3 arbitrary printable characters or objects with such fields, all statuses 100..599, subsets of options (thorough: all), debug on or off, builder options before or after the body",
    reach: ["text", "object", "no body", "refused"],
    async run(S) {
      const { B, tags } = load(S);
      const kind = S.choose("kind", ["text", "object", "exotic"]);
      const t = S.str("t", [0, S.thorough ? 3 : 1]);
      const exotic = "ä€😀\u2028\"\\\n\u0000";
      const body = kind === "text" ? t : kind === "object" ? { a: t, n: S.int("n", -9, 99), l: [true, null] } : exotic;
      // every pair of options with and without each other
      const set = S.choose("options", S.thorough ? [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] : [0, 1, 2, 4, 8, 15, 14, 5]);
      const status = set === 0 ? S.choose("special", [400, 204, 301, 302, 303, 307, 308, 305, 200, 599]) : set === 15 ? S.int("status", 309, 599) : S.choose("special", [204, 501]);
      const file = set & 1 ? "data.csv" : undefined;
      const loc = set & 2 ? "https://x/y?a=b" : undefined;
      const stamp = set & 4 ? S.choose("stamp", ["date", "string"]) : undefined;
      const type = set & 8 ? "text/csv" : undefined;
      const opts = (b) => {
        b = b.withStatus(status);
        if (file) b = b.withFileName(file);
        if (loc) b = b.withLocation(loc);
        if (stamp) b = b.withTimestamp(stamp === "date" ? new Date(Date.UTC(2024, 0, 31, 12, 30, 5)) : "2024-01-31T12:30:05Z");
        if (type) b = b.withContentType(type);
        return b.withDebug(set === 15 || set === 0);
      };
      const order = S.choose("order", ["create", "before", "after"]);
      const r = S.sync(() => (order === "create" ? opts(B.create(body)) : order === "before" ? opts(B.create()).withBody(body) : opts(B.create("x").withBody(body))).build());
      const text = kind === "object" ? JSON.stringify(body) : body;
      const empty = S.decide(S.eq(S.len(text), 0));
      const bodyless = typeof status === "number" && [204, 301, 302, 303, 307, 308].includes(status);
      if (empty && !bodyless) { S.reach("refused"); S.assert(!!r.error, "a missing body is refused"); return; }
      S.assert(!r.error, "a response is built");
      const v = r.value;
      S.reach(empty ? "no body" : kind === "object" ? "object" : "text");
      S.assert(S.eq(v.statusCode, status), "status");
      S.assert(S.eq(v.body, text), "the body is sent unchanged");
      S.assert(v.isBase64Encoded === false, "a text body is not marked base64");
      S.assert(v.headers["Content-Encoding"] === undefined, "an uncompressed body is not marked compressed");
      S.assert(v.headers["Content-Type"] === (type ?? "application/json"), "content type");
      S.assert(v.headers["Content-Disposition"] === (file ? 'attachment; filename="data.csv"' : undefined), "file name");
      S.assert(v.headers.Location === loc, "location");
      S.assert(v.headers["Last-Modified"] === (stamp ? "Wed, 31 Jan 2024 12:30:05 GMT" : undefined), "timestamp");
      tagged(S, v, tags, text, "the entity tag is that of the body");
    },
  },
  base64: {
    bounds: "base64 bodies of 1..3 symbolic bytes, with compression asked before, after or not at all",
    reach: ["sent", "refused"],
    async run(S) {
      const { B, tags } = load(S);
      const raw = S.str("raw", [1, 2]);
      const b64 = Buffer.from(raw).toString("base64");
      const when = S.choose("compress", ["never", "before", "after"]);
      const r = S.sync(() => {
        if (when === "before") return B.create().withCompression().withBody(b64, true).build();
        if (when === "after") return B.create(b64, true).withCompression().build();
        return B.create(b64, true).withStatus(200).build();
      });
      if (r.error) { S.reach("refused"); S.assert(when !== "never", "an encoded body is accepted"); return; }
      S.reach("sent");
      S.assert(S.eq(r.value.body, b64), "an encoded body is sent unchanged");
      S.assert(r.value.isBase64Encoded === true, "an encoded body is marked base64");
      S.assert(r.value.headers["Content-Encoding"] === undefined, "a body that is not gzip is not marked gzip");
      const k = /^"tag(\d+)"$/.exec(r.value.headers.ETag);
      S.assert(!!k, "the entity tag is a quoted tag");
      let src = tags[Number(k[1])];
      if (typeof src !== "string") src = src.toString("utf8");
      S.assert(S.or(S.eq(src, raw), S.eq(src, b64)), "the entity tag is that of the body");
    },
  },
  object64: {
    bounds: "object bodies marked base64",
    reach: ["refused"],
    async run(S) {
      const { B } = load(S);
      const r = S.sync(() => B.create({ a: S.int("a", 0, 9) }, true).build());
      S.reach("refused");
      S.assert(!!r.error, "an object cannot be base64");
    },
  },
  compress: {
    bounds: "bodies of 1..100 000 characters, gzip results of 1..100 000 bytes (1..8 with debug logging)",
    reach: ["compressed", "not smaller"],
    async run(S) {
      let gz;
      const debug = S.choose("debug", [false, true]); // debug logs compute ratios of the sizes
      const { B, tags, zin } = load(S, () => { gz = Buffer.from(S.opaque("gz", 1, debug ? 8 : 100000)); return gz; });
      const body = S.opaque("body", 1, debug ? 8 : 100000);
      const enabled = S.choose("enabled", [true, false, "off again"]);
      let b = S.choose("order", [0, 1]) ? B.create(body).withCompression(enabled !== false) : B.create().withCompression(enabled !== false).withBody(body);
      if (enabled === "off again") b = b.withCompression(false);
      if (debug) b = b.withDebug();
      const v = b.build();
      tagged(S, v, tags, body, "the entity tag is that of the uncompressed body");
      const c = v.headers["Content-Encoding"];
      S.assert(c === undefined || c === "gzip", "known encodings only");
      if (c === "gzip") {
        S.reach("compressed");
        S.assert(enabled === true, "compressed only on request");
        S.assert(v.isBase64Encoded === true, "compressed bodies are marked base64");
        S.assert(S.eq(zin[0].toString("utf8"), body), "the body itself is compressed");
        S.assert(S.eq(v.body, gz.toString("base64")), "the compressed bytes are sent");
        S.assert(S.len(gz.toString("base64")) < S.len(Buffer.from(body).toString("base64")), "compressed only when smaller");
      } else {
        S.assert(v.isBase64Encoded === false, "plain bodies are not marked base64");
        S.assert(S.eq(v.body, body), "the body is sent unchanged");
        if (enabled === true) { S.reach("not smaller"); S.assert(S.len(gz.toString("base64")) >= S.len(Buffer.from(body).toString("base64")), "compression is used when it helps"); }
      }
    },
  },
  limit: {
    bounds: "bodies of 1..16 000 000 characters: plain, all quotes, all two-byte characters, base64 or compressed",
    reach: ["too large", "fits"],
    async run(S) {
      const kind = S.choose("kind", ["plain", "quotes", "wide", "base64", "compressed"]);
      let gz;
      const { B } = load(S, () => { gz = Buffer.from(S.opaque("gz", 1, 8000000)); return gz; });
      let body = S.opaque("body", 1, 16000000, kind === "quotes" ? "\"\\" : kind === "wide" ? "åäö" : undefined);
      if (kind === "base64") body = Buffer.from(body).toString("base64");
      let b = B.create(body, kind === "base64").withStatus(201);
      const file = S.opaque("fn", 1, 9, "abcdef");
      b = b.withFileName(file);
      if (kind === "compressed") b = b.withCompression();
      if (kind !== "compressed" && S.choose("debug", [false, true])) b = b.withDebug();
      const v = b.build();
      const small = Buffer.byteLength(JSON.stringify(B.create("abcd", kind === "base64").withStatus(201).withFileName(file).build()));
      const size = kind === "compressed" ? undefined : small - 6 + Buffer.byteLength(JSON.stringify(body));
      if (size !== undefined) S.assert(S.iff(v.statusCode === 201, size <= MAX), "a response is sent exactly when it is within the limit");
      if (v.statusCode === 201) {
        S.reach("fits");
        S.assert(Buffer.byteLength(JSON.stringify(v)) <= MAX, "no response larger than the limit is sent");
        if (kind !== "compressed") S.assert(S.eq(v.body, body), "the whole body is sent");
      } else {
        S.reach("too large");
        S.assert(v.statusCode === 400, "an oversized response becomes a bad request");
        S.assert(v.headers["Content-Type"] === "text/plain" && v.isBase64Encoded === false && v.body.length > 0 && v.body.length < 1000, "the replacement is a short text");
        // lower bound: the body alone, generously wrapped, must be near the limit
        if (kind === "compressed") S.assert(S.or(S.len(gz.toString("base64")) + 400 > MAX, S.len(body) + 400 > MAX), "a response within the limit is not refused");
      }
    },
  },
  errors: {
    bounds: "the error and redirect shortcuts with symbolic texts, objects and defaults",
    reach: ["text", "object", "redirect"],
    async run(S) {
      const { B } = load(S);
      const [name, status] = S.choose("which", [["badRequest", 400], ["unauthorized", 401], ["notFound", 404], ["internalError", 500], ["notImplemented", 501], ["redirect", 302]]);
      if (name === "redirect") {
        S.reach("redirect");
        const to = S.str("to", [1, 3]);
        const st = S.choose("st", [undefined, 301, 302, 303, 307, 308]);
        const v = st ? B.redirect(to, st) : B.redirect(to);
        S.assert(v.statusCode === (st ?? 302) && S.decide(S.eq(v.headers.Location, to)) && v.body === "", "redirects to the location");
        return;
      }
      const k = S.choose("k", ["default", "text", "object"]);
      const text = S.str("text", [1, 3]);
      const v = k === "default" ? B[name]() : k === "text" ? B[name](text) : B[name]({ m: text });
      S.assert(v.statusCode === status, "status of the error");
      S.reach(k === "object" ? "object" : "text");
      S.assert(v.headers["Content-Type"] === (k === "object" ? "application/json" : "text/plain"), "content type follows the kind of body");
      if (k === "text") S.assert(S.eq(v.body, text), "text");
      if (k === "object") S.assert(S.eq(v.body, JSON.stringify({ m: text })), "object");
      if (k === "default") S.assert(v.body.length > 0, "default text");
    },
  },
};
