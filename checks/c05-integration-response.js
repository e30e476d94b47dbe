import { quiet, LIB } from "./_util.js";
export const property = {
  id: "C05",
  title: "Integration responses: recoverable body, matching tag, size limit",
  statement: "For every body, status, file name and timestamp, an integration response carries them unchanged, with a base64 body that decodes to exactly the given text or serialised object and an entity tag that depends on the body only. The builder replaces a response whose serialised size exceeds 6 MiB by a 400 response and no smaller one, refuses to build without a body, and every error shortcut has the status it is named after and its given or default text.",
  quantifier: { over: ["inputs"], text: "all bodies up to 16 MB, all statuses, file names, timestamps" },
  why_tests_cant: "The size limit and round trip are over arbitrary bodies; tests sample a few.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/types/lambda-response.ts", "lib/digitraffic-common/src/utils/base64.ts"],
    mechanism: [{ name: "LambdaResponse, LambdaResponseBuilder", where: "lib/digitraffic-common/src/aws/types/lambda-response.ts" }, { name: "base64 helpers", where: "lib/digitraffic-common/src/utils/base64.ts" }],
    observe_at: "the response object returned to the API Gateway integration",
  },
  assumptions: ["the entity tag hash is replaced by an injective stand-in"],
};
const MAX = 6 * 1024 * 1024;
function load(S) {
  quiet(S);
  S.stub("utils/logging", S.mock({ truncateMiddle: () => "shortened" }, "logging"));
  const tags = [];
  S.stub("etag", (b) => { for (const [i, t] of tags.entries()) if (S.decide(S.eq(t, b))) return '"tag' + i + '"'; tags.push(b); return '"tag' + (tags.length - 1) + '"'; });
  return S.load(LIB + "aws/types/lambda-response.js");
}
const dec = (b) => Buffer.from(b, "base64").toString("utf8");
export const harnesses = {
  builder: {
    bounds: "texts of 0..3 printable characters, a non-ASCII text, objects, all option subsets, symbolic statuses",
    reach: ["built", "refused"],
    async run(S) {
      const { LambdaResponseBuilder: B } = load(S);
      const kind = S.choose("kind", ["text", "object", "exotic", "none"]);
      const t = S.str("t", [0, S.thorough ? 3 : 2]);
      const body = kind === "text" ? t : kind === "object" ? { a: t, b: [1, null] } : kind === "exotic" ? "ä€😀\u0000\"" : undefined;
      const status = S.int("status", 200, 599);
      const set = S.choose("set", [0, 1, 2, 3, 4, 6, 7]);
      let b = S.choose("order", [0, 1]) ? B.create(body) : kind === "none" ? B.create() : B.create().withBody(body);
      if (set & 1) b = b.withFileName("f.json");
      const stamp = set & 2 ? S.choose("stamp", [new Date(Date.UTC(2023, 10, 5, 1, 2, 3)), "2023-11-05T01:02:03.000Z", undefined]) : undefined;
      if (set & 2) b = b.withTimestamp(stamp);
      if (set & 4) b = b.withStatus(status);
      if (set === 7) b = b.withDebug();
      const r = S.sync(() => b.build());
      const text = kind === "object" ? JSON.stringify(body) : body;
      if (kind === "none" || S.decide(S.eq(text, ""))) { S.reach("refused"); S.assert(!!r.error, "a missing body is refused"); return; }
      S.reach("built");
      S.assert(!r.error, "a response is built");
      const v = r.value;
      S.assert(S.eq(dec(v.body), text), "the body decodes to what was given");
      S.assert(S.eq(v.status, set & 4 ? status : 200), "status");
      S.assert(v.fileName === (set & 1 ? "f.json" : undefined), "file name");
      S.assert(v.timestamp === (stamp === undefined ? undefined : "Sun, 05 Nov 2023 01:02:03 GMT"), "the given timestamp, if any, in HTTP format");
      const other = S.str("other", [1, 2]);
      const w = B.create(other).withStatus(404).withFileName("x").build();
      S.assert(S.iff(v.etag === w.etag, S.eq(text, other)), "the entity tag depends on the body and nothing else");
    },
  },
  limit: {
    bounds: "bodies of 1..16 000 000 characters of one byte or of two bytes each",
    reach: ["too large", "fits"],
    async run(S) {
      const { LambdaResponseBuilder: B } = load(S);
      const body = S.opaque("body", 1, 16000000, S.choose("wide", [undefined, "åäö"]));
      let b = B.create(body).withStatus(201);
      const file = S.choose("file", [false, true]) ? S.opaque("fn", 1, 30, "abcdef") : undefined;
      if (file) b = b.withFileName(file);
      if (S.choose("debug", [false, true])) b = b.withDebug();
      const v = b.build();
      const enc = S.len(Buffer.from(body).toString("base64"));
      // what the response takes when the body is sent
      const small = B.create("abc").withStatus(201);
      const whole = Buffer.byteLength(JSON.stringify((file ? small.withFileName(file) : small).build())) - 4 + enc;
      if (v.status === 201) {
        S.reach("fits");
        S.assert(S.eq(Buffer.byteLength(JSON.stringify(v)), whole), "nothing but the body makes the response grow");
        S.assert(whole <= MAX, "no response larger than the limit is sent");
        S.assert(S.eq(dec(v.body), body), "the whole body is sent");
      } else {
        S.reach("too large");
        S.assert(v.status === 400 && v.fileName === undefined && v.body.length < 1000, "an oversized response becomes a bad request");
        S.assert(whole > MAX, "a response within the limit is not refused");
      }
    },
  },
  shortcuts: {
    bounds: "all shortcuts of both classes, default and symbolic texts of 1..3 characters",
    reach: ["plain", "built"],
    async run(S) {
      const { LambdaResponse: L, LambdaResponseBuilder: B } = load(S);
      const all = { badRequest: 400, unauthorized: 401, notFound: 404, contentTooLarge: 413, internalError: 500, notImplemented: 501 };
      const built = S.choose("built", [false, true]);
      const name = S.choose("name", Object.keys(all).filter((k) => !built || k !== "contentTooLarge"));
      const text = S.choose("given", [undefined, "t"]) ? S.str("text", [1, 3]) : undefined;
      const v = text === undefined ? (built ? B : L)[name]() : (built ? B : L)[name](text);
      S.reach(built ? "built" : "plain");
      S.assert(v.status === all[name], "status of the shortcut");
      if (text !== undefined) S.assert(S.eq(dec(v.body), text), "given text");
      else S.assert(dec(v.body).toLowerCase().replace(/ /g, "") === name.toLowerCase(), "default text");
      S.assert(/^"tag\d+"$/.test(v.etag), "an entity tag");
    },
  },
  plain: {
    bounds: "okJson, ok, okBinary, withTimestamp with symbolic bodies of 0..2 characters",
    reach: ["json", "text", "binary"],
    async run(S) {
      const { LambdaResponse: L } = load(S);
      const k = S.choose("k", ["json", "text", "binary"]);
      const t = S.str("t", [0, 2]);
      const file = S.choose("file", [undefined, "n.txt"]);
      const v = k === "json" ? L.okJson({ x: t, n: 1 }, file) : k === "text" ? L.ok(t, file) : L.okBinary(Buffer.from(t).toString("base64"), file);
      S.reach(k);
      S.assert(v.status === 200 && v.fileName === file && v.timestamp === undefined, "an ordinary response");
      S.assert(S.eq(dec(v.body), k === "json" ? JSON.stringify({ x: t, n: 1 }) : t), "the body decodes to what was given");
      const w = v.withTimestamp(new Date(Date.UTC(2020, 1, 29, 23, 59, 59)));
      S.assert(w.timestamp === "Sat, 29 Feb 2020 23:59:59 GMT", "timestamp in HTTP format");
      S.assert(S.and(w.status === 200, w.fileName === file, S.eq(w.body, v.body), w.etag === v.etag), "a timestamp changes nothing else");
    },
  },
  codec: {
    bounds: "texts of 0..4 ASCII characters and one non-ASCII text",
    reach: ["codec"],
    async run(S) {
      quiet(S);
      const b = S.load(LIB + "utils/base64.js");
      const t = S.str("t", [0, 4]);
      S.reach("codec");
      S.assert(S.eq(b.decodeBase64ToUtf8(b.encodeUtf8ToBase64(t)), t), "utf8 round trip");
      S.assert(S.eq(b.decodeBase64ToAscii(b.encodeAsciiToBase64(t)), t), "ascii round trip");
      S.assert(S.eq(b.decodeBase64(b.encodeBase64(t, "utf8"), "utf8"), t), "generic round trip");
      const x = "ä€😀\u2028";
      S.assert(b.decodeBase64ToUtf8(b.encodeUtf8ToBase64(x)) === x && b.encodeUtf8ToBase64(x) === Buffer.from(x).toString("base64"), "non-ASCII round trip");
    },
  },
};
