import { LIB, quiet } from "./_util.js";
export const property = {
  id: "C11",
  title: "Collection, environment and best-effort helpers do what they promise",
  statement: "For every content, two lists are reported to have the same values exactly when each value of either occurs in the other, the first and last item are the ends of the (sorted) list, and removing keys from an object yields a copy lacking exactly those keys at every depth. An environment setting is returned whenever it is set, even when empty, and otherwise reported as an error or replaced by the alternative. Uploads to storage and chat notifications send exactly what they were given once, and a failure of the service is logged but never passed on.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "all small collections and nested objects, set and unset settings, succeeding and failing services" },
  why_tests_cant: "The tests use a handful of collections; these helpers are called everywhere with arbitrary contents.",
  anchors: {
    files: ["lib/digitraffic-common/src/utils/utils.ts", "lib/digitraffic-common/src/utils/slack.ts", "lib/digitraffic-common/src/aws/runtime/s3.ts"],
    mechanism: [{ name: "bothArraysHasSameValues, getFirst, getLast, omitDeep, getEnvVariable*", where: "lib/digitraffic-common/src/utils/utils.ts" }, { name: "SlackApi.notify", where: "lib/digitraffic-common/src/utils/slack.ts" }, { name: "uploadToS3", where: "lib/digitraffic-common/src/aws/runtime/s3.ts" }],
    observe_at: "returned values and calls of the services",
  },
  assumptions: ["the storage client and the HTTP client are stand-ins that record the call and succeed or fail"],
};
const U = LIB + "utils/utils.js";
export const harnesses = {
  same: {
    bounds: "lists of 0..3 (thorough: 4) integers, missing lists, lists of object references",
    reach: ["same", "different", "missing", "references"],
    async run(S) {
      const { bothArraysHasSameValues: same } = S.load(U);
      const kind = S.choose("kind", ["numbers", "missing", "references"]);
      if (kind === "missing") {
        const a = S.choose("a", [null, undefined]), b = S.choose("b", [null, undefined]), c = [];
        if (S.choose("full", [false, true])) c.push(S.int("x", 0, 1));
        S.reach("missing");
        S.assert(same(a, b) === true && same(a, c) === false && same(c, b) === false, "missing lists equal only each other");
        return;
      }
      const max = S.thorough ? 4 : 3;
      const n = S.choose("n", [0, 1, 2, 3, 4].slice(0, max + 1)), m = S.choose("m", [0, 1, 2, 3, 4].slice(0, max + 1));
      const objs = [{ v: 1 }, { v: 1 }];
      const mk = (p, k) => Array.from({ length: k }, (_, i) => (kind === "numbers" ? S.int(p + i, 0, 3) : objs[S.choose(p + i, [0, 1])]));
      if (kind === "references" && (n > 2 || m > 2)) return;
      const a = mk("a", n), b = mk("b", m);
      const a0 = [...a], b0 = [...b];
      const r = same(a, b);
      const eq = (x, y) => (kind === "numbers" ? S.eq(x, y) : x === y);
      const within = (p, q) => S.and(true, ...p.map((x) => S.or(false, ...q.map((y) => eq(x, y)))));
      S.assert(S.iff(r, S.and(within(a, b), within(b, a))), "same values exactly when each occurs in the other");
      S.assert(a.length === n && b.length === m && a.every((x, i) => x === a0[i]) && b.every((x, i) => x === b0[i]), "the lists are not changed");
      if (kind === "references") S.reach("references");
      else if (S.decide(r)) S.reach("same"); else S.reach("different");
    },
  },
  ends: {
    bounds: "lists of 0..4 (thorough: 5) integers, with and without an ascending or descending order",
    reach: ["plain", "sorted", "empty"],
    async run(S) {
      const { getFirst, getLast } = S.load(U);
      const n = S.choose("n", S.thorough ? [0, 1, 2, 3, 4, 5] : [0, 1, 2, 3, 4]);
      const order = S.choose("order", [undefined, (x, y) => x - y, (x, y) => y - x]);
      const a = Array.from({ length: n }, (_, i) => S.int("a" + i, -100, 100));
      const copy = [...a];
      const f = S.sync(() => getFirst([...a], order)), l = S.sync(() => getLast([...a], order));
      if (!n) { S.reach("empty"); S.assert(f.error instanceof Error && l.error instanceof Error, "the end of an empty list is an error"); return; }
      S.assert(!f.error && !l.error, "a list with items has ends");
      if (!order) { S.reach("plain"); S.assert(f.value === copy[0] && l.value === copy[n - 1], "first and last item"); return; }
      S.reach("sorted");
      S.assert(S.and(S.or(...copy.map((x) => S.eq(x, f.value))), ...copy.map((x) => order(f.value, x) <= 0)), "the first in the given order");
      S.assert(S.and(S.or(...copy.map((x) => S.eq(x, l.value))), ...copy.map((x) => order(l.value, x) >= 0)), "the last in the given order");
    },
  },
  environment: {
    bounds: "a setting absent, empty or of 1..3 symbolic characters; written or read; static, computed and missing alternatives",
    reach: ["set", "unset", "empty"],
    async run(S) {
      const u = S.load(U);
      const state = S.choose("state", ["unset", "empty", "set", "written"]);
      const v = state === "empty" ? "" : S.str("v", [1, 3]);
      const env = S.world.process.env;
      if (state === "written") u.setEnvVariable("KEY", v);
      else if (state !== "unset") env.KEY = v;
      env.OTHER = "other";
      let calls = 0;
      const alt = S.choose("alt", ["text", undefined, 7]);
      const safe = u.getEnvVariableSafe("KEY"), plain = S.sync(() => u.getEnvVariable("KEY")), or = u.getEnvVariableOr("KEY", () => { calls++; return alt; }), orElse = u.getEnvVariableOrElse("KEY", alt);
      S.assert(env.OTHER === "other", "other settings are left alone");
      if (state === "unset") {
        S.reach("unset");
        S.assert(safe.result === "error" && safe.message.includes("KEY") && plain.error instanceof Error && plain.error.message.includes("KEY"), "an unset setting is an error that names it");
        S.assert(or === alt && orElse === alt && calls === 1, "the alternative is used for an unset setting");
        return;
      }
      S.reach(state === "empty" ? "empty" : "set");
      S.assert(S.and(safe.result === "ok", S.eq(safe.value, v), !plain.error && S.eq(plain.value, v), S.eq(or, v), S.eq(orElse, v)), "a setting is returned as it is");
      S.assert(calls === 0, "no alternative is computed for a set setting");
      u.setEnvVariableAwsRegion(v + "r");
      u.setSecretOverideAwsRegionEnv(v + "s");
      S.assert(S.and(S.eq(env.AWS_REGION, v + "r"), S.eq(env.SECRET_OVERRIDE_AWS_REGION, v + "s"), S.eq(env.KEY, v)), "regions are written to their own settings");
    },
  },
  omit: {
    bounds: "an object nested three deep with lists and lists of lists, or a list of such, symbolic keys of 1 letter a-d at two places, 0..2 removed keys",
    reach: ["omitted", "primitive"],
    async run(S) {
      const { omitDeep } = S.load(U);
      const kind = S.choose("kind", ["object", "primitive"]);
      const gone = S.choose("gone", [[], ["a"], ["b"], ["a", "b"], ["c", "zz"], ["0"]]);
      if (kind === "primitive") {
        const v = S.choose("v", [1, "a", null, undefined, true, 0, ""]);
        S.reach("primitive");
        S.assert(Object.is(omitDeep(v, ...gone), v), "primitive values are returned as they are");
        const arr = [v, [v], S.int("n", 0, 9)];
        S.assert(S.eq(omitDeep(arr, ...gone), arr), "lists of primitive values keep their items");
        return;
      }
      const lists = [[{ a: 1, zz: 1 }], [[[{ b: 1, c: [{ a: 1 }] }]]], { a: [[{ a: 1 }]], e: [[{ a: 1, b: 2 }]] }];
      const mk = () => S.choose("root", [false, true]) ? lists : ({ a: S.choose("va", [0, "", null, "x"]), b: { a: n, c: [{ a: 1, d: n }, "a", [{ b: 2, c: 3 }, [[{ a: n, c: 1, b: [[{ a: 2 }]] }], 5]]], d: { a: { b: 1 }, b: { a: 2 } } }, c: [1, null, 2], d: false });
      const n = S.int("n", -5, 5);
      const x = mk();
      const before = JSON.stringify(x);
      const r = omitDeep(x, ...gone);
      const ref = (v) => {
        if (v === null || typeof v !== "object") return v;
        if (Array.isArray(v)) return v.map(ref);
        const o = {};
        for (const k of Object.keys(v)) if (!gone.includes(k)) o[k] = ref(v[k]);
        return o;
      };
      S.reach("omitted");
      S.assert(JSON.stringify(r) === JSON.stringify(ref(x)), "exactly the named keys are gone");
      S.assert(JSON.stringify(x) === before && r !== x, "the input is not changed");
      S.assert(Array.isArray(x) || gone.includes("c") || r.c !== x.c, "lists are copied");
      S.assert(Array.isArray(r) === Array.isArray(x), "a list stays a list");
    },
  },
  values: {
    bounds: "missing, falsy and other values; errors with symbolic messages and other thrown values",
    reach: ["defined", "error"],
    async run(S) {
      const u = S.load(U);
      const v = S.choose("v", [undefined, null, 0, "", false, NaN, [], "x", {}]);
      S.reach("defined");
      S.assert(u.isDefined(v) === !(v === undefined || v === null), "defined means neither missing nor null");
      const o = { k: v };
      S.assert(u.hasOwnPropertySafe(o, "k") === true && u.hasOwnPropertySafe(o, "q") === false && u.hasOwnPropertySafe(o, "toString") === false && u.hasOwnPropertySafe(Object.create(o), "k") === false, "own properties only");
      const m = S.str("m", [0, 3]);
      S.reach("error");
      const cls = S.choose("cls", [Error, TypeError, RangeError]);
      S.assert(S.eq(u.getErrorMessage(new cls(m)), cls.name + ": " + m), "name and message of an error");
      S.assert(S.eq(u.getErrorMessage(m), m), "other values as text");
      S.assert(u.getErrorMessage(undefined) === "undefined" && u.getErrorMessage(12) === "12", "other values as text");
    },
  },
  services: {
    bounds: "both services answering, failing or rejecting with a non-error; symbolic texts; optional upload settings set or not",
    reach: ["upload", "upload failed", "chat", "chat failed"],
    async run(S) {
      const log = quiet(S);
      const out = S.choose("out", ["ok", "error", "text", "throw"]);
      let done = out !== "ok";
      const answer = () => { if (out === "throw") throw new Error("now"); return out === "ok" ? new Promise((r) => setTimeout(() => { done = true; r({}); }, 20)) : Promise.reject(out === "error" ? new Error("down") : "down"); };
      const text = S.str("text", [0, 3]);
      if (S.choose("which", ["s3", "chat"]) === "s3") {
        const sent = [];
        S.stub("@aws-sdk/client-s3", { PutObjectCommand: class { constructor(i) { this.input = i; } } });
        const { uploadToS3 } = S.load(LIB + "aws/runtime/s3.js");
        const acl = S.choose("acl", [undefined, "public-read"]), type = S.choose("type", [undefined, "text/csv"]);
        const r = await S.settle(() => uploadToS3({ send: (c) => { sent.push(c.input); return answer(); } }, "bucket" + text, "body" + text, "object" + text, acl, type));
        S.assert(!r.error && r.value === undefined, "an upload never fails");
        S.assert(done, "the upload is waited for");
        S.assert(sent.length === 1 && S.decide(S.eq(sent[0], { Bucket: "bucket" + text, Key: "object" + text, Body: "body" + text, ACL: acl, ContentType: type })), "exactly what was given is uploaded, once");
        S.assert((log.filter((x) => x[0] === "error").length === 1) === (out !== "ok"), "a failed upload is logged, a successful one is not an error");
        S.reach(out === "ok" ? "upload" : "upload failed");
        return;
      }
      const posts = [];
      S.stub("ky", { default: { post: (u, o) => { posts.push([u, o]); return answer(); } }, __esModule: true });
      const { SlackApi } = S.load(LIB + "utils/slack.js");
      const url = "https://h/" + text;
      const r = await S.settle(() => new SlackApi(url).notify(text));
      S.assert(!r.error && r.value === undefined, "a notification never fails");
      S.assert(done, "the notification is waited for");
      S.assert(posts.length === 1 && S.decide(S.and(S.eq(posts[0][0], url), S.eq(posts[0][1].json, { text }))), "exactly the given text is sent, once");
      S.assert(log.some((x) => x[0] === "error") === (out !== "ok"), "a failed notification is logged");
      S.reach(out === "ok" ? "chat" : "chat failed");
    },
  },
};
