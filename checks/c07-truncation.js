import { LIB } from "./_util.js";
export const property = {
  id: "C07",
  title: "Log truncation and exception logging keep the evidence",
  statement: "For every text and maximum length, truncation returns the text unchanged when it is not longer than the maximum, and otherwise either the text itself or its kept part or parts, trimmed, with a marker stating exactly how many characters were dropped; the result is never longer than the text, and any text longer than the maximum by more than a short marker is cut. Truncation at the end keeps the start, truncation in the middle keeps equal parts of start and end. Logging an exception writes one error record with the text of whatever was thrown, with the stack only on request, and never throws itself.",
  quantifier: { over: ["inputs"], text: "all texts and maximum lengths within the bounds, all kinds of thrown values" },
  why_tests_cant: "Boundary lengths and marker widths interact for arbitrary lengths; tests sample a few.",
  anchors: {
    files: ["lib/digitraffic-common/src/utils/logging.ts"],
    mechanism: [{ name: "truncateEnd, truncateMiddle, logException, createExceptionLogger", where: "lib/digitraffic-common/src/utils/logging.ts" }],
    observe_at: "returned text, records written by the logger",
  },
  assumptions: ["lengths up to 200 000 characters; short texts have arbitrary characters, long ones no white space at the cuts except where stated"],
};
const MARK = / \[TRUNCATED (\d+) CHARS\]/;
export const harnesses = {
  end: {
    bounds: "texts of 0..200 000 characters without white space, maximum 1..100 000 or the default of 1000",
    reach: ["kept", "cut", "default"],
    async run(S) {
      const { truncateEnd } = S.load(LIB + "utils/logging.js");
      const def = S.choose("def", [false, true]);
      const max = def ? 1000 : S.int("max", 1, 100000);
      const t = S.opaque("t", 0, 200000);
      const r = def ? truncateEnd(t) : truncateEnd(t, max);
      const n = S.len(t);
      if (def) S.reach("default");
      if (S.decide(S.eq(r, t))) {
        S.reach("kept");
        S.assert(n <= max + 26, "long texts are cut");
      } else {
        S.reach("cut");
        S.assert(n > max, "texts within the maximum are kept");
        S.assert(S.eq(r, t.slice(0, max) + " [TRUNCATED " + (n - max) + " CHARS]"), "start of the text and the number of dropped characters");
        S.assert(S.len(r) <= n, "never longer than the text");
      }
    },
  },
  middle: {
    bounds: "texts of 0..200 000 characters without white space, maximum 1..100 000 or the default of 1000",
    reach: ["kept", "cut", "default"],
    async run(S) {
      const { truncateMiddle } = S.load(LIB + "utils/logging.js");
      const def = S.choose("def", [false, true]);
      const half = S.int("half", 1, 50000), odd = S.choose("odd", [0, 1]);
      const max = def ? 1000 : 2 * half + odd;
      const h = def ? 500 : half;
      const t = S.opaque("t", 0, 200000);
      const r = def ? truncateMiddle(t) : truncateMiddle(t, max);
      const n = S.len(t);
      if (def) S.reach("default");
      if (S.decide(S.eq(r, t))) {
        S.reach("kept");
        S.assert(n <= max + 26, "long texts are cut");
      } else {
        S.reach("cut");
        S.assert(n > max, "texts within the maximum are kept");
        S.assert(S.eq(r, t.slice(0, h) + " [TRUNCATED " + (n - max) + " CHARS] " + t.slice(n - h)), "start and end of the text and the number of dropped characters");
        S.assert(S.len(r) <= n + 1, "not longer than the text");
      }
    },
  },
  small: {
    bounds: "texts of 40 characters of which 4 around the cuts are arbitrary, maximum 0..12",
    reach: ["end", "middle", "space"],
    async run(S) {
      const m = S.load(LIB + "utils/logging.js");
      const max = S.choose("max", S.thorough ? [0, 1, 2, 3, 4, 5, 6, 9, 12] : [0, 1, 4, 5, 10]);
      const which = S.choose("which", ["end", "middle"]);
      const at = which === "end" ? Math.max(0, max - 3) : Math.max(0, Math.floor(max / 2) - 2);
      const a = S.str("a", 3, " -~");
      const fill = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz".slice(0, 40);
      const t = fill.slice(0, at) + a + fill.slice(at + 3);
      const r = (which === "end" ? m.truncateEnd : m.truncateMiddle)(t, max);
      S.reach(which);
      const want = which === "end" ? t.slice(0, max).trim() + ` [TRUNCATED ${40 - max} CHARS]` : t.slice(0, Math.floor(max / 2)).trim() + ` [TRUNCATED ${40 - max} CHARS] ` + t.slice(40 - Math.floor(max / 2)).trim();
      if (S.decide(S.eq(a.slice(0, 1), " "))) S.reach("space");
      S.assert(S.eq(r, want), "kept parts are trimmed and the number of dropped characters stated");
      S.assert(S.eq((which === "end" ? m.truncateEnd : m.truncateMiddle)(a, 3), a) , "a text of the maximum length is kept");
    },
  },
  nothing: {
    bounds: "empty, undefined and null texts",
    reach: ["nothing"],
    async run(S) {
      const m = S.load(LIB + "utils/logging.js");
      const v = S.choose("v", ["", undefined, null]);
      S.reach("nothing");
      S.assert(m.truncateEnd(v) === "" && m.truncateMiddle(v, 5) === "", "no text gives no text");
    },
  },
  exceptions: {
    bounds: "errors with texts of 0..3 arbitrary characters, texts, numbers, objects, undefined and null; stack requested, refused or default; direct, curried and curried with its own logger",
    reach: ["error", "text", "other"],
    async run(S) {
      const m = S.load(LIB + "utils/logging.js");
      const recs = [];
      const lines = [];
      const logger = S.mock({ error: (x) => { recs.push(x); } }, "logger");
      S.world.process.stdout.write = (s) => { lines.push(s); return true; };
      const t = S.str("t", [0, 2], "\u0000-~");
      const k = S.choose("k", ["error", "text", "number", "object", "undefined", "null"]);
      const e = k === "error" ? new RangeError(t) : k === "text" ? t : k === "number" ? S.int("n", -99, 99) : k === "object" ? { a: t } : k === "null" ? null : undefined;
      const how = S.choose("how", ["direct", "curried", "own"]);
      const stack = S.choose("stack", [undefined, false, true]);
      const r = S.sync(() => {
        if (how === "direct") return stack === undefined ? m.logException(logger, e) : m.logException(logger, e, stack);
        const f = how === "own" ? (stack === undefined ? m.createExceptionLogger() : m.createExceptionLogger(undefined, stack)) : stack === undefined ? m.createExceptionLogger(logger) : m.createExceptionLogger(logger, stack);
        return f(e);
      });
      S.assert(!("error" in r), "logging an exception never throws");
      const n = how === "own" ? lines.length : recs.length;
      S.assert(n === 1 && recs.length + lines.length === 1, "one record is written");
      const rec = how === "own" ? JSON.parse(lines[0]) : recs[0];
      if (how === "own") S.assert(rec.level === "ERROR", "the level is error");
      const text = k === "error" || k === "text" ? t : JSON.stringify(e);
      S.reach(k === "error" || k === "text" ? k : "other");
      const want = `error=${text}`;
      S.assert(how === "own" ? rec.message.includes(want) : S.eq(rec.message, want), "the record has the text of what was thrown");
      S.assert(k === "error" && stack === true ? typeof rec.stack === "string" : rec.stack === undefined, "a stack only on request");
    },
  },
};
