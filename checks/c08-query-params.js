import { quiet, LIB } from "./_util.js";
export const property = {
  id: "C08",
  title: "Query parameters: nothing lost, invented or mistyped",
  statement: "For every combination of single and multiple value query parameters, parsing yields exactly the parameters that are present, in every case with all values in order: a declared multiple value parameter always as a list, another one as its single value or, when repeated, as a list. Text to number and text to date validation yields the value of every well-formed text, nothing for an empty one and an error with the given message for any other, and the non-empty text validation refuses exactly the empty text.",
  quantifier: { over: ["inputs"], text: "all parameter maps over three names with up to 3 values each, all short texts" },
  why_tests_cant: "API Gateway repeats values over two maps in many combinations; tests cover a few.",
  anchors: {
    files: ["lib/digitraffic-common/src/utils/lambda-proxy-event.ts", "lib/digitraffic-common/src/utils/zod-utils.ts"],
    mechanism: [{ name: "parseQueryParams", where: "lib/digitraffic-common/src/utils/lambda-proxy-event.ts" }, { name: "zStringToNumber, zStringToDate, zNonEmptyString", where: "lib/digitraffic-common/src/utils/zod-utils.ts" }],
    observe_at: "parsed parameters",
  },
  assumptions: ["texts for numbers of up to 3 characters"],
};
export const harnesses = {
  params: {
    bounds: "3 names, each absent, single only, multiple only (0..3 values) or in both, any subset declared multiple, symbolic values",
    reach: ["list", "single", "repeated", "none"],
    async run(S) {
      const { parseQueryParams } = S.load(LIB + "utils/lambda-proxy-event.js");
      const names = ["a", "bbox", "c"].slice(0, S.thorough ? 3 : 2);
      const lens = S.choose("lens", [0, 1]);
      const single = {}, multi = {}, want = {};
      const declared = [];
      for (const n of names) {
        const v = [0, 1, 2].map((i) => S.str(n + i, i === 1 ? 0 : lens));
        const k = S.choose("k" + n, ["absent", "single", "multi0", "multi1", "multi2", "multi3", "undefined"]);
        const d = S.choose("declared" + n, [false, true]);
        if (d) declared.push(n);
        let vs;
        if (k === "single") { single[n] = v[0]; vs = [v[0]]; }
        else if (k === "undefined") { single[n] = undefined; multi[n] = undefined; }
        else if (k.startsWith("multi")) {
          vs = v.slice(0, Number(k[5]));
          multi[n] = vs;
          if (vs.length && S.choose("both" + n, [false, true])) single[n] = vs[vs.length - 1];
        }
        if (vs) {
          want[n] = d ? vs : vs.length > 1 ? vs : vs[0];
          if (vs.length) S.reach(d ? "list" : vs.length > 1 ? "repeated" : "single");
        }
      }
      const nil = S.choose("nil", ["no", "null", "undefined"]);
      const ev = { queryStringParameters: single, multiValueQueryStringParameters: multi };
      if (nil !== "no" && Object.keys(single).length === 0) ev.queryStringParameters = nil === "null" ? null : undefined;
      if (nil !== "no" && Object.keys(multi).length === 0) ev.multiValueQueryStringParameters = nil === "null" ? null : undefined;
      const r = declared.length === 0 && S.choose("omit", [true, false]) ? parseQueryParams(ev) : parseQueryParams(ev, declared);
      const defined = Object.keys(r).filter((k) => r[k] !== undefined).sort();
      const expected = Object.keys(want).filter((k) => want[k] !== undefined).sort();
      if (expected.length === 0) S.reach("none");
      S.assert(S.eq(defined, expected), "exactly the parameters that are present");
      for (const n of expected) S.assert(S.eq(r[n], want[n]), "all values in order, as a list when declared or repeated");
    },
  },
  number: {
    bounds: "texts of 0..3 characters over digits, sign, point, space and letters; integers and decimals of any size up to 10^9; default and own message; optional",
    reach: ["number", "refused", "empty"],
    async run(S) {
      const { zStringToNumber } = S.load(LIB + "utils/zod-utils.js");
      const msg = S.choose("msg", [undefined, "bad"]);
      const k = S.choose("k", ["int", "dec", "text", "word"]);
      const i = S.int("i", -1000000000, 1000000000), d = S.int("d", 0, 99);
      const t = k === "int" ? String(i) : k === "dec" ? `${d}.5` : k === "text" ? S.str("t", [0, 1], "0-9") : S.str("w", [1, 3], "g-z");
      const r = zStringToNumber(msg).safeParse(t);
      if (k === "text" && S.decide(S.eq(t, ""))) { S.reach("empty"); S.assert(r.success && r.data === undefined, "an empty text is nothing"); return; }
      if (k === "word") { S.reach("refused"); S.assert(!r.success, "a text that is no number is refused"); S.assert(r.error.issues[0].message === (msg ?? "Not a number"), "message of the refusal"); return; }
      S.reach("number");
      S.assert(r.success === true, "a number is accepted");
      if (k === "int") S.assert(S.eq(r.data, i), "the value of an integer");
      if (k === "dec") S.assert(S.eq(r.data, (d * 2 + 1) / 2), "the value of a decimal");
      if (k === "text") S.assert(S.eq(String(r.data), t), "the value of a digit");
      S.assert(zStringToNumber(msg).safeParse(5).success === false, "only texts are accepted");
      const o = zStringToNumber(msg).optional().safeParse(undefined);
      S.assert(o.success && o.data === undefined, "optional");
    },
  },
  date: {
    bounds: "every millisecond of 1970..2100 in ISO format, empty and ill-formed texts",
    reach: ["date", "refused", "empty"],
    async run(S) {
      const { zStringToDate } = S.load(LIB + "utils/zod-utils.js");
      const msg = S.choose("msg", [undefined, "bad"]);
      const ms = S.int("ms", 0, 4102444800000);
      const k = S.choose("k", ["iso", "empty", "word", "month13"]);
      const t = k === "iso" ? new Date(ms).toISOString() : k === "empty" ? "" : k === "word" ? "not a date" : "2024-13-01T00:00:00Z";
      const r = zStringToDate(msg).safeParse(t);
      if (k === "empty") { S.reach("empty"); S.assert(r.success && r.data === undefined, "an empty text is nothing"); }
      else if (k === "iso") { S.reach("date"); S.assert(r.success && S.decide(S.eq(r.data.getTime(), ms)), "the instant of a date text"); }
      else { S.reach("refused"); S.assert(!r.success && r.error.issues[0].message === (msg ?? "Invalid date format"), "an ill-formed date is refused with its message"); }
    },
  },
  text: {
    bounds: "texts of 0..2 characters, non-texts",
    reach: ["ok", "refused"],
    async run(S) {
      const { zNonEmptyString } = S.load(LIB + "utils/zod-utils.js");
      const msg = S.choose("msg", [undefined, "bad"]);
      const t = S.choose("k", ["text", "undefined"]) === "text" ? S.str("t", [0, 2]) : undefined;
      const r = zNonEmptyString(msg).safeParse(t);
      if (t === undefined) S.assert(!r.success, "a missing text is refused");
      else if (S.decide(S.eq(S.len(t), 0))) { S.reach("refused"); S.assert(!r.success && r.error.issues[0].message === (msg ?? "String must not be empty"), "an empty text is refused with its message"); }
      else { S.reach("ok"); S.assert(r.success && S.decide(S.eq(r.data, t)), "any other text is accepted as it is"); }
    },
  },
};
