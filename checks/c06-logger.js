import { LIB } from "./_util.js";
export const property = {
  id: "C06",
  title: "Logging: exactly one valid JSON line with all given fields",
  statement: "For every record a caller may log, the logger writes exactly one line, a valid JSON object, containing the level of the call, the method, the configured function and runtime names, the given message prefixed by the method unless it already names it, every custom field under its name without the custom prefix and with its value, and the error's name and text with its stack. The message text also spells every extra field as name=value unless it already mentions the name. Logging never changes the caller's record.",
  quantifier: { over: ["inputs"], text: "all messages, field values and error kinds of the accepted types" },
  why_tests_cant: "Log parsing downstream depends on every line being valid for any message content; tests use a handful of fixed records.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/runtime/dt-logger.ts"],
    mechanism: [{ name: "DtLogger", where: "lib/digitraffic-common/src/aws/runtime/dt-logger.ts" }],
    observe_at: "the stream the logger writes to",
  },
  assumptions: ["errors given as plain objects are serialisable"],
};
function setup(S, cfg = {}) {
  const out = [];
  const { DtLogger } = S.load(LIB + "aws/runtime/dt-logger.js");
  return { out, logger: new DtLogger({ writeStream: { write: (s) => { out.push(s); return true; } }, ...cfg }) };
}
function line(S, out) {
  S.assert(out.length === 1, "one line per record");
  const s = out[0];
  S.assert(S.eq(s.slice(-1), "\n"), "the line is terminated");
  const body = s.slice(0, -1);
  S.assert(!body.includes("\n"), "a record is a single line");
  return JSON.parse(body);
}
export const harnesses = {
  message: {
    bounds: "messages absent or of 0..4 arbitrary characters (control characters included), with or without the method, all levels, configured or environment names",
    reach: ["prefixed", "kept", "absent"],
    async run(S) {
      const named = S.choose("named", [false, true]);
      const fn = S.str("fn", [1, 2]);
      if (!named && S.choose("env", [true])) { S.world.process.env.AWS_LAMBDA_FUNCTION_NAME = "env-fn"; S.world.process.env.AWS_EXECUTION_ENV = "env-rt"; }
      const { out, logger } = setup(S, named ? { lambdaName: fn, runTime: "rt" } : {});
      const level = S.choose("level", ["info", "warn", "error"]);
      const k = S.choose("k", ["absent", "text", "with method"]);
      const t = S.str("t", [0, S.thorough ? 4 : 2], "\u0000-~");
      const given = k === "absent" ? {} : k === "text" ? { message: t } : { message: t + " A.b " + t };
      const rec = { method: "A.b", ...given };
      logger[level](rec);
      const o = line(S, out);
      S.assert(o.level === level.toUpperCase(), "level");
      S.assert(o.method === "A.b", "method");
      S.assert(S.eq(o.lambdaName, named ? fn : "env-fn"), "function name");
      S.assert(o.runtime === (named ? "rt" : "env-rt"), "runtime name");
      S.assert(S.eq(rec, { method: "A.b", ...given }), "the record is not changed");
      if (k === "with method") { S.reach("kept"); S.assert(S.eq(o.message, given.message), "a message naming the method is kept"); }
      else { S.reach(k === "absent" ? "absent" : "prefixed"); S.assert(S.eq(o.message, k === "absent" ? "A.b " : "A.b " + t), "the method is put before the message"); }
      S.assert(S.eq(Object.keys(o).sort(), ["lambdaName", "level", "message", "method", "runtime"]), "no other fields");
    },
  },
  fields: {
    bounds: "two custom fields and tookMs, values: integers, texts of 0..2 arbitrary characters, booleans, null, dates, big integers, undefined; message mentions a field or not",
    reach: ["mentioned", "spelled", "date", "bigint"],
    async run(S) {
      const { out, logger } = setup(S, { lambdaName: "f", runTime: "r" });
      const mention = S.choose("mention", [false, true]);
      const kinds = ["int", "text", "bool", "null", "date", "bigint", "undefined"];
      const mk = (n) => {
        const k = S.choose("kind" + n, kinds);
        switch (k) {
          case "int": return [k, S.int("i" + n, -999, 999)];
          case "text": return [k, S.str("s" + n, [0, S.thorough ? 2 : 1], "\u0000-~")];
          case "bool": return [k, S.choose("b" + n, [true, false])];
          case "null": return [k, null];
          case "date": S.reach("date"); return [k, new Date(Date.UTC(2024, 1, 29, 12, 0, 0, 7))];
          case "bigint": S.reach("bigint"); return [k, BigInt("12345678901234567890")];
          default: return [k, undefined];
        }
      };
      const [k1, v1] = mk("1"), [k2, v2] = S.choose("second", [false, true]) ? mk("2") : ["undefined", undefined];
      const took = S.int("took", 0, 999);
      const rec = { method: "A.b", message: mention ? "see fooBar=x" : "text", customFooBar: v1, tookMs: took };
      if (k2 !== "undefined") rec.customOtherCount = v2;
      const r = S.sync(() => logger.info(rec));
      S.assert(!r.error, "logging never throws");
      const o = line(S, out);
      const same = (k, v, w) => k === "undefined" ? w === undefined : k === "date" ? w === v.toISOString() : k === "bigint" ? String(w) === "12345678901234567890" : S.eq(w, v);
      S.assert(same(k1, v1, o.fooBar), "a custom field is logged under its name without the prefix");
      S.assert(same(k2, v2, o.otherCount), "a second custom field is logged under its name without the prefix");
      S.assert(S.eq(o.tookMs, took), "the duration is logged");
      S.assert(!("customFooBar" in o) && !("customOtherCount" in o), "no prefixed names");
      const text = (k, v) => k === "undefined" ? "undefined" : k === "null" ? "null" : k === "date" ? v.toISOString() : k === "bigint" ? "12345678901234567890" : k === "text" ? v : String(v);
      if (mention) { S.reach("mentioned"); S.assert(S.eq(o.message.slice(0, 16), "A.b see fooBar=x"), "the text is kept"); }
      else {
        S.reach("spelled");
        if (k1 !== "text") S.assert(S.decide(S.eq(o.message.includes("fooBar=" + text(k1, v1)), true)), "the text spells the field");
        else S.assert(o.message.includes("fooBar="), "the text spells the field");
      }
      if (k2 !== "undefined" && k2 !== "text") S.assert(o.message.includes("otherCount=" + text(k2, v2)), "the text spells the second field");
      S.assert(o.message.includes("tookMs=" + took), "the text spells the duration");
      S.assert(!o.message.includes("level=") && !o.message.includes("method="), "level and method are not spelled");
    },
  },
  errors: {
    bounds: "errors with texts of 0..2 arbitrary characters, texts, objects, nothing; stack given or not",
    reach: ["error", "text", "object", "none"],
    async run(S) {
      const { out, logger } = setup(S, { lambdaName: "f", runTime: "r" });
      const k = S.choose("k", ["error", "text", "object", "none", "undefined"]);
      const t = S.str("t", [k === "text" ? 1 : 0, 2], "\u0000-~");
      const e = k === "error" ? new TypeError(t) : k === "text" ? t : k === "object" ? { code: t, n: 5 } : undefined;
      const stack = S.choose("stack", [undefined, "at x (y:1)\n at z"]);
      const rec = { method: "A.b", message: "m" };
      if (k !== "none") rec.error = e;
      if (stack) rec.stack = stack;
      logger[S.choose("level", ["error", "warn"])](rec);
      const o = line(S, out);
      S.reach(k === "undefined" ? "none" : k);
      S.assert(o.message === "A.b m", "error and stack are not part of the message text");
      if (k === "error") S.assert(S.eq(o.error, "TypeError: " + t), "name and text of the error");
      else if (k === "text") S.assert(S.eq(o.error, t), "the error text");
      else if (k === "object") S.assert(S.eq(JSON.parse(o.error), e), "the error object as text");
      else S.assert(!("error" in o), "no error unless given");
      if (stack) S.assert(o.stack === stack, "a given stack is logged");
      else if (k === "error") S.assert(typeof o.stack === "string" && o.stack.length > 0, "the stack of the error is logged");
      else S.assert(!("stack" in o), "no stack unless there is one");
    },
  },
  debug: {
    bounds: "texts of 0..3 arbitrary characters and objects",
    reach: ["debug"],
    async run(S) {
      const { out, logger } = setup(S, { lambdaName: "f", runTime: "r" });
      const t = S.str("t", [0, 3], "\u0000-~");
      const v = S.choose("k", ["text", "object"]) === "text" ? t : { a: t };
      logger.debug(v);
      const o = line(S, out);
      S.reach("debug");
      S.assert(S.eq(o, { message: v, level: "DEBUG", lambdaName: "f", runtime: "r" }), "the debug record");
    },
  },
};
