import { quiet, LIB } from "./_util.js";
export const property = {
  id: "C10",
  title: "Vessel, port and calendar identifiers are accepted exactly when valid",
  statement: "An IMO number is accepted exactly when it has seven digits, does not start with zero and its weighted digit sum ends in its check digit; an MMSI exactly when it has nine digits; a LOCODE exactly when it is FI, in any case, followed by exactly three letters. A year is valid exactly within the given or default bounds, a month exactly from 1 to 12, and a date text is turned into its instant or refused.",
  quantifier: { over: ["inputs"], text: "all integers up to 10^10 in size, all ASCII texts up to 7 characters, all instants" },
  why_tests_cant: "Millions of numbers satisfy or miss the checksum; tests try a handful.",
  anchors: {
    files: ["lib/digitraffic-common/src/marine/id_utils.ts", "lib/digitraffic-common/src/types/validator.ts", "lib/digitraffic-common/src/utils/date-utils.ts"],
    mechanism: [{ name: "isValidIMO, isValidMMSI, isValidLOCODE", where: "lib/digitraffic-common/src/marine/id_utils.ts" }, { name: "validateYear, validateMonth", where: "lib/digitraffic-common/src/types/validator.ts" }, { name: "dateFromIsoString, countDiffMs, dateToUTCString", where: "lib/digitraffic-common/src/utils/date-utils.ts" }],
    observe_at: "return values",
  },
  assumptions: ["numbers are integers"],
};
export const harnesses = {
  imo: {
    bounds: "all integers from -10^10 to 10^10",
    reach: ["valid", "invalid"],
    async run(S) {
      quiet(S);
      const { isValidIMO } = S.load(LIB + "marine/id_utils.js");
      const imo = S.int("imo", -10000000000, 10000000000);
      const r = isValidIMO(imo);
      const d = (k) => Math.floor(imo / 10 ** k) % 10;
      const inRange = S.and(imo >= 1000000, imo <= 9999999);
      if (S.decide(r)) { S.reach("valid"); S.assert(inRange, "seven digits"); S.assert(S.eq((d(6) * 7 + d(5) * 6 + d(4) * 5 + d(3) * 4 + d(2) * 3 + d(1) * 2) % 10, d(0)), "the check digit fits"); }
      else { S.reach("invalid"); S.assert(S.not(S.and(inRange, S.eq((d(6) * 7 + d(5) * 6 + d(4) * 5 + d(3) * 4 + d(2) * 3 + d(1) * 2) % 10, d(0)))), "a valid number is accepted"); }
    },
  },
  mmsi: {
    bounds: "all integers from -10^10 to 10^10",
    reach: ["mmsi"],
    async run(S) {
      quiet(S);
      const { isValidMMSI } = S.load(LIB + "marine/id_utils.js");
      const n = S.int("n", -10000000000, 10000000000);
      S.reach("mmsi");
      S.assert(S.iff(isValidMMSI(n), S.and(n >= 100000000, n <= 999999999)), "nine digits exactly");
    },
  },
  locode: {
    bounds: "all ASCII texts of 0..7 characters",
    reach: ["valid", "invalid"],
    async run(S) {
      quiet(S);
      const { isValidLOCODE } = S.load(LIB + "marine/id_utils.js");
      const t = S.str("t", [0, 7], "\u0000-\u007f");
      const r = isValidLOCODE(t);
      const n = t.length;
      const letter = (i) => { const c = t.charCodeAt(i); return S.or(S.and(c >= 65, c <= 90), S.and(c >= 97, c <= 122)); };
      const is = (i, u) => S.or(t.charCodeAt(i) === u, t.charCodeAt(i) === u + 32);
      const want = n === 5 ? S.and(is(0, 70), is(1, 73), letter(2), letter(3), letter(4)) : false;
      if (n === 5) S.reach("valid"); else S.reach("invalid");
      S.assert(S.iff(r, want), "FI and three letters exactly");
    },
  },
  calendar: {
    bounds: "all integers in -100000..100000, any bounds",
    reach: ["calendar"],
    async run(S) {
      const { validateYear, validateMonth } = S.load(LIB + "types/validator.js");
      const y = S.int("y", -100000, 100000), lo = S.int("lo", -10000, 10000), hi = S.int("hi", -10000, 10000);
      S.reach("calendar");
      S.assert(S.iff(validateYear(y), S.and(y >= 1900, y <= 2100)), "default year bounds");
      S.assert(S.iff(validateYear(y, lo, hi), S.and(y >= lo, y <= hi)), "given year bounds");
      S.assert(S.iff(validateMonth(y), S.and(y >= 1, y <= 12)), "months");
    },
  },
  dates: {
    bounds: "all instants of 1970..2100, ill-formed texts",
    reach: ["parsed", "refused"],
    async run(S) {
      S.stub("@date-fns/tz", { TZDate: class { constructor(d, z) { this.d = d; this.z = z; } } });
      S.stub("date-fns", S.mock({ format: (d, f) => { if (!(d && d.z)) S.gap("format of a plain date"); return `${d.d.getTime()} ${d.z} ${f}`; } }, "date-fns"));
      const m = S.load(LIB + "utils/date-utils.js");
      const a = S.int("a", 0, 4102444800000), b = S.int("b", 0, 4102444800000);
      const k = S.choose("k", ["iso", "bad", "empty"]);
      const r = S.sync(() => m.dateFromIsoString(k === "iso" ? new Date(a).toISOString() : k === "bad" ? "2024-02-30T25:00:00Z" : ""));
      if (k !== "iso") { S.reach("refused"); S.assert("error" in r, "an ill-formed date is refused"); return; }
      S.reach("parsed");
      S.assert(S.eq(r.value.getTime(), a), "the instant of the text");
      S.assert(S.eq(m.countDiffMs(new Date(a), new Date(b)), b - a), "difference in milliseconds");
      const s = m.countDiffInSeconds(new Date(a), new Date(b));
      S.assert(S.eq(s, (b - a) / 1000), "difference in seconds");
      S.assert(S.eq(m.dateToUTCString(new Date(a), "HH:mm"), new Date(a).getTime() + " UTC HH:mm"), "texts are in UTC, in the given format");
      S.assert(m.EPOCH.getTime() === 0, "the epoch");
    },
  },
};
