export const property = {
  id: "C01",
  title: "Retry helper: bounded attempts, predicate and delay respected",
  statement: "For every sequence of attempt outcomes (success, failure, never settling), every retry limit and every caller-supplied predicate and delay, the retry helper calls the operation at most limit+1 times, returns the first successful value without further calls, and calls again only after a failure the predicate accepts and only after the delay requested for that retry number. When attempts run out or the predicate refuses, it rejects instead of returning; an attempt that never settles counts as failed after 30 minutes; limits that are not finite or exceed 100 are rejected without any call. The HTTP flavour retries only status 403 and 429, at most 5 times, with delays doubling from 2 seconds.",
  quantifier: { over: ["schedules", "inputs", "fault_sequences"], text: "all outcome sequences and delays of the attempts, all integer retry limits in range, all predicate answers, all HTTP status codes" },
  why_tests_cant: "The tests fix a few limits with functions that always fail; the guarantee is over every outcome/predicate/delay sequence and its timing.",
  anchors: {
    files: ["lib/digitraffic-common/src/utils/retry.ts"],
    mechanism: [{ name: "retry, retryRequest, retryRecursive", where: "lib/digitraffic-common/src/utils/retry.ts" }],
    observe_at: "calls of the operation, their virtual times, and the returned promise",
  },
  level: "bounded_proof",
  assumptions: ["timers fire in order of their due time on a virtual clock", "retry limits explored: integers from -2 to 3 (quick) or 5 (thorough), plus symbolic limits above 100"],
};
const RETRY = "lib/digitraffic-common/src/utils/retry.js";
const HTTPERR = "lib/digitraffic-common/src/types/http-error.js";

function quiet(S) {
  const log = [];
  S.stub("lib/digitraffic-common/src/aws/runtime/dt-logger-default", { logger: S.mock({ error: (m) => log.push(["error", m]), warn: (m) => log.push(["warn", m]), info: (m) => log.push(["info", m]), debug: (m) => log.push(["debug", m]) }, "logger") });
  return log;
}

export const harnesses = {
  attempts: {
    bounds: "retry limit -2..2 (thorough: ..4), each attempt succeeds / fails / hangs, symbolic delay 0..100000 ms per retry, symbolic predicate answers, all three logging modes",
    reach: ["success", "exhausted", "refused", "hang"],
    async run(S) {
      quiet(S);
      const { retry } = S.load(RETRY);
      const max = S.thorough ? 4 : 2;
      const limit = S.int("limit", -2, max);
      const mode = S.choose("log", [0, 1, 2]);
      const calls = [];
      const outcomes = [];
      const asked = []; // retry numbers for which a delay was requested
      const delays = [];
      const preds = [];
      const started = S.world.time;
      const op = () => {
        const i = calls.length;
        calls.push(S.world.time);
        if (i > max + 3) S.fail("more calls than any permitted limit");
        const o = S.choose("outcome" + i, ["ok", "fail", "hang"]);
        outcomes.push(o);
        if (o === "ok") return Promise.resolve("value" + i);
        if (o === "fail") return Promise.reject(new Error("failure" + i));
        return new Promise(() => {});
      };
      const timeout = (n) => {
        asked.push(n);
        const d = S.int("delay" + asked.length, 0, 100000);
        delays.push(d);
        return d;
      };
      const pred = (e) => {
        const i = preds.length;
        const p = S.choose("pred" + i, [true, false]);
        preds.push({ p, e });
        return p;
      };
      const r = await S.settle(() => retry(op, limit, mode, timeout, pred));
      const n = calls.length;
      S.observe("n", n);
      S.observe("result", r.error ? "rejected" : r.value);
      S.assert(n >= 1, "the operation is tried at least once");
      // limits of zero and below mean no retries
      S.assert(S.or(n === 1, n <= limit + 1), "at most limit+1 calls");
      const hang = 30 * 60 * 1000;
      let t = started;
      for (let i = 0; i < n; i++) {
        S.assert(calls[i] >= t, "a retry starts no earlier than the requested delay after the failure");
        S.assert(S.eq(calls[i], t), "a retry starts when the requested delay is over");
        if (outcomes[i] === "hang") t = t + hang;
        if (i < n - 1) {
          S.assert(outcomes[i] !== "ok", "no call after a success");
          S.assert(preds[i].p === true, "no retry unless the predicate accepts the failure");
          S.assert(asked[i] === i + 1, "the delay is requested with the retry number");
          t = t + delays[i];
        }
      }
      for (let i = 0; i < preds.length; i++) {
        if (outcomes[i] === "fail") S.assert(preds[i].e instanceof Error && preds[i].e.message === "failure" + i, "the predicate sees the failure");
      }
      const last = outcomes[n - 1];
      if (last === "ok") {
        S.reach("success");
        S.assert(!r.error && r.value === "value" + (n - 1), "the successful value is returned");
      } else {
        if (last === "hang") S.reach("hang");
        S.assert(!!r.error, "rejects when there is no success");
        const refused = preds.length === n && preds[n - 1].p === false;
        if (refused) S.reach("refused"); else S.reach("exhausted");
        S.assert(S.or(refused, n >= limit + 1), "gives up early only when the predicate refuses");
      }
    },
  },
  concurrent: {
    bounds: "two retries running at the same time, with limit 2 and 0..3 failing attempts, delays of symbolic 0..5000 ms, the second started after a symbolic pause of 0..10000 ms (thorough: attempts of the first take a symbolic time as well)",
    reach: ["overlap", "both succeed", "one exhausted"],
    async run(S) {
      quiet(S);
      const { retry } = S.load(RETRY);
      const one = (name, fails) => {
        const st = { calls: [], ended: [], asked: [], delays: [], fails };
        st.start = () => S.settle(() => retry(async () => {
          const i = st.calls.length;
          st.calls.push(S.world.time);
          if (i > 3) S.fail("more calls than the limit permits");
          if (S.thorough && name === "a" && i === 0) { const d = S.int(name + "takes" + i, 1, 5000); await new Promise((ok) => setTimeout(ok, d)); }
          st.ended.push(S.world.time);
          if (i < fails) throw new Error(name + i);
          return name + i;
        }, 2, 2, (n) => { st.asked.push(n); const d = S.int(name + "delay" + st.asked.length, 0, 5000); st.delays.push(d); return d; }));
        return st;
      };
      const a = one("a", S.choose("a fails", [0, 1, 2, 3])), b = one("b", S.choose("b fails", S.thorough ? [0, 1, 2, 3] : [1, 3]));
      const pa = a.start();
      const pause = S.int("pause", 0, 10000);
      if (S.decide(pause > 0)) await new Promise((ok) => setTimeout(ok, pause));
      if (a.ended.length <= a.fails && a.ended.length < 3) S.reach("overlap");
      const pb = b.start();
      const [ra, rb] = [await pa, await pb];
      for (const [name, st, r] of [["a", a, ra], ["b", b, rb]]) {
        S.assert(st.calls.length === Math.min(st.fails, 2) + 1, "each retry makes its own attempts");
        S.assert(JSON.stringify(st.asked) === JSON.stringify([1, 2].slice(0, Math.min(st.fails, 2))), "the delay is requested with the retry number of the same retry");
        for (let i = 1; i < st.calls.length; i++) S.assert(S.eq(st.calls[i], st.ended[i - 1] + st.delays[i - 1]), "a retry starts when its own requested delay is over");
        S.assert(st.fails < 3 ? !r.error && r.value === name + st.fails : !!r.error, "each retry settles with its own outcome");
      }
      if (a.fails < 3 && b.fails < 3) S.reach("both succeed"); else S.reach("one exhausted");
    },
  },
  limits: {
    bounds: "any integer limit from 101 to 10^9, NaN, both infinities, and limits just inside the range",
    reach: ["rejected", "accepted"],
    async run(S) {
      quiet(S);
      const { retry } = S.load(RETRY);
      const kind = S.choose("kind", ["int", "nan", "inf", "-inf", "edge"]);
      const limit = kind === "int" ? S.int("limit", 101, 1000000000) : kind === "nan" ? NaN : kind === "inf" ? Infinity : kind === "-inf" ? -Infinity : S.choose("edge", [99, 100]);
      let n = 0;
      const r = await S.settle(() => retry(() => { n++; return n === 3 ? Promise.resolve(7) : Promise.reject(new Error("x")); }, limit, 2));
      if (kind === "edge") { S.reach("accepted"); S.assert(r.value === 7 && n === 3, "limits up to 100 are usable"); }
      else { S.reach("rejected"); S.assert(!!r.error && n === 0, "an invalid limit is rejected without calling the operation"); }
    },
  },
  defaults: {
    bounds: "default limit with all failing/succeeding attempts",
    reach: ["all failed"],
    async run(S) {
      quiet(S);
      const { retry } = S.load(RETRY);
      let n = 0;
      const t0 = S.world.time;
      const okAt = S.choose("okAt", [1, 2, 3, 4, 5, 6]);
      const r = await S.settle(() => retry(() => { n++; return n === okAt ? Promise.resolve(n) : Promise.reject(S.choose("thrown" + n, [new Error("e"), "text", undefined])); }));
      if (okAt <= 4) S.assert(r.value === okAt && n === okAt, "three retries by default");
      else { S.reach("all failed"); S.assert(!!r.error && n === 4, "three retries by default"); }
      S.assert(S.world.time === t0, "no delay by default");
    },
  },
  http: {
    bounds: "6 attempts with arbitrary HTTP status 100..599 or a non-HTTP error each",
    reach: ["exhausted", "refused"],
    async run(S) {
      quiet(S);
      const { retryRequest } = S.load(RETRY);
      const { HttpError } = S.load(HTTPERR);
      const calls = [], statuses = [], argsSeen = [];
      const op = (...args) => {
        const i = calls.length;
        calls.push(S.world.time);
        argsSeen.push(args);
        if (i > 7) S.fail("more than 6 calls");
        const k = S.choose("kind" + i, ["http", "other", "ok"]);
        if (k === "ok") { statuses.push("ok"); return Promise.resolve(i); }
        if (k === "other") { statuses.push("other"); return Promise.reject(new Error("other")); }
        const st = S.int("status" + i, 100, 599);
        statuses.push(st);
        return Promise.reject(new HttpError(st, "m"));
      };
      const r = await S.settle(() => retryRequest(op, "a", 5));
      const n = calls.length;
      S.assert(n <= 6, "at most 5 retries");
      for (let i = 0; i < n; i++) {
        S.assert(S.eq(argsSeen[i], ["a", 5]), "every attempt gets the arguments");
        if (i < n - 1) {
          const s = statuses[i];
          S.assert(s !== "ok" && s !== "other", "only HTTP failures are retried");
          S.assert(S.or(S.eq(s, 403), S.eq(s, 429)), "only 403 and 429 are retried");
          S.assert(calls[i + 1] - calls[i] === 1000 * 2 ** (i + 1), "delays double from two seconds");
        }
      }
      const last = statuses[n - 1];
      if (last === "ok") S.assert(r.value === n - 1, "success is returned");
      else {
        S.assert(!!r.error, "rejects without success");
        if (n < 6) { S.reach("refused"); S.assert(last === "other" || S.not(S.or(S.eq(last, 403), S.eq(last, 429))), "a 403 or 429 is retried while retries remain"); }
        else S.reach("exhausted");
      }
    },
  },
};
