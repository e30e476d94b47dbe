import { LIB } from "./_util.js";
export const property = {
  id: "C09",
  title: "Handler wrapper and time measurement report the truth",
  statement: "For every event, outcome and duration, a wrapped handler is called once with the very event, its response is returned unchanged, its failure goes to the error handler whose answer is returned or whose error is passed on, and exactly one record with the true duration is logged in either case. A stopwatch reports, for every sequence of starts, stops and resets of named tasks at any times, the exact total time each task has been running. Lead times are logged only when they are whole numbers, each once, with its own value.",
  quantifier: { over: ["histories", "inputs", "schedules"], text: "all outcomes, all operation sequences up to the bound, all clock readings" },
  why_tests_cant: "Durations depend on arbitrary clock readings and operation orders; tests use a few with real sleeps.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/api/handler-factory.ts", "lib/digitraffic-common/src/utils/stop-watch.ts", "lib/digitraffic-common/src/utils/lead-time-logging.ts"],
    mechanism: [{ name: "HandlerFactory, createJsonLoggingHandler", where: "lib/digitraffic-common/src/aws/infra/api/handler-factory.ts" }, { name: "StopWatch", where: "lib/digitraffic-common/src/utils/stop-watch.ts" }, { name: "logLeadTimes", where: "lib/digitraffic-common/src/utils/lead-time-logging.ts" }],
    observe_at: "returned promises and log records",
  },
  assumptions: ["the clock does not run backwards"],
};
function logger(S) {
  const recs = [];
  const put = (l) => (m) => { recs.push([l, m]); };
  const lg = S.mock({ error: put("error"), warn: put("warn"), info: put("info"), debug: put("debug") }, "logger");
  S.stub("lib/digitraffic-common/src/aws/runtime/dt-logger-default", { logger: lg });
  return { recs, lg };
}
export const harnesses = {
  handler: {
    bounds: "handler answers, throws or rejects after a symbolic time; default, throwing and answering error handlers; default, JSON and own logging",
    reach: ["answered", "recovered", "passed on", "own logging"],
    async run(S) {
      const { recs, lg } = logger(S);
      S.world.process.env.AWS_LAMBDA_FUNCTION_NAME = "fn";
      const { HandlerFactory, createJsonLoggingHandler } = S.load(LIB + "aws/infra/api/handler-factory.js");
      const event = { q: S.int("q", 0, 9) };
      const resp = { status: 200, body: S.str("b", [0, 1]) };
      const out = S.choose("out", ["ok", "throw", "reject", "text"]);
      const err = out === "text" ? "text" : new Error("bad");
      const took = S.int("took", 0, 900000);
      const seen = [], handled = [];
      const onError = S.choose("onError", ["default", "answer", "throw"]);
      const logging = S.choose("logging", ["default", "json", "own"]);
      const answer = { status: 500, body: "x" }, second = new Error("second");
      let f = new HandlerFactory();
      let own = 0;
      if (onError !== "default") f = f.withErrorHandler((e, l) => { handled.push([e, l]); if (onError === "throw") throw second; return answer; });
      if (logging === "json") f = f.withLoggingHandler(createJsonLoggingHandler());
      if (logging === "own") f = f.withLoggingHandler(async (m, l) => { own++; S.assert(l === lg, "the logger is passed on"); return await m(); });
      const late = S.choose("late", [false, true]);
      const h = f.createEventHandler((e) => {
        seen.push(e);
        if (late) return (async () => { await null; S.world.time = S.world.time + took; await null; if (out === "ok") return resp; throw err; })();
        S.world.time = S.world.time + took;
        if (out === "throw") throw err;
        return out === "ok" ? Promise.resolve(resp) : Promise.reject(err);
      }, lg);
      S.assert(seen.length === 0, "creating a handler does not call it");
      const r = await S.settle(() => h(event));
      S.assert(seen.length === 1 && seen[0] === event, "the handler is called once with the event");
      if (logging === "own") { S.reach("own logging"); S.assert(own === 1 && recs.length === 0, "own logging replaces the default"); }
      else {
        const infos = recs.filter((x) => x[0] === "info");
        S.assert(infos.length === 1 && recs.length === 1, "one record per call");
        S.assert(infos[0][1].method === "fn.handler" && S.decide(S.eq(infos[0][1].tookMs, took)), "the true duration is logged");
      }
      if (out === "ok") { S.reach("answered"); S.assert(!("error" in r) && r.value === resp && handled.length === 0, "the response is returned unchanged"); return; }
      if (onError !== "default") S.assert(handled.length === 1 && handled[0][0] === err && handled[0][1] === lg, "the failure goes to the error handler");
      if (onError === "answer") { S.reach("recovered"); S.assert(!("error" in r) && r.value === answer, "the error handler's answer is returned"); }
      else { S.reach("passed on"); S.assert("error" in r && r.error === (onError === "default" ? err : second), "the error is passed on"); }
    },
  },
  stopwatch: {
    bounds: "4 operations (thorough: 5) among start, stop, reset of two tasks (one of them the default), symbolic pauses from a symbolic start time on",
    reach: ["running", "stopped", "unknown"],
    async run(S) {
      logger(S);
      const { StopWatch } = S.load(LIB + "utils/stop-watch.js");
      S.world.time = S.int("t0", 1, 2000000000000);
      const viaCreate = S.choose("create", ["plain", "default", "named"]);
      const sw = viaCreate === "plain" ? new StopWatch() : viaCreate === "default" ? StopWatch.createStarted() : StopWatch.createStarted("a");
      const total = {}, since = {}, known = {};
      const D = "default";
      if (viaCreate !== "plain") { const k = viaCreate === "named" ? "a" : D; known[k] = true; total[k] = 0; since[k] = S.world.time; }
      const n = S.thorough ? 5 : 4;
      const check = () => {
        for (const k of ["a", D]) {
          const want = known[k] ? (since[k] === undefined ? total[k] : total[k] + (S.world.time - since[k])) : 0;
          S.assert(S.eq(k === D ? sw.getDuration() : sw.getDuration(k), want), "the exact time the task has been running");
        }
      };
      for (let i = 0; i < n; i++) {
        S.world.time = S.world.time + S.int("p" + i, 0, 100000000);
        const k = S.choose("task" + i, ["a", D]);
        const op = S.choose("op" + i, ["start", "stop", "reset", "resetAll"].slice(0, i === n - 1 ? 4 : 3));
        const r = S.sync(() => op === "start" ? (k === D ? sw.start() : sw.start(k)) : op === "stop" ? (k === D ? sw.stop() : sw.stop(k)) : op === "reset" ? (k === D ? sw.reset("DEFAULT_INTERNAL_TASK") : sw.reset(k)) : sw.reset());
        if (op === "start") {
          if (!known[k]) { known[k] = true; total[k] = 0; }
          if (since[k] !== undefined) total[k] = total[k] + (S.world.time - since[k]);
          since[k] = S.world.time;
        } else if (op === "stop") {
          if (!known[k]) { S.reach("unknown"); S.assert("error" in r, "an unknown task cannot be stopped"); continue; }
          if (since[k] !== undefined) { total[k] = total[k] + (S.world.time - since[k]); since[k] = undefined; }
          S.reach("stopped");
        } else {
          for (const q of op === "reset" ? [k] : ["a", D]) { known[q] = false; since[q] = undefined; total[q] = 0; }
        }
        S.assert(!("error" in r), "known tasks can be started, stopped and reset");
        S.assert(r.value === sw, "calls can be chained");
        if (since.a !== undefined || since[D] !== undefined) S.reach("running");
        check();
      }
      S.world.time = S.world.time + S.int("last", 0, 100000000);
      check();
      for (const k of ["a", "DEFAULT_INTERNAL_TASK"]) {
        const t = sw.getTask(k);
        S.assert(!!t === !!known[k === "a" ? k : D], "a task is on record once started");
        if (!t) continue;
        const done = t.periods.filter((p) => p.endTime !== undefined);
        S.assert(done.length >= t.periods.length - (since[k === "a" ? k : D] !== undefined ? 1 : 0), "every stopped period has its end");
        S.assert(S.eq(done.reduce((x, p) => x + (p.endTime - p.startTime), 0), t.totalDuration), "the recorded periods add up");
      }
      const tasks = sw.getTasks();
      S.assert(S.eq(tasks.map((t) => t.taskName), known.a ? ["a"] : []), "the named tasks are listed");
    },
  },
  taskLog: {
    bounds: "two named tasks and the default task, each started or not, symbolic durations, all levels",
    reach: ["default"],
    async run(S) {
      const { recs } = logger(S);
      const { StopWatch } = S.load(LIB + "utils/stop-watch.js");
      const sw = new StopWatch();
      const want = [];
      for (const k of ["x", "y", undefined]) {
        const s = S.choose("has " + k, ["no", "stopped", "running"]);
        if (s === "no") continue;
        const d = S.int("d" + k, 0, 100000);
        sw.start(k);
        want.push([k, d, s]);
        S.world.time = S.world.time + d;
        if (s === "stopped") sw.stop(k);
      }
      // running tasks go on while later ones are measured
      const end = S.world.time;
      let t = end;
      const level = S.choose("level", [undefined, "debug", "info", "warn", "error"]);
      level ? sw.logTasks("A.b", level) : sw.logTasks("A.b");
      S.assert(recs.length === want.length, "one record per task");
      let later = 0;
      for (let i = want.length - 1; i >= 0; i--) {
        const [k, d, s] = want[i];
        later = later + d;
        const rec = recs[i];
        S.assert(rec[0] === (level ?? "info"), "level");
        S.assert(rec[1].method === "A.b" && rec[1].customTask === (k ?? "A.b"), "method and task");
        if (!k) S.reach("default");
        S.assert(S.eq(rec[1].tookMs, s === "stopped" ? d : later), "duration of the task");
      }
    },
  },
  leadTimes: {
    bounds: "each time a symbolic integer, decimal, NaN, infinite, unsafe or absent; extra fields or not; failing logger",
    reach: ["both", "neither"],
    async run(S) {
      const { recs, lg } = logger(S);
      const { logLeadTimes, logLeadTime } = S.load(LIB + "utils/lead-time-logging.js");
      const mk = (n) => {
        const k = S.choose("kind" + n, ["int", "absent", "decimal", "nan", "inf", "unsafe"]);
        return [k === "int", k === "int" ? S.int("v" + n, -100000, 100000) : k === "absent" ? undefined : k === "decimal" ? 1.5 : k === "nan" ? NaN : k === "inf" ? Infinity : 2 ** 53];
      };
      const [aOk, a] = mk("lead"), [bOk, b] = mk("process");
      const extra = S.choose("extra", [undefined, { customFoo: "x", customName: "overridden", method: "X.y" }]);
      const rec = { target: "tgt" };
      if (a !== undefined) rec.leadTimeMs = a;
      if (b !== undefined) rec.processTimeMs = b;
      if (extra) rec.extraFields = extra;
      logLeadTimes(rec);
      const want = [];
      if (aOk) want.push(["lead-time", a]);
      if (bOk) want.push(["process-time", b]);
      if (aOk && bOk) S.reach("both");
      if (!aOk && !bOk) S.reach("neither");
      S.assert(recs.length === want.length, "whole numbers only, each once");
      want.forEach(([n, v], i) => {
        const m = recs[i][1];
        S.assert(recs[i][0] === "info" && m.customName === n && m.customTarget === "tgt" && m.customLeadTime === true && m.method === "LeadTimeLogging.logLeadTime", "name and target");
        S.assert(S.eq(m.tookMs, v), "the value");
        S.assert(m.customFoo === (extra ? "x" : undefined), "extra fields");
      });
      lg.info = () => { throw new Error("stream closed"); };
      const r = S.sync(() => logLeadTime("mqtt-time", "t", S.int("m", 0, 5)));
      S.assert(!("error" in r) && recs[recs.length - 1][0] === "error", "a failing log is reported, not thrown");
    },
  },
};
