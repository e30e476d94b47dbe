// Path exploration of one harness, and plain runs of it for replay.
import path from "node:path";
import * as T from "./terms.mjs";
import { Run, setRun, PathEnd, endPath, R } from "./core.mjs";
import { Solver, SolverDied } from "./solver.mjs";
import { Loader } from "./loader.mjs";
import { World } from "./env.mjs";
import * as RT from "./rt.mjs";
import { symApi, plainApi, AssertionFailed, AssumptionFailed, HarnessGap } from "./api.mjs";

class Budget extends PathEnd { constructor() { super("budget", "time budget used up"); } }
const unknownPackages = new Set();
const stubPackage = (symbolic) => {
  const cache = new Map();
  const mk = (name) => {
    if (cache.has(name)) return cache.get(name);
    const f = function () {};
    const p = new Proxy(f, {
      get: (t, k) => {
        if (k === "prototype") return f.prototype;
        if (k === "__esModule") return true;
        if (k === "then" || k === "$t" || k === "$sbuf" || k === "toJSON") return undefined;
        if (k === Symbol.toPrimitive) return () => name;
        if (typeof k === "symbol") return undefined;
        return mk(name + "." + k);
      },
      set: () => true,
      apply: () => { unknownPackages.add(name); return mk(name + "()"); },
      construct: () => { unknownPackages.add(name); return mk("new " + name); },
    });
    cache.set(name, p);
    return p;
  };
  return mk;
};

export class Explorer {
  constructor(file, hname, opts) {
    this.file = file;
    this.hname = hname;
    this.opts = opts; // tier, budgetMs
    this.world = new World(true);
    this.loader = new Loader(true);
    this.plain = new PlainRunner(file, hname, opts);
    this.stubPkg = stubPackage(true);
    this.stats = { paths: 0, transitions: 0, obligations: 0, byConstruction: 0, discharged: 0, ends: {} };
    this.flags = new Map();
    this.reached = new Map();
    this.violations = [];
    this.validated = 0;
    this.mismatches = [];
    this.samples = [];
    this.maxSteps = 0; this.maxDepth = 0;
  }
  solver(kind) {
    this.solvers ??= {};
    return (this.solvers[kind] ??= new Solver(kind, this.queryMs));
  }
  check(pc, t, vars) {
    this.tick();
    return this.ask(this.kind, pc, t, vars);
  }
  ask(kind, pc, t, vars) {
    const order = kind === "cvc5" ? ["cvc5", "z3"] : ["z3", "cvc5"];
    for (const k of this.fallback === false ? [order[0]] : order) {
      let r;
      try { const s = this.solver(k); r = s.check(pc, t, vars); this.lastModel = s.model; } catch (e) {
        if (!(e instanceof SolverDied)) throw e;
        this.solvers[k].close(); delete this.solvers[k]; this.solverDeaths = (this.solverDeaths ?? 0) + 1; r = "unknown";
      }
      if (r !== "unknown") return r;
    }
    return "unknown";
  }
  checkAssert(pc, t, vars) { return this.check(pc, t, vars); }
  tick() { if (Date.now() > this.deadline) { if (R && !R.ended) R.ended = new Budget(); throw R?.ended ?? new Budget(); } }
  pushWork(prefix, model) { this.work.push({ prefix, model }); }
  violation(label, model, info) {
    this.record(label, model, info);
  }
  record(label, model, info, kind = "assert") {
    const n = this.violations.filter((v) => v.label === label).length;
    if (n >= 4) { this.dropped = (this.dropped ?? 0) + 1; return; }
    this.violations.push({ label, kind, model: [...(model ?? new Map())], info: safeInfo(info), decisions: R?.decisions.length });
    this.opts.onPartial?.(this.result(false)); // kept should this process die later
  }
  async explore() {
    const t0 = (this.t0 = Date.now());
    let mod;
    this.world.reset();
    this.loader.fresh(this.envFor(null), {}, this.world.globals);
    mod = this.loader.load(this.file);
    const h = (this.h = mod.harnesses[this.hname]);
    const tiered = (x, d) => (x === undefined ? d : typeof x === "object" ? x[this.opts.tier] : x);
    this.kind = h.solver ?? "z3";
    this.fallback = h.fallback;
    this.queryMs = tiered(h.queryMs, this.opts.tier === "thorough" ? 30000 : 10000);
    this.limits = { steps: tiered(h.steps, 200000), depth: tiered(h.depth, 3000), values: h.values ?? 300 };
    const budget = Math.min(this.opts.budgetMs, tiered(h.budgetMs, this.opts.budgetMs));
    this.deadline = t0 + budget;
    this.maxPaths = tiered(h.maxPaths, Infinity);
    this.work = [{ prefix: [], model: new Map() }];
    let exhausted = true;
    while (this.work.length) {
      if (Date.now() > this.deadline || this.stats.paths >= this.maxPaths) { exhausted = false; break; }
      if (this.violations.filter((v) => v.kind !== "engine").length >= (process.env.VERIF_FAILFAST ? 1 : 12)) { exhausted = false; break; }
      const w = this.work.pop();
      if (w.prefix.length) this.stats.transitions++;
      await this.onePath(w);
    }
    if (!exhausted) this.flags.set("incomplete: budget", (this.flags.get("incomplete: budget") ?? 0) + 1);
    for (const s of Object.values(this.solvers ?? {})) s.close();
    return this.result(exhausted);
  }
  result(exhausted) {
    const h = this.h;
    const reach = (h.reach ?? []).filter((l) => !this.reached.has(l));
    const solver = { queries: 0, sat: 0, unsat: 0, unknown: 0, errors: 0, timeMs: 0 };
    for (const s of Object.values(this.solvers ?? {})) for (const k of Object.keys(solver)) solver[k] += s.stats[k];
    return {
      harness: this.hname, bounds: h.bounds, complete: exhausted && reach.length === 0 && ![...this.flags.keys()].some((f) => /^(incomplete|unsupported|assert-unknown|solver-unknown|concretised|error|steps|depth)/.test(f)),
      exhausted, pending: this.work.length,
      stats: this.stats, solver, flags: Object.fromEntries(this.flags), reached: Object.fromEntries(this.reached), missingReach: reach,
      violations: this.violations, validated: this.validated, mismatches: this.mismatches, samples: this.samples,
      encoded: Object.fromEntries(this.world.covered), maxSteps: this.maxSteps, maxDepth: this.maxDepth,
      unknownPackages: [...unknownPackages], wallMs: Date.now() - this.t0, rssMb: Math.round(process.memoryUsage().rss / 1e6),
    };
  }
  envFor(run) {
    const cfg = { file: this.file, tier: this.opts.tier };
    return { world: this.world, loader: this.loader, run, cfg, unknownPackage: (n) => this.stubPkg(n) };
  }
  async onePath(w) {
    const run = new Run(this, w.prefix, w.model);
    run.vars = new Map();
    setRun(run);
    this.world.reset();
    const env = this.envFor(run);
    this.loader.fresh(env, {}, this.world.globals);
    let end = "ok", why = "";
    try {
      const mod = this.loader.load(this.file);
      const S = symApi(env);
      const r = await this.world.drive((async () => mod.harnesses[this.hname].run(S))());
      if (r.stuck) { end = "stuck"; why = "the code under test waits for ever"; }
      if (run.ended) throw run.ended;
    } catch (e) {
      const x = run.ended ?? e;
      if (x instanceof PathEnd) { end = x.kind; why = x.why; } else { end = "error"; why = String((x && x.stack) || x).slice(0, 600); }
    }
    this.stats.paths++;
    this.stats.ends[end] = (this.stats.ends[end] ?? 0) + 1;
    this.maxSteps = Math.max(this.maxSteps, run.steps);
    this.maxDepth = Math.max(this.maxDepth, run.decisions.length);
    const bump = (f) => this.flags.set(f, (this.flags.get(f) ?? 0) + 1);
    for (const f of run.flags) bump(f);
    if (process.env.VERIF_TRACE) console.error(`path ${this.stats.paths} ${end} ${why.slice(0, 200)} depth=${run.decisions.length} steps=${run.steps} t=${Date.now() % 1000000}`);
    if (end === "assume" || end === "model" || end === "budget") { if (end === "model") bump("out-of-model: " + why); setRun(null); return; }
    let model = run.model;
    // a model of the whole path condition
    if (model === undefined || (run.pos < run.prefix.length)) {
      try { const r = this.ask(this.kind, run.pc, undefined, [...run.vars.values()]); model = r === "sat" ? this.lastModel : undefined; } catch { model = undefined; }
    }
    if (end === "ok") for (const l of run.reached) this.reached.set(l, (this.reached.get(l) ?? 0) + 1);
    if (end === "unsupported") bump("unsupported: " + why.slice(0, 160));
    if (end === "depth") bump("depth: " + why);
    if (end === "unknown") bump("solver-unknown");
    if ((end === "steps" || end === "stuck") && model) { bump(end + ": " + why); this.record("terminates", model, why, end); setRun(null); return; }
    if (end === "error" && process.env.VERIF_TRACE) console.log(why);
    if (end === "error") bump("error: " + why.split("\n")[0].slice(0, 200));
    // cross-validation: run the very same inputs on the plain code
    const n = this.stats.paths;
    const must = end === "unsupported" || end === "error";
    if (model && end !== "violation" && (must ? n < 400 : n <= 60 || n % Math.ceil(n / 40) === 0)) {
      const vals = fullModel(model, run);
      setRun(null);
      const p = await this.plain.run(vals, 4000);
      setRun(run);
      if (p.status === "violated") this.record(p.label, vals, p.info, "concrete");
      else if (p.status === "threw-in-repo") this.record("uncaught exception: " + p.name, vals, p.why, "threw");
      else if (p.status === "threw-on-result") this.record("a result of an unexpected shape", vals, p.why, "threw");
      else if (run.approx) { /* over-approximated: values may differ */ }
      else if (end === "ok" && p.status === "ok") {
        run.model = model; run.cache = new Map();
        let same = true, sym;
        try {
          sym = run.observations.map(([l, v]) => [l, RT.evalValue(v, run)]);
          const a = canon(sym), b = canon(p.observations);
          if (a !== b) { same = false; if (this.mismatches.length < 5) this.mismatches.push({ model: [...vals], symbolic: a.slice(0, 800), plain: b.slice(0, 800) }); bump("mismatch"); }
        } catch (e) { if (!(e instanceof T.EvalUnknown)) { bump("observation error: " + String(e).slice(0, 100)); } same = undefined; }
        if (same) this.validated++;
        if (this.samples.length < 4) this.samples.push({ inputs: Object.fromEntries([...vals].slice(0, 24)), decisions: run.decisions.length, observed: JSON.stringify(p.observations).slice(0, 300) });
      } else if (end === "ok" && p.status !== "ok") { bump("mismatch: plain run " + p.status + (p.why ? " " + p.why.slice(0, 120) : "")); if (this.mismatches.length < 5) this.mismatches.push({ model: [...vals], plain: p.status, why: p.why }); }
      else if (end === "error" && p.status === "ok") bump("mismatch: only the symbolic run failed");
    }
    setRun(null);
  }
}
function fullModel(model, run) {
  const m = new Map();
  for (const [n, v] of run.vars) m.set(n, T.evaluate(v, model));
  return m;
}
const safeInfo = (x) => { try { return x === undefined ? undefined : JSON.stringify(x, (k, v) => (v instanceof RT.Sym ? "<symbolic>" : v))?.slice(0, 500); } catch { return "?"; } };
// comparison form of observations
export function canon(v) {
  const seen = new Set();
  const c = (x) => {
    if (x === undefined) return "undefined";
    if (typeof x === "number") return Object.is(x, -0) ? "0" : String(x);
    if (typeof x === "string" || typeof x === "boolean" || x === null) return JSON.stringify(x);
    if (typeof x === "function") return "fn";
    if (typeof x !== "object") return String(x);
    if (x instanceof Date) return Number.isNaN(x.getTime()) ? '"Invalid Date"' : JSON.stringify(x.toISOString());
    if (seen.has(x)) return "cycle";
    seen.add(x);
    let r;
    if (Array.isArray(x)) r = "[" + x.map(c).join(",") + "]";
    else if (x instanceof Map) r = c({ $map: [...x] });
    else if (x instanceof Set) r = c({ $set: [...x] });
    else if (Buffer.isBuffer(x)) r = c({ $buf: x.toString("utf8") });
    else if (x instanceof Error) r = c({ name: x.name, message: x.message });
    else r = "{" + Object.keys(x).filter((k) => x[k] !== undefined).sort().map((k) => JSON.stringify(k) + ":" + c(x[k])).join(",") + "}";
    seen.delete(x);
    return r;
  };
  return c(v);
}

export class PlainRunner {
  constructor(file, hname, opts) {
    this.file = file; this.hname = hname; this.opts = opts;
    this.world = new World(false);
    this.loader = new Loader(false);
    this.stubPkg = stubPackage(false);
  }
  async run(model) {
    const out = { asserts: 0, failed: [], observations: [] };
    const cfg = { file: this.file, tier: this.opts.tier };
    this.world.reset();
    const env = { world: this.world, loader: this.loader, model, cfg, out, unknownPackage: (n) => this.stubPkg(n) };
    this.loader.fresh(env, {}, this.world.globals);
    try {
      const mod = this.loader.load(this.file);
      const S = plainApi(env);
      const r = await this.world.drive((async () => mod.harnesses[this.hname].run(S))());
      if (out.failed.length) return { status: "violated", ...out.failed[0] };
      if (out.gap !== undefined) return { status: "gap", why: out.gap };
      if (r.stuck) return { status: "stuck" };
      return { status: "ok", observations: out.observations, asserts: out.asserts };
    } catch (e) {
      if (out.failed.length) return { status: "violated", ...out.failed[0], info: safeInfo(out.failed[0].info) };
      if (e instanceof AssumptionFailed) return { status: "assumption" };
      if (out.gap !== undefined) return { status: "gap", why: out.gap };
      if (e instanceof HarnessGap) return { status: "gap", why: e.message };
      const st = String((e && e.stack) || e);
      const top = st.split("\n").find((l) => /^\s+at /.test(l) && !/node:|<anonymous>\)?$|native/.test(l)) ?? "";
      const inRepo = top.includes("/repo/") || top.includes(path.sep + "repo" + path.sep) || (process.env.VERIF_REPO && top.includes(process.env.VERIF_REPO));
      const here = path.dirname(this.file) + path.sep;
      const inHarness = top.includes(here) && e instanceof TypeError && /^Cannot (read|set) propert|is not iterable|^Cannot convert undefined or null|is not a function$|^Cannot use .in. operator|^[A-Za-z.]*(keys|values|entries) called on/.test(e.message);
      return { status: inHarness ? "threw-on-result" : inRepo && !top.includes(here) && e instanceof Error ? "threw-in-repo" : "threw", name: e?.name, why: st.slice(0, 600) };
    }
  }
}
