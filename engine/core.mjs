// Path state of the current symbolic run, decisions, and symbolic values.
import * as T from "./terms.mjs";

export class Sym {
  [Symbol.toPrimitive]() { throw new Unsupported("symbolic value reached native code (toPrimitive)"); }
  toJSON() { throw new Unsupported("symbolic value reached native code (toJSON)"); }
}
export class SymBool extends Sym { constructor(t) { super(); this.t = t; } }
// value = t (Int or FP sort), divided by the positive integer constant den
export class SymNum extends Sym { constructor(t, den = 1) { super(); this.t = t; this.den = den; } }
// cs: array of UTF-16 code units (number), symbolic code units (Int term) and opaque segments (Opq)
export class SymStr extends Sym { constructor(cs) { super(); this.cs = cs; } }
// an opaque slice [s, s+n) of base; base = {id, kind, len, data}
export class Opq { constructor(base, s, n) { this.o = base; this.s = s; this.n = n; } }

// Signals that end a path. They are never handed to the code under test: once
// raised, the run is marked aborted and every later operation raises again.
export class PathEnd extends Error {
  constructor(kind, why) { super(kind + ": " + why); this.kind = kind; this.why = why; }
}
export class Unsupported extends PathEnd { constructor(why) { super("unsupported", why); raise(this, true); } }

export let R = null; // current run
export const setRun = (r) => { R = r; };

function raise(e, noThrow) {
  if (R && !R.ended) R.ended = e;
  if (!noThrow) throw e;
}
export function endPath(kind, why) { raise(new PathEnd(kind, why)); }
export function checkEnded() { if (R.ended) throw R.ended; }

export class Run {
  constructor(ex, prefix, model) {
    this.ex = ex; // explorer: solver, work list, statistics
    this.prefix = prefix;
    this.model = model; // satisfies the path condition once the prefix is used up
    this.pos = 0;
    this.pc = [];
    this.pcset = new Set();
    this.decisions = [];
    this.vars = new Map();
    this.steps = 0;
    this.flags = new Set();
    this.ended = null;
    this.cache = new Map();
    this.opqs = [];
    this.observations = [];
    this.inputs = [];
    this.asserts = 0;
    this.reached = new Set();
    this.symKeys = new Map();
    this.fresh = 0;
  }
  push(t) { if (t !== T.TRUE && !this.pcset.has(t)) { this.pc.push(t); this.pcset.add(t); } }
  setModel(m) { this.model = m; this.cache = new Map(); }
  ev(t) { return T.evaluate(t, this.model, this.cache); }
}
export const flag = (f) => { R.flags.add(f); };

function declared(t) {
  for (const [n, v] of T.vars(t)) if (!R.vars.has(n)) R.vars.set(n, v);
}
export function newVar(v) {
  if (!R.vars.has(v.val)) {
    R.vars.set(v.val, v);
    if (v.sort === "Int") R.push(T.range(v));
  }
  return v;
}

const allVars = () => [...R.vars.values()];

// asks the solver; on sat also yields a model of pc ∧ t
function query(t) {
  const res = R.ex.check(R.pc, t, allVars());
  return res;
}
function ensureModel() {
  if (R.model) return;
  const r = R.ex.check(R.pc, undefined, allVars());
  if (r === "unsat") endPath("assume", "infeasible path");
  if (r !== "sat" || !R.ex.lastModel) { flag("solver-unknown"); endPath("unknown", "no model for this path"); }
  R.setModel(R.ex.lastModel);
}
function evalOr(t) {
  ensureModel();
  try { return R.ev(t); } catch (e) { if (e instanceof T.EvalUnknown) return undefined; throw e; }
}

export function step(n = 1) {
  if (R.ended) throw R.ended;
  R.steps += n;
  if (R.steps > R.ex.limits.steps) endPath("steps", `more than ${R.ex.limits.steps} steps on one path`);
}

// Is t feasible / entailed on this path without forking?  (used by models)
export function decide(t) {
  if (R.ended) throw R.ended;
  if (t === T.TRUE) return true;
  if (t === T.FALSE) return false;
  if (R.pcset.has(t)) return true;
  if (R.pcset.has(T.not(t))) return false;
  if (R.pos < R.prefix.length) {
    const d = R.prefix[R.pos++];
    if (typeof d !== "boolean") throw new Error("nondeterministic replay (bool decision expected)");
    R.decisions.push(d);
    R.push(d ? t : T.not(t));
    return d;
  }
  R.ex.tick();
  if (R.decisions.length >= R.ex.limits.depth) endPath("depth", `more than ${R.ex.limits.depth} decisions on one path`);
  let d = evalOr(t);
  if (d === undefined) {
    // uninterpreted function in the term: ask for both sides
    const r1 = query(t);
    if (r1 === "sat" || r1 === "unknown") {
      d = true;
      if (r1 === "sat") R.setModel(R.ex.lastModel);
      else flag("solver-unknown");
    } else d = false;
  }
  const other = d ? T.not(t) : t;
  const res = query(other);
  if (res !== "unsat") {
    if (res === "unknown") flag("solver-unknown");
    R.ex.pushWork(R.decisions.concat([!d]), res === "sat" ? R.ex.lastModel : undefined);
    R.decisions.push(d);
  } else {
    // forced: record it so that replays take the same number of entries
    R.decisions.push(d);
  }
  R.push(d ? t : T.not(t));
  R.ex.stats.transitions++;
  return d;
}

export function assume(t) {
  if (R.ended) throw R.ended;
  if (t === T.TRUE) return;
  if (t === T.FALSE) endPath("assume", "assumption is false here");
  declared(t);
  if (R.pos < R.prefix.length) { R.push(t); return; }
  if (R.model && evalOr(t) === true) { R.push(t); return; }
  const res = query(t);
  R.ex.tick();
  if (res === "unsat") endPath("assume", "assumption infeasible here");
  if (res === "sat") R.setModel(R.ex.lastModel);
  else { flag("solver-unknown"); R.setModel(undefined); }
  R.push(t);
}

const same = (t, v) => (t.sort === "FP" ? T.fpsame(t, T.fp(v)) : T.eq(t, T.int(v)));
// enumerate the feasible values of t by forking
export function concretize(t, why = "") {
  if (T.isConst(t)) return t.sort === "Bool" ? t === T.TRUE : t.val;
  if (t.sort === "Bool") return decide(t);
  let ne = [];
  if (R.pos < R.prefix.length) {
    const d = R.prefix[R.pos++];
    if (typeof d !== "object") throw new Error("nondeterministic replay (value decision expected)");
    if ("eq" in d) {
      R.decisions.push(d);
      R.push(same(t, d.eq));
      return d.eq;
    }
    ne = d.ne;
    for (const v of ne) R.push(T.not(same(t, v)));
  }
  R.ex.tick();
  let v = evalOr(t);
  if (v === undefined) { flag("solver-unknown"); endPath("unsupported", "no model to concretise with"); }
  const res = query(T.not(same(t, v)));
  if (res !== "unsat") {
    if (ne.length + 1 >= R.ex.limits.values) flag("incomplete: more than " + R.ex.limits.values + " values of one expression" + (why ? " (" + why + ")" : ""));
    else R.ex.pushWork(R.decisions.concat([{ ne: ne.concat([v]) }]), res === "sat" ? R.ex.lastModel : undefined);
  }
  R.decisions.push({ eq: v });
  R.push(same(t, v));
  R.ex.stats.transitions++;
  return v;
}

// The assertion: on no input that follows this path may t be false.
export function assertTerm(t, label, info) {
  if (R.ended) throw R.ended;
  R.asserts++;
  if (R.pos < R.prefix.length) return; // decided on the parent path, under a weaker condition
  R.ex.stats.obligations++;
  if (t === T.TRUE) { R.ex.stats.byConstruction++; return; }
  declared(t);
  let bad;
  ensureModel();
  if (t === T.FALSE || evalOr(t) === false) bad = R.model;
  else {
    const res = R.ex.checkAssert(R.pc, T.not(t), allVars());
    if (res === "unsat") { R.ex.stats.discharged++; return; }
    if (res === "unknown") { flag("assert-unknown: " + label); return; }
    bad = R.ex.lastModel;
  }
  R.ex.violation(label, bad, info);
  if (t === T.FALSE) endPath("violation", label);
  assume(t);
}
