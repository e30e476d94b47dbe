// The harness API, once for symbolic runs and once for plain (replay) runs.
import * as T from "./terms.mjs";
import { Sym, SymBool, SymNum, SymStr, Opq, R, PathEnd, Unsupported, newVar, assume, assertTerm, concretize, decide, endPath, flag, checkEnded } from "./core.mjs";
import * as N from "./num.mjs";
import * as X from "./str.mjs";
import * as RT from "./rt.mjs";
import { cdkModule, startCdk } from "./cdk.mjs";

// "a-z0-9_" -> ranges
export function ranges(alpha) {
  const out = [];
  const c = X.codes(alpha);
  for (let i = 0; i < c.length; i++) {
    if (c[i + 1] === 45 && i + 2 < c.length) { out.push([c[i], c[i + 2]]); i += 2; } else out.push([c[i], c[i]]);
  }
  return out.sort((a, b) => a[0] - b[0]);
}
export class HarnessGap extends Error {}
const PRINT = " -~";

// a stand-in whose missing members are reported as gaps of the harness
function mockWith(gap) {
  const wrap = (o, name) => new Proxy(o, {
    get(t, k) {
      if (k in t || typeof k === "symbol" || k === "then" || k === "toJSON" || k === "constructor" || k === "$t" || k === "$sbuf" || k === "$timer" || k === "__esModule" || k === "default") return t[k];
      return (...a) => gap(`${name}.${String(k)} is not provided by the stand-in`);
    },
  });
  return wrap;
}

// a stand-in of a module: what it does not export is a gap of the harness
function moduleMock(spec, v, gap) {
  if (typeof v !== "object" || v === null) return v;
  const p = new Proxy(v, {
    get(t, k) {
      if (k in t || typeof k === "symbol") return t[k];
      if (k === "__esModule") return true;
      if (k === "default") return p;
      if (k === "then" || k === "toJSON" || k === "constructor" || k === "$t" || k === "$sbuf") return undefined;
      return gap(`${spec} has no stand-in for ${String(k)}`);
    },
  });
  return p;
}

export function symApi(env) {
  const { world, loader, run, cfg } = env;
  const nameCount = new Map();
  const uniq = (n) => { const c = nameCount.get(n) ?? 0; nameCount.set(n, c + 1); return c ? `${n}~${c}` : n; };
  const mkChar = (n, rs) => {
    const v = newVar(T.intVar(n, rs[0][0], rs[rs.length - 1][1]));
    if (rs.length > 1) assume(T.or(...rs.map(([a, b]) => X.inRange(v, a, b))));
    return v;
  };
  const strOf = (n, len, rs) => X.mkStr(Array.from({ length: len }, (_, i) => mkChar(`${n}[${i}]`, rs)));
  const gap = (m) => { throw new Unsupported(m); };
  const bt = (v) => RT.truthT(v);
  const S = {
    symbolic: true, world, tier: cfg.tier, thorough: cfg.tier === "thorough",
    int(name, lo, hi) { name = uniq(name); return lo === hi ? lo : N.mkInt(newVar(T.intVar(name, lo, hi))); },
    dec(name, lo, hi, den) { name = uniq(name); return N.mkInt(newVar(T.intVar(name, lo, hi)), den); },
    bool(name) { return new SymBool(newVar(T.boolVar(uniq(name)))); },
    real(name, lo, hi) {
      const v = new SymNum(newVar(T.fpVar(uniq(name))));
      if (lo !== undefined) assume(T.and(N.cmp("<=", lo, v), N.cmp("<=", v, hi)));
      return v;
    },
    str(name, len, alpha = PRINT) {
      name = uniq(name);
      const rs = ranges(alpha);
      if (typeof len !== "number") {
        const [a, b] = Array.isArray(len) ? len : [len.min, len.max];
        len = a === b ? a : concretize(newVar(T.intVar(name + "#len", a, b)), "length of " + name);
      }
      return strOf(name, len, rs);
    },
    opaque(name, min, max, alphabet = "abcdefghijklmnopqrstuvwxyz") {
      name = uniq(name);
      const len = newVar(T.intVar(name + "#len", min, max));
      const b = X.opqBase("free", undefined, len, { alphabet, name });
      return X.whole(b);
    },
    choose(name, arr) {
      name = uniq(name);
      if (arr.length === 1) return arr[0];
      return arr[concretize(newVar(T.intVar(name + "#c", 0, arr.length - 1)), "choice")];
    },
    date(name, lo, hi) { return new world.Date(S.int(name, lo, hi)); },
    assume(c) { assume(bt(c)); },
    assert(c, label, info) { assertTerm(bt(c), label, info); },
    fail(label, info) { assertTerm(T.FALSE, label, info); },
    reach(label) { run.reached.add(label); },
    observe(label, v) { run.observations.push([label, snapshot(v)]); },
    eq: (a, b) => N.mkBool(deepEqT(a, b)),
    and: (...xs) => N.mkBool(T.and(...xs.map(bt))),
    or: (...xs) => N.mkBool(T.or(...xs.map(bt))),
    not: (x) => N.mkBool(T.not(bt(x))),
    implies: (a, b) => N.mkBool(T.implies(bt(a), bt(b))),
    iff: (a, b) => N.mkBool(T.eq(bt(a), bt(b))),
    ite(c, a, b) {
      const t = bt(c);
      if (t === T.TRUE) return a;
      if (t === T.FALSE) return b;
      if (typeof a === "boolean" || a instanceof SymBool) return N.mkBool(T.ite(t, N.bterm(a), N.bterm(b)));
      const x = N.toNum(a), y = N.toNum(b);
      const xt = x instanceof SymNum ? x : { t: T.int(x), den: 1 }, yt = y instanceof SymNum ? y : { t: T.int(y), den: 1 };
      if (xt.t.sort === "FP" || yt.t.sort === "FP") return N.mkFP(T.ite(t, N.fpTerm(x), N.fpTerm(y)));
      if (xt.den !== yt.den) throw new Unsupported("ite of different denominators");
      return N.mkInt(T.ite(t, xt.t, yt.t), xt.den);
    },
    // does the condition hold, forking if undetermined
    decide: (c) => decide(bt(c)),
    concrete: (v) => RT.concAll(v),
    load: (p) => loader.require(p.startsWith("/") ? p : "repo:" + p, cfg.file),
    // modules that wait while they are loaded
    ready: async () => { for (const p of loader.pending) await p; },
    pkg: (p) => loader.require(p, cfg.file),
    script: (text, from, req) => loader.script(text, from, req),
    published: (p) => loader.published(p),
    generate: (p, imports, name, ...args) => loader.generate(p, imports, name, args),
    stub(spec, v) { loader.stubs[spec] = moduleMock(spec, v, gap); },
    // replaces aws-cdk-lib by a recorder
    cdk(defs) { loader.stubs.$cdk = cdkModule; return startCdk(defs); },
    mock: mockWith(gap),
    gap,
    async thrown(f) { try { await f(); } catch (e) { RT.caught(e); return { error: e }; } return undefined; },
    async settle(f) { try { return { value: await f() }; } catch (e) { RT.caught(e); return { error: e }; } },
    sync(f) { try { return { value: f() }; } catch (e) { RT.caught(e); return { error: e }; } },
    len: (s) => X.length(s),
    step: () => RT.loop(),
    note: (f) => flag(f),
  };
  return S;
}
function snapshot(v) { return v; }
function deepEqT(a, b, d = 0) {
  if (d > 30) return T.FALSE;
  if (a instanceof Sym || b instanceof Sym) {
    if (a instanceof SymNum || b instanceof SymNum) if (typeof a === "number" || typeof b === "number" || (a instanceof SymNum && b instanceof SymNum)) {
      if (a instanceof SymNum && b instanceof SymNum && a.t === b.t && a.den === b.den) return T.TRUE;
      if (a.t?.sort === "FP" || b.t?.sort === "FP") return T.or(N.numEq(a, b), T.and(N.isNaNT(a), N.isNaNT(b)));
      return N.numEq(a, b);
    }
    return RT.eqT(a, b);
  }
  if (a === b) return T.TRUE;
  if (typeof a === "number" && typeof b === "number") return T.bool(Object.is(a, b) || a === b || (Number.isNaN(a) && Number.isNaN(b)));
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return T.FALSE;
  if (a instanceof Date || b instanceof Date) {
    if (!(a instanceof Date && b instanceof Date)) return T.FALSE;
    const x = a.getTime(), y = b.getTime();
    return x instanceof Sym || y instanceof Sym ? N.numEq(x, y) : T.bool(Object.is(x, y));
  }
  if (a.$sbuf && b.$sbuf) return a.kind === b.kind ? RT.eqT(a.data, b.data) : T.FALSE;
  if (Array.isArray(a) !== Array.isArray(b)) return T.FALSE;
  if (Array.isArray(a)) {
    if (a.length !== b.length) return T.FALSE;
    return T.and(...a.map((x, i) => deepEqT(x, b[i], d + 1)));
  }
  if (a instanceof Map && b instanceof Map) {
    if (a.size !== b.size) return T.FALSE;
    const y = [...b];
    return T.and(...[...a].map(([k, v]) => T.or(...y.map(([k2, v2]) => T.and(deepEqT(k, k2, d + 1), deepEqT(v, v2, d + 1))))));
  }
  if (a instanceof Set && b instanceof Set) {
    if (a.size !== b.size) return T.FALSE;
    const y = [...b];
    return T.and(...[...a].map((k) => T.or(...y.map((k2) => deepEqT(k, k2, d + 1)))));
  }
  if (a instanceof Error && b instanceof Error) return T.and(T.bool(a.name === b.name), deepEqT(a.message, b.message, d + 1));
  const ka = Object.keys(a).filter((k) => a[k] !== undefined), kb = Object.keys(b).filter((k) => b[k] !== undefined);
  if (ka.length !== kb.length) return T.FALSE;
  const cs = [];
  for (const k of ka) {
    if (R.symKeys.has(k) || kb.some((q) => R.symKeys.has(q))) {
      const key = RT.realKey(k);
      cs.push(T.or(...kb.map((q) => T.and(RT.eqT(RT.realKey(q), key), deepEqT(a[k], b[q], d + 1)))));
    } else {
      if (!kb.includes(k)) return T.FALSE;
      const e = deepEqT(a[k], b[k], d + 1);
      if (e === T.FALSE) return T.FALSE;
      cs.push(e);
    }
  }
  return T.and(...cs);
}

// ---------------------------------------------------------------- plain runs
export class AssertionFailed extends Error {
  constructor(label, info) { super("assertion failed: " + label); this.label = label; this.info = info; }
}
export class AssumptionFailed extends Error {}
export function plainApi(env) {
  const { world, loader, model, cfg, out } = env;
  const nameCount = new Map();
  const uniq = (n) => { const c = nameCount.get(n) ?? 0; nameCount.set(n, c + 1); return c ? `${n}~${c}` : n; };
  const get = (name, lo, hi) => {
    const v = model.get(name);
    if (v !== undefined) return v;
    return lo > 0 ? lo : hi < 0 ? hi : 0;
  };
  // what follows a gap says nothing, also when the code has caught it
  const gap = (m) => { out.gap ??= m; throw new HarnessGap(m); };
  const noGap = () => { if (out.gap !== undefined) throw new HarnessGap(out.gap); };
  const S = {
    symbolic: false, world, tier: cfg.tier, thorough: cfg.tier === "thorough",
    int(name, lo, hi) { name = uniq(name); return lo === hi ? lo : get(name, lo, hi); },
    dec(name, lo, hi, den) { return get(uniq(name), lo, hi) / den; },
    bool(name) { return model.get(uniq(name)) ?? false; },
    real(name, lo, hi) { return get(uniq(name), -1, 1); },
    str(name, len, alpha = PRINT) {
      name = uniq(name);
      const rs = ranges(alpha);
      if (typeof len !== "number") { const [a, b] = Array.isArray(len) ? len : [len.min, len.max]; len = a === b ? a : get(name + "#len", a, b); }
      let s = "";
      for (let i = 0; i < len; i++) s += String.fromCharCode(get(`${name}[${i}]`, rs[0][0], rs[rs.length - 1][1]));
      return s;
    },
    opaque(name, min, max, alphabet = "abcdefghijklmnopqrstuvwxyz") { name = uniq(name); return RT.opaqueText(alphabet, get(name + "#len", min, max)); },
    choose(name, arr) { name = uniq(name); return arr.length === 1 ? arr[0] : arr[get(name + "#c", 0, arr.length - 1)]; },
    date(name, lo, hi) { return new world.Date(S.int(name, lo, hi)); },
    assume(c) { if (!c) throw new AssumptionFailed("assumption"); },
    assert(c, label, info) { noGap(); out.asserts++; if (!c) { out.failed.push({ label, info }); throw new AssertionFailed(label, info); } },
    fail(label, info) { noGap(); out.asserts++; out.failed.push({ label, info }); throw new AssertionFailed(label, info); },
    reach() {},
    observe(label, v) { out.observations.push([label, v]); },
    eq: deepEq,
    and: (...xs) => xs.every((x) => !!x), or: (...xs) => xs.some((x) => !!x), not: (x) => !x, implies: (a, b) => !a || !!b, iff: (a, b) => !!a === !!b,
    ite: (c, a, b) => (c ? a : b),
    decide: (c) => !!c,
    concrete: (v) => v,
    load: (p) => loader.require(p.startsWith("/") ? p : "repo:" + p, cfg.file),
    // modules that wait while they are loaded
    ready: async () => { for (const p of loader.pending) await p; },
    pkg: (p) => loader.require(p, cfg.file),
    script: (text, from, req) => loader.script(text, from, req),
    published: (p) => loader.published(p),
    generate: (p, imports, name, ...args) => loader.generate(p, imports, name, args),
    stub(spec, v) { loader.stubs[spec] = moduleMock(spec, v, gap); },
    // replaces aws-cdk-lib by a recorder
    cdk(defs) { loader.stubs.$cdk = cdkModule; return startCdk(defs); },
    mock: mockWith(gap),
    gap,
    async thrown(f) { try { await f(); } catch (e) { pass(e); return { error: e }; } return undefined; },
    async settle(f) { try { return { value: await f() }; } catch (e) { pass(e); return { error: e }; } },
    sync(f) { try { return { value: f() }; } catch (e) { pass(e); return { error: e }; } },
    len: (s) => s.length,
    step() {},
    note() {},
  };
  const pass = (e) => { noGap(); if (e instanceof AssertionFailed || e instanceof AssumptionFailed || e instanceof HarnessGap) throw e; if (out.failed.length) throw new AssertionFailed(out.failed[0].label, out.failed[0].info); };
  return S;
}
export function deepEq(a, b, d = 0) {
  if (a === b || (Number.isNaN(a) && Number.isNaN(b))) return true;
  if (d > 30 || a === null || b === null || typeof a !== "object" || typeof b !== "object") return false;
  if (a instanceof Date || b instanceof Date) return a instanceof Date && b instanceof Date && Object.is(a.getTime(), b.getTime());
  if (Buffer.isBuffer(a) && Buffer.isBuffer(b)) return a.equals(b);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => deepEq(x, b[i], d + 1));
  if (a instanceof Map && b instanceof Map) return a.size === b.size && [...a].every(([k, v]) => [...b].some(([k2, v2]) => deepEq(k, k2, d + 1) && deepEq(v, v2, d + 1)));
  if (a instanceof Set && b instanceof Set) return a.size === b.size && [...a].every((k) => [...b].some((k2) => deepEq(k, k2, d + 1)));
  if (a instanceof Error && b instanceof Error) return a.name === b.name && a.message === b.message;
  const ka = Object.keys(a).filter((k) => a[k] !== undefined), kb = Object.keys(b).filter((k) => b[k] !== undefined);
  return ka.length === kb.length && ka.every((k) => kb.includes(k) && deepEq(a[k], b[k], d + 1));
}
