// The runtime that instrumented code calls for every operator, property access
// and call. Concrete operands take the native path.
import * as T from "./terms.mjs";
import { R, Sym, SymBool, SymNum, SymStr, Opq, PathEnd, Unsupported, decide, concretize, endPath, step, flag } from "./core.mjs";
import * as N from "./num.mjs";
import * as X from "./str.mjs";
import * as RX from "./regex.mjs";

const NATIVE = Symbol("native");
const isStr = X.isStr;
export const models = new Map(); // native function -> (self, args, newTarget) => value | NATIVE
export const nativeFns = new WeakSet(); // functions of uninstrumented packages
const safe = new Set();

// ---------------------------------------------------------------- conversions
export function truthT(v) {
  if (v instanceof SymBool) return v.t;
  if (v instanceof SymNum) return N.numTruth(v);
  if (v instanceof SymStr) return v.cs.some((c) => !(c instanceof Opq)) ? T.TRUE : T.not(T.eq(X.lenT(v), T.int(0)));
  return T.bool(!!v);
}
const truth = (v) => (v instanceof Sym ? decide(truthT(v)) : !!v);
export function toStr(v) {
  if (typeof v === "string" || v instanceof SymStr) return v;
  if (v instanceof SymNum) return X.decStr(v);
  if (v instanceof SymBool) return decide(v.t) ? "true" : "false";
  if (v === null || typeof v !== "object") return typeof v === "symbol" ? String(v) : String(v);
  if (Array.isArray(v)) return joinArr(v, ",");
  if (v instanceof Error) return errStr(v);
  if (v.$t !== undefined) throw new Unsupported("Date.prototype.toString of a symbolic date");
  if (v.$sbuf) return v.toString();
  if (typeof v.toString === "function" && v.toString !== Object.prototype.toString && !isNative(v.toString)) return toStr(apply(v.toString, v, []));
  return String(v);
}
function errStr(e) {
  const n = e.name === undefined ? "Error" : toStr(e.name), m = e.message === undefined ? "" : toStr(e.message);
  return n === "" ? m : m === "" ? n : X.concat(n, ": ", m);
}
function toPrimAdd(v) {
  if (v === null || typeof v !== "object" || v instanceof Sym) return v;
  if (v instanceof Date) return v.$t !== undefined ? toStr(v) : v.toString();
  return toStr(v);
}
export function deepHasSym(v, seen = new Set(), depth = 0) {
  if (v instanceof Sym) return true;
  if (v === null || typeof v !== "object") return false;
  if (v.$t !== undefined && v.$t instanceof Sym) return true;
  if (seen.has(v) || depth > 12) return false;
  seen.add(v);
  if (v.$sbuf) return true;
  if (Array.isArray(v)) return v.some((x) => deepHasSym(x, seen, depth + 1));
  if (v instanceof Map || v instanceof Set) { for (const x of v.entries()) if (deepHasSym(x[0], seen, depth + 1) || deepHasSym(x[1], seen, depth + 1)) return true; return false; }
  if (v instanceof Promise || v instanceof WeakMap) return false;
  for (const k of Object.keys(v)) {
    if (k[0] === "\uE000" && R && R.symKeys.has(k)) return true;
    const d = Object.getOwnPropertyDescriptor(v, k);
    if (d && "value" in d && deepHasSym(d.value, seen, depth + 1)) return true;
  }
  if (v instanceof Error && v.message instanceof Sym) return true;
  return false;
}
export function concAll(v, why) {
  if (v instanceof SymBool) return decide(v.t);
  if (v instanceof SymNum) return N.conc(v);
  if (v instanceof SymStr) {
    if (why) flag("concretised: " + why);
    return String.fromCharCode(...X.chars(v).map((c) => (typeof c === "number" ? c : concretize(c, why))));
  }
  if (v === null || typeof v !== "object") return v;
  if (v.$t instanceof Sym) { flag("concretised: " + why); return new Date(N.conc(v.$t)); }
  if (!deepHasSym(v)) return v;
  if (why) flag("concretised: " + why);
  if (Array.isArray(v)) return v.map((x) => concAll(x, why));
  if (v instanceof Map) return new Map([...v].map(([a, b]) => [concAll(a, why), concAll(b, why)]));
  if (v instanceof Set) return new Set([...v].map((a) => concAll(a, why)));
  if (Object.getPrototypeOf(v) === Object.prototype || Object.getPrototypeOf(v) === null) {
    const o = {};
    for (const k of Object.keys(v)) o[R.symKeys.has(k) ? concAll(R.symKeys.get(k), why) : k] = concAll(v[k], why);
    return o;
  }
  throw new Unsupported("symbolic data inside an object passed to native code (" + why + ")");
}

// ---------------------------------------------------------------- operators
export function eqT(a, b) {
  if (a instanceof Sym || b instanceof Sym) {
    if (a === b) return a instanceof SymNum ? N.numEq(a, b) : T.TRUE;
    if (isStr(a) && isStr(b)) return X.eqStr(a, b);
    const an = typeof a === "number" || a instanceof SymNum, bn = typeof b === "number" || b instanceof SymNum;
    if (an && bn) return N.numEq(a, b);
    const ab = typeof a === "boolean" || a instanceof SymBool, bb = typeof b === "boolean" || b instanceof SymBool;
    if (ab && bb) return T.eq(N.bterm(a), N.bterm(b));
    return T.FALSE;
  }
  return T.bool(a === b);
}
export const eq = (a, b) => (a instanceof Sym || b instanceof Sym ? N.mkBool(eqT(a, b)) : a === b);
function looseEq(a, b) {
  if (!(a instanceof Sym || b instanceof Sym)) return a == b; // eslint-disable-line eqeqeq
  if (a == null || b == null) return false;
  const k = (v) => (isStr(v) ? "s" : typeof v === "number" || v instanceof SymNum ? "n" : typeof v === "boolean" || v instanceof SymBool ? "b" : "o");
  if (k(a) === k(b)) return eq(a, b);
  if (k(a) === "o" || k(b) === "o") return eq(toStr(a), toStr(b));
  return N.mkBool(N.numEq(N.toNum(a), N.toNum(b)));
}
const prim = (v) => v === null || (typeof v !== "object" && typeof v !== "function");
function needSym(a, b) {
  return !(prim(a) || !(a instanceof Sym || a.$t !== undefined || Array.isArray(a) || a instanceof Error || a.$sbuf)) || !(prim(b) || !(b instanceof Sym || b.$t !== undefined || Array.isArray(b) || b instanceof Error || b.$sbuf));
}
export function bin(op, a, b) {
  switch (op) {
    case "===": return eq(a, b);
    case "!==": return not(eq(a, b));
    case "==": return looseEq(a, b);
    case "!=": return not(looseEq(a, b));
  }
  if (R && R.ended) throw R.ended;
  if (!needSym(a, b)) {
    switch (op) {
      case "+": return a + b;
      case "-": return a - b;
      case "*": return a * b;
      case "/": return a / b;
      case "%": return a % b;
      case "**": return a ** b;
      case "<": return a < b;
      case ">": return a > b;
      case "<=": return a <= b;
      case ">=": return a >= b;
      case "&": return a & b;
      case "|": return a | b;
      case "^": return a ^ b;
      case "<<": return a << b;
      case ">>": return a >> b;
      case ">>>": return a >>> b;
      case "instanceof": return a instanceof b;
    }
  }
  switch (op) {
    case "+": {
      const x = toPrimAdd(a), y = toPrimAdd(b);
      if (isStr(x) || isStr(y)) return X.concat(toStr(x), toStr(y));
      return N.arith("+", N.toNum(x), N.toNum(y));
    }
    case "<": case ">": case "<=": case ">=": {
      const x = relPrim(a), y = relPrim(b);
      if (isStr(x) && isStr(y)) {
        const lt = op === "<" || op === ">=" ? X.ltStr(x, y) : X.ltStr(y, x);
        return N.mkBool(op === "<" || op === ">" ? lt : T.not(lt));
      }
      return N.mkBool(N.cmp(op, N.toNum(x), N.toNum(y)));
    }
    case "instanceof": return a instanceof b;
    default: return N.arith(op, N.toNum(a), N.toNum(b));
  }
}
function relPrim(v) {
  if (v === null || typeof v !== "object" || v instanceof Sym) return v;
  if (v instanceof Date) return v.$t ?? v.getTime();
  if (Array.isArray(v) || v instanceof Error) return toStr(v);
  const p = v.valueOf();
  return p !== v ? p : toStr(v);
}
export function not(v) {
  if (v instanceof Sym) return N.mkBool(T.not(truthT(v)));
  return !v;
}
export const neg = (v) => (v instanceof Sym || (v && v.$t) ? N.negNum(N.toNum(v)) : -v);
export const plus = (v) => (v instanceof Sym || (v && v.$t) ? N.toNum(v) : +v);
export const bnot = (v) => (v instanceof Sym ? ~N.conc(N.toNum(v)) : ~v);
export function typeOf(v) {
  if (v instanceof SymStr) return "string";
  if (v instanceof SymNum) return "number";
  if (v instanceof SymBool) return "boolean";
  return typeof v;
}
let lastVal;
export const t = (v) => { if (R) { step(); } return truth(v); };
export const and1 = (v) => { if (R) step(); const r = truth(v); lastVal = v; return r; };
export const nn = (v) => { lastVal = v; return v !== null && v !== undefined; };
export const last = () => lastVal;
export const inc = (v, d) => (typeof v === "number" ? v + d : N.arith("+", N.toNum(v), d));
export const post = (old) => (old instanceof Sym ? N.toNum(old) : Number(old));
export function tpl(strs, vals) {
  let sym = false;
  for (const v of vals) if (!prim(v)) { sym = true; break; }
  if (!sym) { let s = strs[0]; for (let i = 0; i < vals.length; i++) s += String(vals[i]) + strs[i + 1]; return s; }
  const parts = [strs[0]];
  for (let i = 0; i < vals.length; i++) parts.push(toStr(vals[i]), strs[i + 1]);
  return X.concat(...parts);
}
export const loop = () => step();

// ---------------------------------------------------------------- properties
const PH = "\uE000";
function placeholder(k) {
  for (const [p, s] of R.symKeys) if (X.eqStr(s, k, true) === T.TRUE) return p;
  const p = PH + R.symKeys.size;
  R.symKeys.set(p, k);
  return p;
}
export const realKey = (k) => (typeof k === "string" && k[0] === PH && R && R.symKeys.has(k) ? R.symKeys.get(k) : k);
// the own property name of o that equals k, forking; undefined if none
function findKey(o, k) {
  if (k instanceof SymNum) k = toStr(k);
  if (!(k instanceof SymStr)) {
    if (typeof k === "symbol" || !R || R.symKeys.size === 0 || Object.hasOwn(o, k)) return k;
    k = String(k);
    for (const p of Object.keys(o)) if (p[0] === PH && R.symKeys.has(p) && decide(X.eqStr(R.symKeys.get(p), k))) return p;
    return k;
  }
  for (const p of Object.keys(o)) if (decide(X.eqStr(realKey(p), k))) return p;
  return undefined;
}
export function get(o, k) {
  if (o instanceof Sym) return symGet(o, k);
  if (k instanceof Sym) {
    if (o === null || o === undefined) throw new TypeError("Cannot read properties of " + o);
    if (typeof o === "string") { const c = X.charAtItem(o, k); return c === undefined ? undefined : X.mkStr([c]); }
    if (Array.isArray(o) && k instanceof SymNum) {
      if (!decide(T.and(N.cmp("<=", 0, k), N.cmp("<", k, o.length), N.isIntegerT(k)))) return undefined;
      return o[N.conc(k)];
    }
    const p = findKey(o, k);
    return p === undefined ? undefined : o[p];
  }
  if (R && R.symKeys.size && o !== null && typeof o === "object" && typeof k === "string" && !Array.isArray(o) && !Object.hasOwn(o, k)) {
    const p = findKey(o, k);
    return o[p];
  }
  return o[k];
}
export function set(o, k, v) {
  if (k instanceof Sym) {
    if (Array.isArray(o)) { o[N.conc(N.toNum(k))] = v; return v; }
    const p = findKey(o, k) ?? placeholder(k instanceof SymStr ? k : toStr(k));
    o[p] = v;
    return v;
  }
  if (R && R.symKeys.size && typeof o === "object" && o !== null && !Array.isArray(o)) k = findKey(o, k);
  if (k === "length" && v instanceof Sym) v = N.conc(v);
  o[k] = v;
  return v;
}
export const ref = (o, k) => ({ o, k, v: get(o, k) });
export const opset = (r, op, v) => set(r.o, r.k, bin(op, r.v, v));
export const incset = (o, k, d, prefix) => { const old = N.toNum(get(o, k)); const nv = inc(old, d); set(o, k, nv); return prefix ? nv : old; };
export function del(o, k) {
  if (k instanceof Sym || (R && R.symKeys.size)) { const p = findKey(o, k); return p === undefined ? true : delete o[p]; }
  return delete o[k];
}
export function has(k, o) {
  if (k instanceof Sym) return findKey(o, k) !== undefined;
  if (R && R.symKeys.size && typeof k === "string") { const p = findKey(o, k); return p in o; }
  return k in o;
}
export function obj(...parts) {
  const r = {};
  for (const p of parts) {
    if (p[0] === "p") Object.defineProperties(r, Object.getOwnPropertyDescriptors(p[1]));
    else if (p[0] === "s") spreadInto(r, p[1]);
    else set(r, p[1], p[2]);
  }
  return r;
}
function spreadInto(r, v) {
  if (v === null || v === undefined || v instanceof SymNum || v instanceof SymBool) return;
  if (v instanceof SymStr) { X.chars(v).forEach((c, i) => { r[i] = X.mkStr([c]); }); return; }
  if (!R || R.symKeys.size === 0) { Object.assign(r, v); return; }
  for (const k of Reflect.ownKeys(Object(v))) if (Object.prototype.propertyIsEnumerable.call(v, k)) set(r, realKey(k), v[k]);
}
export function keysIn(o) { const r = []; for (const k in o) r.push(realKey(k)); return r; }
export function iter(v) {
  if (v instanceof SymStr) return X.chars(v).map((c) => X.mkStr([c]));
  return v;
}
export function caught(e) { if (R && R.ended) throw R.ended; if (e instanceof PathEnd) throw e; return e; }

// ---------------------------------------------------------------- symbolic receivers
function symGet(o, k) {
  if (R.ended) throw R.ended;
  if (o instanceof SymStr) {
    if (k === "length") return X.length(o);
    if (typeof k === "number" || k instanceof SymNum || (typeof k === "string" && /^\d+$/.test(k))) {
      const c = X.charAtItem(o, typeof k === "string" ? Number(k) : k);
      return c === undefined ? undefined : X.mkStr([c]);
    }
    if (k === Symbol.iterator) return () => iter(o)[Symbol.iterator]();
    if (Object.hasOwn(strM, k)) return (...a) => strM[k](o, a);
    if (k in String.prototype && k !== "constructor") throw new Unsupported("String.prototype." + String(k));
    if (k === "constructor") return String;
    return undefined;
  }
  const M = o instanceof SymNum ? numM : boolM;
  if (Object.hasOwn(M, k)) return (...a) => M[k](o, a);
  if (k === "constructor") return o instanceof SymNum ? Number : Boolean;
  if (typeof k === "string" && k in (o instanceof SymNum ? Number : Boolean).prototype) throw new Unsupported("Number/Boolean.prototype." + k);
  return undefined;
}
const rep = (v, a, all) => {
  const [p, r] = a;
  if (p instanceof RegExp) return RX.replace(p, v, typeof r === "function" ? r : toStr(r), all, (f, x) => apply(f, undefined, x), toStr);
  return X.replaceStr(v, toStr(p), r, all, (f, x) => apply(f, undefined, x), toStr);
};
const strM = {
  toString: (s) => s,
  valueOf: (s) => s,
  slice: (s, a) => X.slice(s, a[0], a[1]),
  substring: (s, a) => X.substring(s, a[0], a[1]),
  substr: (s, a) => { const st = X.slice(s, a[0]); return a[1] === undefined ? st : X.slice(st, 0, N.toNum(a[1])); },
  charAt: (s, a) => { const c = X.charAtItem(s, a[0] ?? 0); return c === undefined ? "" : X.mkStr([c]); },
  at: (s, a) => { const i = N.toNum(a[0] ?? 0); const j = typeof i === "number" ? (i < 0 ? N.arith("+", X.length(s), i) : i) : decide(N.cmp("<", i, 0)) ? N.arith("+", X.length(s), i) : i; const c = X.charAtItem(s, j); return c === undefined ? undefined : X.mkStr([c]); },
  charCodeAt: (s, a) => { const c = X.charAtItem(s, a[0] ?? 0); return c === undefined ? NaN : N.mkInt(X.chT(c)); },
  codePointAt: (s, a) => {
    const c = X.charAtItem(s, a[0] ?? 0);
    if (c === undefined) return undefined;
    if (X.chT(c).hi >= 0xd800 && decide(X.inRange(c, 0xd800, 0xdbff))) endPath("model", "surrogate pairs");
    return N.mkInt(X.chT(c));
  },
  indexOf: (s, a) => X.indexOf(s, toStr(a[0]), a[1] ?? 0),
  lastIndexOf: (s, a) => X.lastIndexOf(s, toStr(a[0])),
  includes: (s, a) => N.mkBool(X.includesT(a[1] ? X.slice(s, a[1]) : s, toStr(a[0]))),
  startsWith: (s, a) => N.mkBool(X.startsWithT(s, toStr(a[0]), a[1])),
  endsWith: (s, a) => N.mkBool(X.endsWithT(a[1] === undefined ? s : X.slice(s, 0, a[1]), toStr(a[0]))),
  split: (s, a) => (a[0] instanceof RegExp ? RX.split(a[0], s) : X.split(s, a[0] === undefined ? undefined : toStr(a[0]), a[1])),
  concat: (s, a) => X.concat(s, ...a.map(toStr)),
  trim: (s) => X.trim(s),
  trimStart: (s) => X.trim(s, true, false),
  trimEnd: (s) => X.trim(s, false, true),
  toUpperCase: (s) => X.mapCase(s, true),
  toLowerCase: (s) => X.mapCase(s, false),
  toLocaleUpperCase: (s) => X.mapCase(s, true),
  toLocaleLowerCase: (s) => X.mapCase(s, false),
  replace: (s, a) => rep(s, a, false),
  replaceAll: (s, a) => rep(s, a, true),
  match: (s, a) => RX.match(a[0] instanceof RegExp ? a[0] : new RegExp(concAll(toStr(a[0]), "regular expression")), s),
  matchAll: (s, a) => { const o = []; for (const [, m] of RX.matches(a[0] instanceof RegExp ? a[0] : new RegExp(concAll(toStr(a[0])), "g"), s, true)) o.push(m); return o[Symbol.iterator](); },
  search: (s, a) => { const m = RX.exec(new RegExp(a[0].source, a[0].flags.replace("g", "")), s); return m ? m.index : -1; },
  padStart: (s, a) => pad(s, a, true),
  padEnd: (s, a) => pad(s, a, false),
  repeat: (s, a) => { const n = N.conc(N.toNum(a[0])); let r = ""; for (let i = 0; i < n; i++) r = X.concat(r, s); return r; },
  normalize: (s) => s,
  localeCompare: (s, a) => { const x = concAll(s, "localeCompare"); return x.localeCompare(concAll(toStr(a[0]), "localeCompare")); },
  isWellFormed: () => true,
  hasOwnProperty: () => false,
};
function pad(s, a, start) {
  const n = N.conc(N.toNum(a[0]));
  const f = a[1] === undefined ? " " : concAll(a[1], "pad");
  const l = X.length(s);
  const len = typeof l === "number" ? l : N.conc(l);
  if (len >= n || f === "") return s;
  const p = f.repeat(Math.ceil((n - len) / f.length)).slice(0, n - len);
  return start ? X.concat(p, s) : X.concat(s, p);
}
const numM = {
  toString: (n, a) => { if (a[0] === undefined || a[0] === 10) return X.decStr(n); return N.conc(n).toString(a[0]); },
  valueOf: (n) => n,
  toFixed: (n, a) => {
    const d = a[0] === undefined ? 0 : N.conc(a[0]);
    if (n.t.sort === "Int" && n.den === 1) return d ? X.concat(X.decStr(n), "." + "0".repeat(d)) : X.decStr(n);
    if (n.t.sort === "Int") {
      // round half away from zero on the exact decimal expansion
      const neg = n.t.lo >= 0 ? false : decide(T.lt(n.t, T.int(0)));
      const abs = neg ? T.neg(n.t) : n.t;
      const sc = T.divc(T.add(T.mul(T.int(2 * 10 ** d), abs), T.int(n.den)), 2 * n.den);
      if (d === 0) return X.concat(neg ? "-" : "", X.decStr(N.mkInt(sc)));
      const ip = T.divc(sc, 10 ** d), fp = T.modc(sc, 10 ** d);
      const fr = []; for (let i = d - 1; i >= 0; i--) fr.push(T.add(T.modc(T.divc(fp, 10 ** i), 10), T.int(48)));
      return X.concat(neg ? "-" : "", X.decStr(N.mkInt(ip)), ".", X.mkStr(fr));
    }
    return X.numText("fix" + d, n);
  },
  toPrecision: (n, a) => (a[0] === undefined ? X.decStr(n) : X.numText("prec" + N.conc(a[0]), n)),
  toLocaleString: (n, a) => N.conc(n).toLocaleString(...a),
  hasOwnProperty: () => false,
};
const boolM = { toString: (b) => toStr(b), valueOf: (b) => b };

// ---------------------------------------------------------------- calls
const nat = new WeakMap();
export function isNative(f) {
  let r = nat.get(f);
  if (r === undefined) {
    r = nativeFns.has(f) || /\{\s*\[native code\]\s*\}\s*$/.test(Function.prototype.toString.call(f));
    nat.set(f, r);
  }
  return r;
}
export const markPlain = (f) => { nat.set(f, false); return f; };
export function apply(f, self, args) {
  if (R) step();
  const m = models.get(f);
  if (m) { const r = m(self, args); if (r !== NATIVE) return r; }
  if (typeof f !== "function") throw new TypeError((typeof f === "object" ? "object" : toStrSafe(f)) + " is not a function");
  // the functions that settle a promise have no name and take one value: it goes through as it is
  if (R && isNative(f) && !safe.has(f) && !(f.name === "" && f.length === 1)) {
    if (args.some((a) => deepHasSym(a)) || (self instanceof Sym)) args = args.map((a) => concAll(a, "argument of native " + (f.name || "function")));
  }
  return Reflect.apply(f, self, args);
}
const toStrSafe = (v) => { try { return v instanceof Sym ? "symbolic value" : String(v); } catch { return "value"; } };
export const call = (f, args) => apply(f, undefined, args);
export function callm(o, k, args) {
  if (o instanceof Sym) {
    const f = symGet(o, k);
    if (f === undefined) throw new TypeError(String(k) + " is not a function");
    step();
    return f(...args);
  }
  if (o === null || o === undefined) throw new TypeError(`Cannot read properties of ${o} (reading '${String(toStrSafe(k))}')`);
  const f = get(o, k);
  if (typeof f !== "function") throw new TypeError(`${toStrSafe(k)} is not a function`);
  return apply(f, o, args);
}
export function construct(C, args) {
  if (R) step();
  const m = newModels.get(C);
  if (m) { const r = m(args); if (r !== NATIVE) return r; }
  if (typeof C !== "function") throw new TypeError("not a constructor");
  if (R && isNative(C) && !safe.has(C) && args.some((a) => deepHasSym(a))) args = args.map((a) => concAll(a, "argument of new " + C.name));
  return Reflect.construct(C, args);
}
const newModels = new Map();
const symErrors = new Map();
// a class to extend: Error subclasses may be given a symbolic message
export function base(C) {
  if (C === Error || C === TypeError || C === RangeError || C === SyntaxError) {
    let S = symErrors.get(C);
    if (!S) {
      S = class extends C {
        constructor(msg, opt) {
          super(msg instanceof Sym ? "" : msg, opt);
          if (msg instanceof Sym) { void this.stack; Object.defineProperty(this, "message", { value: toStr(msg), writable: true, configurable: true, enumerable: false }); }
        }
      };
      Object.defineProperty(S, "name", { value: C.name });
      symErrors.set(C, S);
    }
    return S;
  }
  return C;
}
for (const C of [Error, TypeError, RangeError, SyntaxError]) {
  newModels.set(C, (args) => (args[0] instanceof Sym ? Reflect.construct(base(C), args) : NATIVE));
  models.set(C, (self, args) => (args[0] instanceof Sym ? Reflect.construct(base(C), args) : NATIVE));
}
safe.add(Error); safe.add(Promise); safe.add(Array); safe.add(Proxy); safe.add(AggregateError);
newModels.set(Array, (a) => (a.length === 1 && a[0] instanceof SymNum ? new Array(N.conc(a[0])) : NATIVE));
newModels.set(RegExp, (a) => NATIVE);
newModels.set(Set, (a) => new SSet(a[0])); newModels.set(Map, (a) => new SMap(a[0]));

// ---------------------------------------------------------------- Map and Set with symbolic members
export class SMap extends Map {
  static [Symbol.hasInstance](x) { return Function.prototype[Symbol.hasInstance].call(Map, x); }
  constructor(it) { super(); if (it != null) for (const [k, v] of iter(it)) this.set(k, v); }
  $find(k) {
    if (!(k instanceof Sym) && !this.$sym) return k;
    if (!(k instanceof Sym) && super.has(k)) return k;
    for (const q of super.keys()) if ((q instanceof Sym || k instanceof Sym) && decide(eqT(q, k))) return q;
    return k;
  }
  get(k) { return super.get(this.$find(k)); }
  has(k) { return super.has(this.$find(k)); }
  set(k, v) { const q = this.$find(k); if (q instanceof Sym) this.$sym = true; return super.set(q, v); }
  delete(k) { return super.delete(this.$find(k)); }
}
Object.defineProperty(SMap.prototype, "$sym", { value: false, writable: true, enumerable: false });
export class SSet extends Set {
  static [Symbol.hasInstance](x) { return Function.prototype[Symbol.hasInstance].call(Set, x); }
  constructor(it) { super(); if (it != null) for (const v of iter(it)) this.add(v); }
  $find(k) {
    if (!(k instanceof Sym) && !this.$sym) return k;
    if (!(k instanceof Sym) && super.has(k)) return k;
    for (const q of super.keys()) if ((q instanceof Sym || k instanceof Sym) && decide(eqT(q, k))) return q;
    return k;
  }
  has(k) { return super.has(this.$find(k)); }
  add(k) { const q = this.$find(k); if (q instanceof Sym) this.$sym = true; return super.add(q); }
  delete(k) { return super.delete(this.$find(k)); }
}
Object.defineProperty(SSet.prototype, "$sym", { value: false, writable: true, enumerable: false });
for (const C of [SMap, SSet]) for (const k of Object.getOwnPropertyNames(C.prototype)) if (typeof C.prototype[k] === "function") safe.add(C.prototype[k]);
for (const C of [Map, Set, WeakMap, WeakSet]) for (const k of Object.getOwnPropertyNames(C.prototype)) { const d = Object.getOwnPropertyDescriptor(C.prototype, k); if (typeof d.value === "function") safe.add(d.value); }
safe.add(SMap); safe.add(SSet);

// ---------------------------------------------------------------- arrays
const A = Array.prototype;
const M = (f, m) => models.set(f, m);
const cb = (f, th, ...a) => apply(f, th, a);
const chk = (f) => { if (typeof f !== "function") throw new TypeError("callback is not a function"); };
const arrOnly = (m) => (self, a) => (Array.isArray(self) ? m(self, a) : NATIVE);
M(A.map, arrOnly((s, [f, th]) => { chk(f); const r = new Array(s.length); for (let i = 0; i < s.length; i++) if (i in s) r[i] = cb(f, th, s[i], i, s); return r; }));
M(A.forEach, arrOnly((s, [f, th]) => { chk(f); for (let i = 0; i < s.length; i++) if (i in s) cb(f, th, s[i], i, s); }));
M(A.filter, arrOnly((s, [f, th]) => { chk(f); const r = []; for (let i = 0; i < s.length; i++) if (i in s && truth(cb(f, th, s[i], i, s))) r.push(s[i]); return r; }));
M(A.find, arrOnly((s, [f, th]) => { chk(f); for (let i = 0; i < s.length; i++) if (truth(cb(f, th, s[i], i, s))) return s[i]; }));
M(A.findIndex, arrOnly((s, [f, th]) => { chk(f); for (let i = 0; i < s.length; i++) if (truth(cb(f, th, s[i], i, s))) return i; return -1; }));
M(A.findLast, arrOnly((s, [f, th]) => { chk(f); for (let i = s.length - 1; i >= 0; i--) if (truth(cb(f, th, s[i], i, s))) return s[i]; }));
M(A.findLastIndex, arrOnly((s, [f, th]) => { chk(f); for (let i = s.length - 1; i >= 0; i--) if (truth(cb(f, th, s[i], i, s))) return i; return -1; }));
M(A.some, arrOnly((s, [f, th]) => { chk(f); for (let i = 0; i < s.length; i++) if (i in s && truth(cb(f, th, s[i], i, s))) return true; return false; }));
M(A.every, arrOnly((s, [f, th]) => { chk(f); for (let i = 0; i < s.length; i++) if (i in s && !truth(cb(f, th, s[i], i, s))) return false; return true; }));
M(A.flatMap, arrOnly((s, [f, th]) => { chk(f); const r = []; for (let i = 0; i < s.length; i++) { const v = cb(f, th, s[i], i, s); if (Array.isArray(v)) r.push(...v); else r.push(v); } return r; }));
M(A.reduce, arrOnly((s, a) => {
  chk(a[0]);
  let i = 0, acc;
  if (a.length > 1) acc = a[1]; else { if (!s.length) throw new TypeError("Reduce of empty array with no initial value"); acc = s[i++]; }
  for (; i < s.length; i++) acc = cb(a[0], undefined, acc, s[i], i, s);
  return acc;
}));
M(A.reduceRight, arrOnly((s, a) => {
  let i = s.length - 1, acc;
  if (a.length > 1) acc = a[1]; else { if (!s.length) throw new TypeError("Reduce of empty array with no initial value"); acc = s[i--]; }
  for (; i >= 0; i--) acc = cb(a[0], undefined, acc, s[i], i, s);
  return acc;
}));
const symAmong = (s, v) => v instanceof Sym || s.some((x) => x instanceof Sym);
M(A.includes, (s, [v, from]) => {
  if (!Array.isArray(s)) return NATIVE;
  if (!symAmong(s, v)) return A.includes.call(s, v, from instanceof Sym ? N.conc(N.toNum(from)) : from);
  const r = [];
  for (let i = from ?? 0; i < s.length; i++) r.push(T.or(eqT(s[i], v), v !== v && s[i] instanceof SymNum ? N.isNaNT(s[i]) : T.FALSE));
  return N.mkBool(T.or(...r));
});
M(A.indexOf, (s, [v, from]) => {
  if (!Array.isArray(s)) return NATIVE;
  if (!symAmong(s, v)) return A.indexOf.call(s, v, from instanceof Sym ? N.conc(N.toNum(from)) : from);
  let r = T.int(-1);
  for (let i = s.length - 1; i >= (from ?? 0); i--) r = T.ite(eqT(s[i], v), T.int(i), r);
  return N.mkInt(r);
});
M(A.lastIndexOf, (s, [v, ...rest]) => {
  if (!Array.isArray(s)) return NATIVE;
  if (!symAmong(s, v)) return A.lastIndexOf.call(s, v, ...rest);
  let r = T.int(-1);
  for (let i = 0; i < s.length; i++) r = T.ite(eqT(s[i], v), T.int(i), r);
  return N.mkInt(r);
});
function joinArr(s, sep) {
  const parts = [];
  for (let i = 0; i < s.length; i++) { if (i) parts.push(sep); parts.push(s[i] === null || s[i] === undefined ? "" : toStr(s[i])); }
  return X.concat(...parts);
}
M(A.join, (s, [sep]) => (!Array.isArray(s) ? NATIVE : joinArr(s, sep === undefined ? "," : toStr(sep))));
M(A.toString, (s) => (!Array.isArray(s) ? NATIVE : joinArr(s, ",")));
function sortArr(s, f) {
  const und = s.filter((x) => x === undefined).length;
  const xs = s.filter((x) => x !== undefined);
  // a positive comparison means the pivot belongs after
  const less = f
    ? (a, b) => { const c = cb(f, undefined, a, b); const n = typeof c === "number" || c instanceof SymNum ? c : N.toNum(c); return typeof n === "number" ? n < 0 : decide(N.cmp("<", n, 0)); }
    : (a, b) => { const x = toStr(a), y = toStr(b); return typeof x === "string" && typeof y === "string" ? x < y : decide(X.ltStr(x, y)); };
  // binary insertion, as V8 does for short arrays (n < 32)
  for (let i = 1; i < xs.length; i++) {
    const p = xs[i];
    let l = 0, r = i;
    while (l < r) { const m = l + ((r - l) >> 1); if (less(p, xs[m])) r = m; else l = m + 1; }
    for (let j = i; j > l; j--) xs[j] = xs[j - 1];
    xs[l] = p;
  }
  for (let i = 0; i < und; i++) xs.push(undefined);
  return xs;
}
M(A.sort, arrOnly((s, [f]) => { const r = sortArr([...s], f); for (let i = 0; i < r.length; i++) s[i] = r[i]; return s; }));
M(A.toSorted, arrOnly((s, [f]) => sortArr([...s], f)));
for (const k of ["push", "unshift", "pop", "shift", "concat", "reverse", "flat", "keys", "values", "entries", "toReversed", "copyWithin"]) safe.add(A[k]);
const idx = (f, keep) => M(f, (s, a) => {
  if (!Array.isArray(s)) return NATIVE;
  const b = a.map((v, i) => (keep(i) ? v : v instanceof Sym ? N.conc(N.toNum(v)) : v));
  return Reflect.apply(f, s, b);
});
idx(A.slice, () => false); idx(A.splice, (i) => i >= 2); idx(A.at, () => false); idx(A.fill, (i) => i === 0); idx(A.with, (i) => i === 1); idx(A.toSpliced, (i) => i >= 2);
M(Array.from, (self, [src, f]) => {
  let xs;
  if (src instanceof SymStr) xs = iter(src);
  else if (src && typeof src === "object" && !(Symbol.iterator in src) && src.length instanceof SymNum) xs = Array.from({ length: N.conc(src.length) });
  else xs = Array.from(src);
  return f ? xs.map((v, i) => cb(f, undefined, v, i)) : xs;
});
safe.add(Array.of); safe.add(Array.isArray); safe.add(ArrayBuffer.isView);

// ---------------------------------------------------------------- Object, Reflect, Function, Promise
for (const k of ["create", "freeze", "isFrozen", "seal", "defineProperty", "defineProperties", "getPrototypeOf", "setPrototypeOf", "getOwnPropertyNames", "getOwnPropertyDescriptor", "getOwnPropertyDescriptors", "getOwnPropertySymbols", "preventExtensions", "isExtensible"]) safe.add(Object[k]);
for (const k of Reflect.ownKeys(Reflect)) if (typeof Reflect[k] === "function") safe.add(Reflect[k]);
for (const C of [Promise]) { for (const k of ["resolve", "reject", "all", "allSettled", "race", "any"]) safe.add(C[k]); for (const k of ["then", "catch", "finally"]) safe.add(C.prototype[k]); }
const phys = () => R && R.symKeys.size > 0;
M(Object.keys, (s, [o]) => (o instanceof SymStr ? X.chars(o).map((_, i) => String(i)) : o instanceof Sym ? [] : phys() ? Object.keys(o).map(realKey) : Object.keys(o)));
M(Object.entries, (s, [o]) => (o instanceof SymStr ? X.chars(o).map((c, i) => [String(i), X.mkStr([c])]) : o instanceof Sym ? [] : phys() ? Object.entries(o).map(([k, v]) => [realKey(k), v]) : Object.entries(o)));
safe.add(Object.values);
M(Object.values, (s, [o]) => (o instanceof SymStr ? iter(o) : NATIVE));
M(Object.fromEntries, (s, [it]) => { const r = {}; for (const [k, v] of it) set(r, k, v); return r; });
M(Object.assign, (s, [o, ...xs]) => { for (const x of xs) spreadInto(o, x); return o; });
M(Object.hasOwn, (s, [o, k]) => { if (k instanceof Sym) return findKey(o, k) !== undefined; return phys() ? Object.hasOwn(o, findKey(o, k)) : Object.hasOwn(o, k); });
M(Object.prototype.hasOwnProperty, (s, [k]) => { if (s instanceof Sym) return false; if (k instanceof Sym) return findKey(s, k) !== undefined; return phys() ? Object.hasOwn(s, findKey(s, k)) : Object.hasOwn(s, k); });
M(Object.is, (s, [a, b]) => (a instanceof Sym || b instanceof Sym ? (a instanceof SymNum && b instanceof SymNum && a.t.sort === "FP" ? N.mkBool(T.fpsame(N.fpTerm(a), N.fpTerm(b))) : eq(a, b)) : Object.is(a, b)));
safe.add(Object);
M(Object.prototype.toString, (s) => (s instanceof SymStr ? "[object String]" : s instanceof SymNum ? "[object Number]" : s instanceof SymBool ? "[object Boolean]" : Object.prototype.toString.call(s)));
M(Function.prototype.call, (f, [self, ...a]) => apply(f, self, a));
M(Function.prototype.apply, (f, [self, a]) => apply(f, self, a ? [...a] : []));
M(Function.prototype.bind, (f, [self, ...a]) => { if (!R) return NATIVE; const g = function (...b) { return new.target ? construct(f, [...a, ...b]) : apply(f, self, [...a, ...b]); }; return g; });
M(Reflect.apply, (s, [f, self, a]) => apply(f, self, [...a]));
M(Reflect.get, (s, a) => (a.length === 2 ? get(a[0], a[1]) : NATIVE));
M(structuredClone, (s, [v]) => (deepHasSym(v) ? cloneDeep(v) : NATIVE));
function cloneDeep(v) {
  if (v === null || typeof v !== "object" || v instanceof Sym) return v;
  if (Array.isArray(v)) return v.map(cloneDeep);
  if (v instanceof Date) return v.$t !== undefined ? Reflect.construct(v.constructor, [v.$t]) : new v.constructor(v.getTime());
  if (v instanceof Map) return new SMap([...v].map(([a, b]) => [cloneDeep(a), cloneDeep(b)]));
  if (v instanceof Set) return new SSet([...v].map(cloneDeep));
  const o = {};
  for (const k of Object.keys(v)) o[k] = cloneDeep(v[k]);
  return o;
}

// ---------------------------------------------------------------- String, Number, Math, globals
for (const k of Object.getOwnPropertyNames(String.prototype)) {
  const f = String.prototype[k];
  if (typeof f !== "function" || k === "constructor") continue;
  if (Object.hasOwn(strM, k)) {
    M(f, (s, a) => {
      if (s instanceof SymStr || (isStr(s) && a.some((v) => v instanceof Sym))) return strM[k](s, a);
      if (isStr(s) && (k === "replace" || k === "replaceAll") && typeof a[1] === "function") return rep(s, a, k === "replaceAll");
      if (k === "concat" && a.some((v) => v && typeof v === "object")) return strM.concat(s, a);
      return NATIVE;
    });
  }
}
M(String, (s, a) => (a.length === 0 ? "" : toStr(a[0])));
M(Number, (s, a) => (a.length === 0 ? 0 : N.toNum(a[0])));
M(Boolean, (s, a) => (a[0] instanceof Sym ? N.mkBool(truthT(a[0])) : !!a[0]));
M(BigInt, (s, a) => NATIVE);
M(String.fromCharCode, (s, a) => (a.some((x) => x instanceof Sym) ? X.mkStr(a.map((x) => (x instanceof SymNum ? x.t : x))) : NATIVE));
const numArg = (f) => (s, a) => (a[0] instanceof Sym || (a[0] && a[0].$t) ? f(a[0], a) : NATIVE);
M(parseInt, numArg((v, a) => X.parseIntStr(toStr(v), a[1])));
M(Number.parseInt, models.get(parseInt));
M(parseFloat, numArg((v) => X.parseFloatStr(toStr(v))));
M(isNaN, numArg((v) => N.mkBool(N.isNaNT(N.toNum(v)))));
M(isFinite, numArg((v) => N.mkBool(N.isFiniteT(N.toNum(v)))));
M(Number.isNaN, numArg((v) => (v instanceof SymNum ? N.mkBool(N.isNaNT(v)) : false)));
M(Number.isFinite, numArg((v) => (v instanceof SymNum ? N.mkBool(N.isFiniteT(v)) : false)));
M(Number.isInteger, numArg((v) => (v instanceof SymNum ? N.mkBool(N.isIntegerT(v)) : false)));
M(Number.isSafeInteger, numArg((v) => (v instanceof SymNum ? N.mkBool(T.and(N.isIntegerT(v), N.cmp("<=", N.absNum(v), Number.MAX_SAFE_INTEGER))) : false)));
for (const [k, f] of [["floor", N.floorNum], ["ceil", N.ceilNum], ["trunc", N.truncNum], ["round", N.roundNum], ["abs", N.absNum]]) M(Math[k], numArg((v) => f(N.toNum(v))));
M(Math.sign, numArg((v) => { const n = N.toNum(v); if (n.t.sort !== "Int") return Math.sign(N.conc(n)); return N.mkInt(T.ite(T.le(T.int(1), n.t), T.int(1), T.ite(T.eq(n.t, T.int(0)), T.int(0), T.int(-1)))); }));
M(Math.max, (s, a) => (a.some((x) => x instanceof Sym || (x && x.$t)) ? N.minmax(true, a) : NATIVE));
M(Math.min, (s, a) => (a.some((x) => x instanceof Sym || (x && x.$t)) ? N.minmax(false, a) : NATIVE));
M(Math.pow, (s, [a, b]) => (a instanceof Sym || b instanceof Sym ? bin("**", a, b) : NATIVE));
M(Math.sqrt, numArg((v) => N.mkFP(T.fpsqrt(N.fpTerm(N.toNum(v))))));
for (const k of ["sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "log2", "cbrt"]) M(Math[k], numArg((v) => { flag("uninterpreted: Math." + k); return N.mkFP(T.uf("Math." + k, [N.fpTerm(N.toNum(v))])); }));
M(Math.atan2, (s, [a, b]) => (a instanceof Sym || b instanceof Sym ? (flag("uninterpreted: Math.atan2"), N.mkFP(T.uf("Math.atan2", [N.fpTerm(N.toNum(a)), N.fpTerm(N.toNum(b))]))) : NATIVE));
M(RegExp.prototype.test, (re, a) => { if (!(a[0] instanceof Sym)) return NATIVE; const r = RX.test(re, toStr(a[0])); return r === true || r === false ? r : N.mkBool(r); });
M(RegExp.prototype.exec, (re, a) => (a[0] instanceof Sym ? RX.exec(re, toStr(a[0])) : NATIVE));
for (const k of ["encodeURIComponent", "encodeURI", "decodeURIComponent", "decodeURI", "escape", "unescape"]) M(globalThis[k], (s, a) => {
  if (!(a[0] instanceof Sym)) return NATIVE;
  const v = toStr(a[0]);
  const cs = X.expandSome(v);
  const enc = k.startsWith("enc");
  const out = [];
  const pass = enc ? [[48, 57], [65, 90], [97, 122], [45, 46], [95, 95], [126, 126], [33, 33], [39, 42], ...(k === "encodeURI" ? [[35, 36], [38, 44], [47, 47], [58, 59], [61, 61], [63, 64]] : [])] : undefined;
  for (const c of cs) {
    if (c instanceof Opq) {
      const al = c.o.kind === "b64" ? "+" : c.o.alphabet;
      if (al && globalThis[k](al) === al) { out.push(c); continue; }
      throw new Unsupported(k + " of opaque text");
    }
    if (enc) { if (decide(RX.inClass(c, pass))) out.push(c); else { const x = typeof c === "number" ? c : concretize(c, k); out.push(...X.codes(globalThis[k](String.fromCharCode(x)))); } }
    else if (decide(T.eq(X.chT(c), T.int(37)))) return globalThis[k](concAll(v, k));
    else out.push(c);
  }
  return X.mkStr(out);
});
M(Error.prototype.toString, (s) => errStr(s));
safe.add(Error.captureStackTrace);
safe.add(queueMicrotask); safe.add(process.nextTick);

// ---------------------------------------------------------------- JSON
function jsonSer(holder, key, v, rf, allow, gap, ind, seen) {
  step();
  if (v !== null && typeof v === "object" && !(v instanceof Sym)) {
    if (v.$t !== undefined) v = apply(v.toJSON, v, [key]);
    else if (typeof v.toJSON === "function") v = apply(v.toJSON, v, [key]);
  }
  if (rf) v = apply(rf, holder, [realKey(key), v]);
  if (v === null) return "null";
  if (v instanceof SymBool) return decide(v.t) ? "true" : "false";
  if (v instanceof SymNum) { if (v.t.sort === "FP") { if (!decide(N.isFiniteT(v))) return "null"; } return X.decStr(v); }
  if (isStr(v)) return X.jsonQuote(v);
  switch (typeof v) {
    case "boolean": return String(v);
    case "number": return Number.isFinite(v) ? String(v) : "null";
    case "bigint": throw new TypeError("Do not know how to serialize a BigInt");
    case "undefined": case "function": case "symbol": return undefined;
  }
  if (v instanceof Number || v instanceof String || v instanceof Boolean) return JSON.stringify(v);
  if (seen.includes(v)) throw new TypeError("Converting circular structure to JSON");
  seen = seen.concat([v]);
  const ind2 = ind + gap;
  const parts = [];
  const arr = Array.isArray(v);
  if (arr) for (let i = 0; i < v.length; i++) parts.push(jsonSer(v, String(i), v[i], rf, allow, gap, ind2, seen) ?? "null");
  else {
    const keys = allow ?? Object.keys(v);
    for (const k of keys) {
      const x = jsonSer(v, k, allow ? get(v, k) : v[k], rf, allow, gap, ind2, seen);
      if (x === undefined) continue;
      parts.push(X.concat(X.jsonQuote(realKey(k)), gap ? ": " : ":", x));
    }
  }
  const [o, c] = arr ? ["[", "]"] : ["{", "}"];
  if (!parts.length) return o + c;
  const out = [o];
  parts.forEach((p, i) => { if (i) out.push(","); if (gap) out.push("\n" + ind2); out.push(p); });
  if (gap) out.push("\n" + ind);
  out.push(c);
  return X.concat(...out);
}
M(JSON.stringify, (s, [v, r, sp]) => {
  if (!R || (!deepHasSym(v) && typeof r !== "function")) return NATIVE;
  let gap = "";
  if (typeof sp === "number") gap = " ".repeat(Math.min(10, sp)); else if (typeof sp === "string") gap = sp.slice(0, 10);
  return jsonSer({ "": v }, "", v, typeof r === "function" ? r : undefined, Array.isArray(r) ? r.map(String) : undefined, gap, "", []);
});
function jsonParse(text) {
  let cs = text.cs.slice();
  let i = 0;
  const bad = () => { throw new SyntaxError("Unexpected token in JSON at position " + i); };
  const is = (k) => { const c = cs[i]; if (c === undefined || c instanceof Opq) return false; return decide(T.eq(X.chT(c), T.int(k))); };
  const isR = (rs) => { const c = cs[i]; if (c === undefined || c instanceof Opq) return false; return decide(RX.inClass(c, rs)); };
  const ws = () => { while (isR([[32, 32], [9, 10], [13, 13]])) i++; };
  const lit = (w, v) => { for (const ch of X.codes(w)) { if (!is(ch)) bad(); i++; } return v; };
  const str = () => {
    const c = cs[i];
    if (c instanceof Opq && c.o.kind === "jsonq" && c.n === c.o.len) { i++; return c.o.data; }
    if (!is(34)) bad();
    i++;
    const out = [];
    for (;;) {
      step();
      const c = cs[i];
      if (c === undefined) bad();
      if (c instanceof Opq) {
        if (["dec", "iso", "b64"].includes(c.o.kind) || c.o.num || (c.o.alphabet && JSON.stringify(c.o.alphabet).length === c.o.alphabet.length + 2)) { out.push(c); i++; continue; }
        throw new Unsupported("JSON.parse of opaque text");
      }
      if (is(34)) { i++; return X.mkStr(out); }
      if (is(92)) {
        i++;
        if (is(117)) {
          const h = cs.slice(i + 1, i + 5).map((x) => String.fromCharCode(typeof x === "number" ? x : concretize(x, "\\u escape"))).join("");
          if (!/^[0-9a-fA-F]{4}$/.test(h)) bad();
          out.push(parseInt(h, 16)); i += 5;
          continue;
        }
        let ok = false;
        for (const [k, v] of [[34, 34], [92, 92], [47, 47], [98, 8], [102, 12], [110, 10], [114, 13], [116, 9]]) if (is(k)) { out.push(v); i++; ok = true; break; }
        if (!ok) bad();
        continue;
      }
      if (isR([[0, 31]])) bad();
      out.push(c); i++;
    }
  };
  const val = () => {
    step();
    ws();
    const c = cs[i];
    if (c === undefined) bad();
    if (c instanceof Opq) {
      if (c.o.kind === "jsonq") return str();
      const nx = cs[i + 1];
      if ((c.o.kind === "dec" || c.o.kind === "num") && c.n === c.o.len && (nx === undefined || nx === 44 || nx === 125 || nx === 93 || nx === 10 || nx === 32)) { i++; return c.o.data; }
      if (c.o.alphabet && /^[a-z]+$/i.test(c.o.alphabet) && !/[tfn]/.test(c.o.alphabet) && c.n.lo > 0) bad();
      throw new Unsupported("JSON.parse of opaque text");
    }
    if (is(123)) {
      i++;
      const o = {};
      ws();
      if (is(125)) { i++; return o; }
      for (;;) {
        ws();
        const k = str();
        ws();
        if (!is(58)) bad();
        i++;
        set(o, k, val());
        ws();
        if (is(44)) { i++; continue; }
        if (is(125)) { i++; return o; }
        bad();
      }
    }
    if (is(91)) {
      i++;
      const a = [];
      ws();
      if (is(93)) { i++; return a; }
      for (;;) {
        a.push(val());
        ws();
        if (is(44)) { i++; continue; }
        if (is(93)) { i++; return a; }
        bad();
      }
    }
    if (is(34)) return str();
    if (is(116)) return lit("true", true);
    if (is(102)) return lit("false", false);
    if (is(110)) return lit("null", null);
    // number
    const st = i;
    if (is(45)) i++;
    if (is(48)) i++; else { if (!isR([[49, 57]])) bad(); while (isR([[48, 57]])) i++; }
    if (is(46)) { i++; if (!isR([[48, 57]])) bad(); while (isR([[48, 57]])) i++; }
    if (is(101) || is(69)) { i++; if (is(43) || is(45)) i++; if (!isR([[48, 57]])) bad(); while (isR([[48, 57]])) i++; }
    const s = X.mkStr(cs.slice(st, i));
    return typeof s === "string" ? Number(s) : X.strToNumber(s);
  };
  const r = val();
  ws();
  if (i < cs.length) bad();
  return r;
}
function revive(holder, key, f) {
  const v = holder[key];
  if (v && typeof v === "object" && !(v instanceof Sym)) for (const k of Object.keys(v)) { const r = revive(v, k, f); if (r === undefined) delete v[k]; else v[k] = r; }
  return apply(f, holder, [realKey(key), v]);
}
M(JSON.parse, (s, [v, f]) => {
  if (!(v instanceof Sym)) { if (v && v.$sbuf) v = v.toString(); else return f && R ? revive({ "": JSON.parse(v) }, "", f) : NATIVE; }
  if (!(v instanceof SymStr)) v = toStr(v);
  const r = typeof v === "string" ? JSON.parse(v) : jsonParse(v);
  return f ? revive({ "": r }, "", f) : r;
});

// ---------------------------------------------------------------- Buffer
export function byteLenT(v) {
  let t = T.int(0);
  for (const c of X.items(v)) {
    if (c instanceof Opq) {
      const w = c.o.alphabet ? [...new Set([...c.o.alphabet].map((k) => Buffer.byteLength(k) / k.length))] : ["dec", "iso", "b64", "etag", "hash", "num"].includes(c.o.kind) || /^(prec|fix)\d+$/.test(c.o.kind) ? [1] : [];
      if (w.length === 1 && Number.isInteger(w[0])) { t = T.add(t, T.mul(T.int(w[0]), c.n)); continue; }
      if (c.o.kind === "jsonq") { t = T.add(t, T.add(byteLenT(c.o.data), T.sub(c.o.len, X.lenT(c.o.data)))); continue; }
      throw new Unsupported("byte length of opaque text");
    }
    if (typeof c === "number" && c < 128) t = T.add(t, T.int(1));
    else { const q = X.chT(c); if (q.hi >= 0xd800 && decide(X.inRange(c, 0xd800, 0xdfff))) endPath("model", "surrogates in byte length"); t = T.add(t, T.ite(T.le(q, T.int(127)), T.int(1), T.ite(T.le(q, T.int(2047)), T.int(2), T.int(3)))); }
  }
  return t;
}
export class SBuf {
  // kind: "text" (UTF-8 of str) or a derived byte string named by `kind` of `data`
  constructor(kind, data, len) { this.$sbuf = true; this.kind = kind; this.data = data; this.len = len; }
  get length() { return N.mkInt(this.len ?? byteLenT(this.data)); }
  get byteLength() { return this.length; }
  toString(enc) {
    enc = enc === undefined ? "utf8" : enc;
    if (enc === "base64" || enc === "base64url") { const n = this.len ?? byteLenT(this.data); return X.derived("b64", this.kind === "text" ? this.data : [this.kind, this.data], n ? T.mul(T.int(4), T.divc(T.add(n, T.int(2)), 3)) : undefined); }
    if (enc === "utf8" || enc === "utf-8") { if (this.kind === "text") return this.data; return X.derived("text-of-" + this.kind, this.data); }
    if (enc === "ascii" || enc === "latin1" || enc === "binary") { if (this.kind === "text" && X.expandSome(this.data).every((c) => (c instanceof Opq ? true : X.chT(c).hi < 128))) return this.data; }
    if (enc === "hex") return X.derived("hex", [this.kind, this.data]);
    throw new Unsupported("Buffer.toString " + String(enc));
  }
}
export const SBuffer = new Proxy(Buffer, {
  get(t0, k) {
    if (k === "from") return (v, enc, ...rest) => {
      if (v instanceof SymStr) {
        if (enc === undefined || enc === "utf8" || enc === "utf-8" || enc === "ascii" || enc === "latin1" || enc === "binary") return new SBuf("text", v);
        if (enc === "base64" || enc === "base64url") {
          const c = v.cs;
          if (c.length === 1 && c[0] instanceof Opq && c[0].o.kind === "b64" && c[0].n === c[0].o.len) { const d = c[0].o.data; return Array.isArray(d) ? new SBuf(d[0], d[1]) : new SBuf("text", d); }
          return new SBuf("b64dec", v, T.divc(T.mul(T.int(3), X.lenT(v)), 4));
        }
        throw new Unsupported("Buffer.from " + String(enc));
      }
      if (v && v.$sbuf) return v;
      return Buffer.from(v, enc, ...rest);
    };
    if (k === "byteLength") return (v, enc) => (v instanceof SymStr ? N.mkInt(byteLenT(v)) : v && v.$sbuf ? v.length : Buffer.byteLength(v, enc));
    if (k === "concat") return (xs, n) => {
      if (!xs.some((x) => x && x.$sbuf)) return Buffer.concat(xs, n);
      if (xs.length === 1) return xs[0];
      return new SBuf("text", X.concat(...xs.map((x) => (x.$sbuf ? x.toString() : x.toString("utf8")))));
    };
    if (k === "isBuffer") return (v) => !!(v && v.$sbuf) || Buffer.isBuffer(v);
    return Reflect.get(t0, k);
  },
});
models.set(Buffer, undefined); models.delete(Buffer);

// ---------------------------------------------------------------- Date
export function makeDate(clock) {
  const ints = (f) => function () { return this.$t instanceof Sym ? N.mkInt(X.civil(this.$ms())[f]) : undefined; };
  class SDate extends Date {
    static [Symbol.hasInstance](x) { return Function.prototype[Symbol.hasInstance].call(Date, x); }
    constructor(...a) {
      let v;
      let sym = false;
      if (a.length === 0) { v = clock.now(); sym = v instanceof Sym; }
      else if (a.length === 1) {
        const x = a[0];
        if (x instanceof SymStr) { v = parseDate(x); sym = v instanceof Sym; }
        else if (x instanceof Sym) { v = N.truncNum(N.toNum(x)); sym = true; }
        else if (x instanceof Date && x.$t instanceof Sym) { v = x.$t; sym = true; }
        else v = undefined;
      } else if (a.some((x) => x instanceof Sym)) { v = SDate.UTC(...a); sym = v instanceof Sym; }
      if (sym) super(0); else if (a.length === 0 || v !== undefined) super(v); else super(...a);
      if (sym) Object.defineProperty(this, "$t", { value: v, writable: true, enumerable: false, configurable: true });
    }
    static now() { return clock.now(); }
    static parse(s) { return s instanceof SymStr ? parseDate(s) : Date.parse(s); }
    static UTC(...a) {
      if (!a.some((x) => x instanceof Sym)) return Date.UTC(...a);
      const ym = a.slice(0, 2).map((x) => (x instanceof Sym ? N.conc(N.toNum(x)) : x));
      let r = Date.UTC(ym[0], ym[1] ?? 0, 1);
      const mult = [86400000, 3600000, 60000, 1000, 1];
      a.slice(2).forEach((x, i) => { r = N.arith("+", r, N.arith("*", i === 0 ? N.arith("-", N.toNum(x), 1) : N.toNum(x), mult[i])); });
      return r;
    }
    $ms() { return this.$t.t; }
    getTime() { return this.$t ?? super.getTime(); }
    valueOf() { return this.$t ?? super.valueOf(); }
    toISOString() {
      if (!(this.$t instanceof Sym)) return super.toISOString();
      if (!decide(T.and(T.le(T.int(X.MINISO), this.$t.t), T.le(this.$t.t, T.int(X.MAXISO))))) endPath("model", "year outside 0..9999");
      return X.isoStr(this.$t.t);
    }
    toJSON() { return this.$t instanceof Sym ? this.toISOString() : super.toJSON(); }
    setTime(v) { return this.$set(v instanceof Sym ? v : v); }
    $set(v) {
      if (v instanceof Sym) { Object.defineProperty(this, "$t", { value: v, writable: true, enumerable: false, configurable: true }); return v; }
      if (this.$t !== undefined) delete this.$t;
      return super.setTime(v);
    }
    getTimezoneOffset() { return 0; }
    toString() { if (this.$t instanceof Sym) throw new Unsupported("Date.prototype.toString"); return super.toString(); }
    [Symbol.toPrimitive](hint) { if (this.$t instanceof Sym) throw new Unsupported("symbolic date in native code"); return super[Symbol.toPrimitive](hint); }
  }
  for (const u of ["", "UTC"]) {
    for (const [name, f] of [["FullYear", "y"], ["Date", "d"], ["Hours", "h"], ["Minutes", "mi"], ["Seconds", "s"], ["Milliseconds", "ms"], ["Day", "wd"]]) {
      const k = `get${u}${name}`, orig = Date.prototype[k], g = ints(f);
      SDate.prototype[k] = function () { return this.$t instanceof Sym ? g.call(this) : orig.call(this); };
    }
    { const k = `get${u}Month`, orig = Date.prototype[k]; SDate.prototype[k] = function () { return this.$t instanceof Sym ? N.mkInt(T.add(X.civil(this.$ms()).m, T.int(-1))) : orig.call(this); }; }
    const order = [["Hours", "h", 3600000], ["Minutes", "mi", 60000], ["Seconds", "s", 1000], ["Milliseconds", "ms", 1]];
    order.forEach(([name], i) => {
      const k = `set${u}${name}`, orig = Date.prototype[k];
      SDate.prototype[k] = function (...a) {
        if (!(this.$t instanceof Sym) && !a.some((x) => x instanceof Sym)) return orig.apply(this, a);
        let t = this.getTime();
        a.forEach((v, j) => {
          const [, f, m] = order[i + j];
          const cur = t instanceof Sym ? N.mkInt(X.civil(t.t)[f]) : new Date(t)[`getUTC${order[i + j][0]}`]();
          t = N.arith("+", t, N.arith("*", N.arith("-", N.toNum(v), cur), m));
        });
        return this.$set(t);
      };
    });
    const kd = `set${u}Date`, od = Date.prototype[kd];
    SDate.prototype[kd] = function (v) {
      if (!(this.$t instanceof Sym) && !(v instanceof Sym)) return od.call(this, v);
      const cur = this[`get${u}Date`]();
      return this.$set(N.arith("+", this.getTime(), N.arith("*", N.arith("-", N.toNum(v), cur), 86400000)));
    };
    for (const name of ["FullYear", "Month"]) {
      const k = `set${u}${name}`, orig = Date.prototype[k];
      SDate.prototype[k] = function (...a) {
        if (!(this.$t instanceof Sym) && !a.some((x) => x instanceof Sym)) return orig.apply(this, a);
        // the year and the month become concrete, the day and the time of day do not
        const t = this.getTime(), arg = (v) => (v instanceof Sym ? N.conc(N.toNum(v)) : Number(v));
        const year = name === "Month" ? arg(this.getUTCFullYear()) : arg(a[0]);
        const rest = name === "Month" ? a : a.slice(1);
        const month = rest.length ? arg(rest[0]) : arg(this.getUTCMonth());
        if (![year, month].every((v) => Number.isFinite(v))) return this.$set(NaN);
        const day = rest.length > 1 ? N.toNum(rest[1]) : this.getUTCDate();
        const inDay = t instanceof Sym ? N.mkInt(T.sub(t.t, T.mul(T.int(86400000), T.divc(t.t, 86400000)))) : ((t % 86400000) + 86400000) % 86400000;
        return this.$set(N.arith("+", N.arith("+", new Date(0).setUTCFullYear(year, month, 1), N.arith("*", N.arith("-", day, 1), 86400000)), inDay));
      };
    }
  }
  for (const k of ["toLocaleString", "toLocaleDateString", "toLocaleTimeString", "toDateString", "toUTCString"]) {
    const orig = Date.prototype[k];
    SDate.prototype[k] = function (...a) { return this.$t instanceof Sym ? orig.apply(new Date(concAll(this.$t, "Date." + k)), a) : orig.apply(this, a); };
  }
  for (const k of Object.getOwnPropertyNames(SDate.prototype)) if (typeof SDate.prototype[k] === "function") safe.add(SDate.prototype[k]);
  for (const k of ["now", "parse", "UTC"]) safe.add(SDate[k]);
  safe.add(SDate);
  return SDate;
}
export const isWholeIso = (v) => v instanceof SymStr && v.cs.length === 1 && v.cs[0] instanceof Opq && v.cs[0].o.kind === "iso" && v.cs[0].s.op === "int" && v.cs[0].s.val === 0 && v.cs[0].n.op === "int" && v.cs[0].n.val === 24;
function parseDate(v) {
  const c = v.cs;
  if (c[0] instanceof Opq && c[0].o.kind === "iso" && c[0].s.op === "int" && c[0].s.val === 0) {
    const o = c[0], n = o.n.op === "int" ? o.n.val : -1;
    const rest = X.mkStr(c.slice(1));
    const tm = o.o.data;
    const tr = (k) => N.mkInt(T.mul(T.int(k), T.divc(tm, k)));
    if (n === 24 && rest === "") return N.mkInt(tm);
    if (n === 10 && rest === "") return tr(86400000);
    if (n === 16 && (rest === ":00Z" || rest === "Z" || rest === ":00.000Z")) return tr(60000);
    if (n === 19 && (rest === "Z" || rest === ".000Z")) return tr(1000);
    if (n === 23 && rest === "Z") return N.mkInt(tm);
    if (n === 10 && rest === "T00:00:00.000Z") return tr(86400000);
  }
  const cs = X.chars(v);
  if (cs.every((x) => typeof x === "number")) return Date.parse(String.fromCharCode(...cs));
  // fixed-width ISO 8601 with symbolic digits: YYYY-MM-DD[THH:MM[:SS[.mmm]]](Z|+00:00)?
  const lit = (i, k) => cs[i] !== undefined && decide(T.eq(X.chT(cs[i]), T.int(k)));
  const num = (i, n) => { let t = T.int(0); for (let j = 0; j < n; j++) { if (cs[i + j] === undefined || !decide(X.isDigitT(cs[i + j]))) return undefined; t = T.add(T.mul(T.int(10), t), T.add(X.chT(cs[i + j]), T.int(-48))); } return t; };
  const y = num(0, 4);
  if (y && lit(4, 45)) {
    const m = num(5, 2), d = m && lit(7, 45) ? num(8, 2) : undefined;
    if (d) {
      const Y = concretize(y, "year"), Mo = concretize(m, "month");
      if (Mo < 1 || Mo > 12) return NaN;
      const dim = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][Mo - 1];
      if (!decide(T.and(T.le(T.int(1), d), T.le(d, T.int(31))))) return NaN;
      let t = T.add(T.int(Date.UTC(Y, Mo - 1, 1)), T.mul(T.int(86400000), T.add(d, T.int(-1))));
      let i = 10;
      if (cs.length === 10) return N.mkInt(t);
      if (lit(10, 84)) {
        const h = num(11, 2), mi = h && lit(13, 58) ? num(14, 2) : undefined;
        if (mi && decide(T.and(T.le(h, T.int(23)), T.le(mi, T.int(59))))) {
          t = T.add(t, T.add(T.mul(T.int(3600000), h), T.mul(T.int(60000), mi)));
          i = 16;
          if (lit(16, 58)) { const s = num(17, 2); if (!s || !decide(T.le(s, T.int(59)))) return NaN; t = T.add(t, T.mul(T.int(1000), s)); i = 19; if (lit(19, 46)) { const ms = num(20, 3); if (ms) { t = T.add(t, ms); i = 23; } } }
          if (i === cs.length) return N.mkInt(t); // TZ=UTC
          if (lit(i, 90) && i + 1 === cs.length) return N.mkInt(t);
        }
      }
    }
  }
  return Date.parse(concAll(v, "Date.parse"));
}

// ---------------------------------------------------------------- evaluation under a model (observations, replays)
export function evalValue(v, run, seen = new Map()) {
  if (v instanceof SymBool) return run.ev(v.t);
  if (v instanceof SymNum) return v.t.sort === "FP" ? run.ev(v.t) : run.ev(v.t) / v.den;
  if (v instanceof SymStr) return evalStr(v, run);
  if (v === null || typeof v !== "object") return v;
  if (v.$t instanceof Sym) return new Date(run.ev(v.$t.t)).toISOString();
  if (v instanceof Date) return Number.isNaN(v.getTime()) ? "Invalid Date" : v.toISOString();
  if (seen.has(v)) return seen.get(v);
  if (Array.isArray(v)) { const o = []; seen.set(v, o); for (const x of v) o.push(evalValue(x, run, seen)); return o; }
  const o = {};
  seen.set(v, o);
  if (v instanceof Error) { o.name = v.name; o.message = evalValue(v.message, run, seen); return o; }
  if (v instanceof Map) { o.$map = [...v].map(([a, b]) => [evalValue(a, run, seen), evalValue(b, run, seen)]); return o; }
  if (v instanceof Set) { o.$set = [...v].map((a) => evalValue(a, run, seen)); return o; }
  if (v.$sbuf) return { $buf: evalValue(v.data, run, seen) };
  for (const k of Object.keys(v)) o[run.symKeys.has(k) ? evalStr(run.symKeys.get(k), run) : k] = evalValue(v[k], run, seen);
  return o;
}
function evalStr(v, run) {
  if (typeof v === "string") return v;
  let s = "";
  for (const c of v.cs) s += c instanceof Opq ? evalOpq(c.o, run).substr(run.ev(c.s), run.ev(c.n)) : String.fromCharCode(typeof c === "number" ? c : run.ev(c));
  return s;
}
export function opaqueText(alphabet, n, seed = 0) {
  let s = "";
  const a = alphabet || "abcdefghijklmnopqrstuvwxyz";
  while (s.length < n && s.length < 4096) s += a[(s.length * 7 + seed) % a.length];
  while (s.length < n) s += s.slice(0, Math.min(s.length, n - s.length));
  return s;
}
function evalOpq(b, run) {
  switch (b.kind) {
    case "free": return opaqueText(b.alphabet, run.ev(b.len));
    case "dec": return String(run.ev(b.data.t));
    case "iso": return new Date(run.ev(b.data)).toISOString();
    case "jsonq": return JSON.stringify(evalStr(b.data, run));
    case "b64": if (isStr(b.data)) return Buffer.from(evalStr(b.data, run)).toString("base64");
  }
  if (b.num) return X.numTextOf(b.kind, run.ev(b.data.t) / (b.data.den ?? 1));
  throw new T.EvalUnknown("opaque " + b.kind);
}
export { truth, step, NATIVE, safe, newModels };
export { Sym, SymBool, SymNum, SymStr, Opq };
