// Strings: ropes of UTF-16 code units (constants or Int terms) and opaque
// segments of symbolic length.
import * as T from "./terms.mjs";
import { R, SymBool, SymNum, SymStr, Opq, Unsupported, assume, decide, concretize, endPath, newVar, flag, step } from "./core.mjs";
import { mkInt, mkBool, conc, toNum, numEq, isNaNT, truncNum } from "./num.mjs";

export const chT = (c) => (typeof c === "number" ? T.int(c) : c);
export const items = (v) => (typeof v === "string" ? codes(v) : v.cs);
export const codes = (s) => { const o = new Array(s.length); for (let i = 0; i < s.length; i++) o[i] = s.charCodeAt(i); return o; };
export const isStr = (v) => typeof v === "string" || v instanceof SymStr;
const isCh = (c) => !(c instanceof Opq);
export const allCh = (cs) => cs.every(isCh);

export function mkStr(cs) {
  let conc = true;
  const out = [];
  for (let c of cs) {
    if (c instanceof Opq) {
      if (c.n.op === "int" && c.n.val === 0) continue;
      const p = out[out.length - 1];
      if (p instanceof Opq && p.o === c.o && T.add(p.s, p.n) === c.s) { out[out.length - 1] = new Opq(p.o, p.s, T.add(p.n, c.n)); continue; }
      conc = false;
    } else if (typeof c !== "number") {
      if (c.op === "int") c = c.val; else conc = false;
    }
    out.push(c);
  }
  if (conc) { let s = ""; for (let i = 0; i < out.length; i += 4096) s += String.fromCharCode(...out.slice(i, i + 4096)); return s; }
  return new SymStr(out);
}
export const concat = (...xs) => { const o = []; for (const x of xs) for (const c of items(x)) o.push(c); return mkStr(o); };

// ---------------------------------------------------------------- opaque bases
// kinds: free (alphabet: string of possible characters), dec (data: number),
// iso (data: Int term, ms), and injective functions of other values
const baseKeys = new Map();
export function opqBase(kind, data, len, extra = {}) {
  return { id: ++opqBase.n, kind, data, len, ...extra };
}
opqBase.n = 0;
export const whole = (b) => new SymStr([new Opq(b, T.int(0), b.len)]);
const isWhole = (o) => o.s.op === "int" && o.s.val === 0 && o.n === o.o.len;
// a string that is an injective function `kind` of its data
export function derived(kind, data, lenT) {
  for (const b of R.opqs) if (b.kind === kind && sameData(b.data, data)) return whole(b);
  const len = lenT ?? newVar(T.intVar(`${kind}#len${R.fresh++}`, 1, 100000));
  const b = opqBase(kind, data, len);
  R.opqs.push(b);
  return whole(b);
}
function sameData(a, b) {
  if (a === b) return true;
  if (a instanceof SymStr && b instanceof SymStr) return eqStr(a, b, true) === T.TRUE;
  if (a instanceof SymNum && b instanceof SymNum) return a.t === b.t && a.den === b.den;
  if (Array.isArray(a) && Array.isArray(b)) return a.length === b.length && a.every((x, i) => sameData(x, b[i]));
  return false;
}
function dataEq(a, b) {
  if (a === b) return T.TRUE;
  if (isStr(a) && isStr(b)) return eqStr(a, b);
  if ((a instanceof SymNum || typeof a === "number") && (b instanceof SymNum || typeof b === "number")) {
    if (a.t?.sort === "FP" || b.t?.sort === "FP" || (a.t && a.den !== 1) || (b.t && b.den !== 1)) return T.or(numEq(a, b), T.and(isNaNT(a), isNaNT(b)));
    const x = a instanceof SymNum ? a : { t: T.int(a), den: 1 }, y = b instanceof SymNum ? b : { t: T.int(b), den: 1 };
    return T.eq(T.mul(x.t, T.int(y.den)), T.mul(y.t, T.int(x.den)));
  }
  if (Array.isArray(a) && Array.isArray(b)) return a.length === b.length ? T.and(...a.map((x, i) => dataEq(x, b[i]))) : T.FALSE;
  if (a && a.op && b && b.op) return T.eq(a, b);
  return T.FALSE;
}
export function decStr(num) {
  if (typeof num === "number") return String(num);
  if (num.t.sort !== "Int" || num.den !== 1) return numText("num", num);
  for (const b of R.opqs) if (b.kind === "dec" && b.data.t === num.t) return whole(b);
  // number of digits as a term
  const t = num.t, neg = T.not(T.le(T.int(0), t));
  const a = T.ite(neg, T.neg(t), t);
  let len = T.int(1);
  for (let k = 10, d = 2; k <= Math.max(Math.abs(t.lo), Math.abs(t.hi)) && d < 18; k *= 10, d++) len = T.ite(T.le(T.int(k), a), T.int(d), len);
  if (t.lo < 0) len = T.add(len, T.ite(neg, T.int(1), T.int(0)));
  const b = opqBase("dec", num, len);
  R.opqs.push(b);
  return whole(b);
}
const NUMAL = "0123456789.-+eNaInfity";
// the shortest text of a number that is not known to be an integer ("num"), and
// its rounded forms ("prec8", "fix3" ...): opaque, told apart by their number
export function numText(kind, num) {
  for (const b of R.opqs) if (b.kind === kind && b.data.t === num.t && b.data.den === num.den) return whole(b);
  const b = opqBase(kind, num, newVar(T.intVar(`${kind}#len${R.fresh++}`, 1, kind === "num" ? 25 : 130)), { alphabet: NUMAL, num: kind });
  R.opqs.push(b);
  return whole(b);
}
export const numTextOf = (kind, v) => (kind === "num" ? String(v) : kind.startsWith("prec") ? v.toPrecision(Number(kind.slice(4))) : v.toFixed(Number(kind.slice(3))));
// is the number's text this text?
function numIs(b, s) {
  const n = Number(s);
  if (s.trim() !== s || s === "" || numTextOf(b.kind, n) !== s) return T.FALSE;
  if (b.kind !== "num") return undefined;
  return Number.isNaN(n) ? isNaNT(b.data) : numEq(b.data, n);
}
export function isoStr(t) {
  if (t.op === "int") return new Date(t.val).toISOString();
  return derived("iso", t, T.int(24));
}
export const MINISO = -62167219200000, MAXISO = 253402300799999;
const digits = (t, n) => { const o = []; for (let i = n - 1; i >= 0; i--) o.push(T.add(T.modc(T.divc(t, 10 ** i), 10), T.int(48))); return o; };
export function civil(ms) {
  const D = 86400000;
  const days = T.divc(ms, D), tod = T.modc(ms, D);
  const z = T.add(days, T.int(719468));
  const era = T.divc(z, 146097);
  const doe = T.modc(z, 146097);
  const yoe = T.divc(T.add(T.sub(T.add(doe, T.divc(doe, 36524)), T.divc(doe, 1460)), T.neg(T.divc(doe, 146096))), 365);
  const doy = T.sub(doe, T.add(T.mul(T.int(365), yoe), T.sub(T.divc(yoe, 4), T.divc(yoe, 100))));
  const mp = T.divc(T.add(T.mul(T.int(5), doy), T.int(2)), 153);
  const d = T.add(T.sub(doy, T.divc(T.add(T.mul(T.int(153), mp), T.int(2)), 5)), T.int(1));
  const m = T.ite(T.le(mp, T.int(9)), T.add(mp, T.int(3)), T.sub(mp, T.int(9)));
  const y = T.add(T.add(yoe, T.mul(T.int(400), era)), T.ite(T.le(m, T.int(2)), T.int(1), T.int(0)));
  return { y, m, d, h: T.divc(tod, 3600000), mi: T.modc(T.divc(tod, 60000), 60), s: T.modc(T.divc(tod, 1000), 60), ms: T.modc(tod, 1000), wd: T.modc(T.add(days, T.int(4)), 7), days };
}
export function isoChars(t) {
  const c = civil(t);
  return [...digits(c.y, 4), 45, ...digits(c.m, 2), 45, ...digits(c.d, 2), 84, ...digits(c.h, 2), 58, ...digits(c.mi, 2), 58, ...digits(c.s, 2), 46, ...digits(c.ms, 3), 90];
}
function expandOpq(o, force) {
  const b = o.o;
  if (!b.exp) {
    if (b.num) {
      if (!force) return undefined;
      b.exp = codes(numTextOf(b.kind, conc(b.data)));
    } else
    if (b.kind === "dec") {
      const t = b.data.t;
      const neg = t.lo >= 0 ? false : decide(T.not(T.le(T.int(0), t)));
      const a = neg ? T.neg(t) : t;
      let n = 1;
      const maxAbs = Math.max(Math.abs(t.lo), Math.abs(t.hi));
      for (let k = 10; k <= maxAbs && n < 17; k *= 10, n++) if (!decide(T.le(T.int(k), a))) break;
      // not cached across runs: bases are per run
      b.exp = (neg ? [45] : []).concat(digits(a, n));
    } else if (b.kind === "iso") b.exp = isoChars(b.data);
    else if (b.kind === "jsonq") b.exp = jsonQuoteChars(b.data);
    else if (b.expand) b.exp = items(b.expand());
    else return undefined;
  }
  if (isWhole(o)) return b.exp;
  if (!allCh(b.exp)) return undefined;
  const s = o.s.op === "int" ? o.s.val : concretize(o.s, "slice start");
  const n = o.n.op === "int" ? o.n.val : concretize(o.n, "slice length");
  return b.exp.slice(s, s + n);
}
// character list, or Unsupported when a free segment is in the way
export function chars(v, soft) {
  let cs = items(v);
  if (allCh(cs)) return cs;
  const out = [];
  for (const c of cs) {
    if (isCh(c)) { out.push(c); continue; }
    const e = expandOpq(c, true);
    if (!e) { if (soft) return undefined; throw new Unsupported("character access to opaque text of kind " + c.o.kind); }
    for (const x of e) {
      if (isCh(x)) out.push(x);
      else { const y = chars(mkStr([x]), soft); if (!y) return undefined; out.push(...y); }
    }
  }
  return out;
}
// expand what can be expanded, keep the rest
export function expandSome(v) {
  const out = [];
  for (const c of items(v)) {
    if (isCh(c)) { out.push(c); continue; }
    const e = expandOpq(c);
    if (!e) out.push(c); else for (const x of e) if (isCh(x)) out.push(x); else out.push(...expandSome(mkStr([x])));
  }
  return out;
}

export function lenT(v) {
  let n = 0, t = T.int(0);
  for (const c of items(v)) if (isCh(c)) n++; else t = T.add(t, c.n);
  return T.add(t, T.int(n));
}
export const length = (v) => (typeof v === "string" ? v.length : mkInt(lenT(v)));

const chEq = (a, b) => (typeof a === "number" && typeof b === "number" ? T.bool(a === b) : T.eq(chT(a), chT(b)));
// syntactic: never forks, answers TRUE/FALSE/other term
export function eqStr(a, b, syntactic = false) {
  if (typeof a === "string" && typeof b === "string") return T.bool(a === b);
  let x = items(a), y = items(b);
  if (allCh(x) && allCh(y)) {
    if (x.length !== y.length) return T.FALSE;
    return T.and(...x.map((c, i) => chEq(c, y[i])));
  }
  const cs = [];
  let i = 0, j = 0;
  for (;;) {
    if (i === x.length && j === y.length) return T.and(...cs);
    const p = x[i], q = y[j];
    if (p !== undefined && q !== undefined && isCh(p) && isCh(q)) { cs.push(chEq(p, q)); i++; j++; continue; }
    if (p instanceof Opq && q instanceof Opq) {
      if (p.o === q.o && p.s === q.s && p.n === q.n) { i++; j++; continue; }
      if (p.o === q.o && p.s === q.s && i === x.length - 1 && j === y.length - 1 && (p.o.kind === "free")) { cs.push(T.eq(p.n, q.n)); i++; j++; continue; }
      if ((p.o.kind === q.o.kind || (["dec", "num"].includes(p.o.kind) && ["dec", "num"].includes(q.o.kind))) && p.o.kind !== "free" && isWhole(p) && isWhole(q)) { cs.push(dataEq(p.o.data, q.o.data)); i++; j++; continue; }
      // equal-length prefixes of two ISO instants: same truncated instant
      if (p.o.kind === "iso" && q.o.kind === "iso" && p.s === q.s && p.n === q.n && p.s.op === "int" && p.s.val === 0 && p.n.op === "int") {
        const k = { 10: 86400000, 13: 3600000, 14: 3600000, 16: 60000, 17: 60000, 19: 1000, 20: 1000, 23: 1 }[p.n.val];
        if (k) { cs.push(T.eq(T.divc(p.o.data, k), T.divc(q.o.data, k))); i++; j++; continue; }
      }
    }
    break;
  }
  if (T.and(...cs) === T.FALSE) return T.FALSE;
  if (syntactic) return undefined;
  // a decimal against a constant
  x = x.slice(i); y = y.slice(j);
  for (const [u, w] of [[x, y], [y, x]])
    if (u.length === 1 && u[0] instanceof Opq && isWhole(u[0]) && allCh(w)) {
      if (w.length === 0 || (u[0].o.len.lo > w.length) || u[0].o.len.hi < w.length) return u[0].o.len.lo > w.length || u[0].o.len.hi < w.length ? T.FALSE : T.and(...cs, T.eq(u[0].o.len, T.int(0)));
      if (w.every((c) => typeof c === "number")) {
        const s = String.fromCharCode(...w);
        if (u[0].o.num) { const e = numIs(u[0].o, s); if (e) return T.and(...cs, e); }
        if (u[0].o.kind === "dec") return /^(0|-?[1-9]\d*)$/.test(s) ? T.and(...cs, T.eq(u[0].o.data.t, T.int(Number(s)))) : T.FALSE;
        if (u[0].o.kind === "iso") return /^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d\d\dZ$/.test(s) ? T.and(...cs, T.eq(u[0].o.data, T.int(Date.parse(s)))) : T.FALSE;
      }
    }
  const ex = expandSome(mkStr(x)), ey = expandSome(mkStr(y));
  if (allCh(ex) && allCh(ey)) return T.and(...cs, eqStr(mkStr(ex), mkStr(ey)));
  if (ex.length !== x.length || ey.length !== y.length || ex.some((c, k) => c !== x[k]) || ey.some((c, k) => c !== y[k])) return T.and(...cs, eqStr(mkStr(ex), mkStr(ey)));
  // trailing characters
  let tail = [];
  while (x.length && y.length && isCh(x[x.length - 1]) && isCh(y[y.length - 1])) tail.push(chEq(x.pop(), y.pop()));
  const all = T.and(...cs, ...tail);
  if (all === T.FALSE) return T.FALSE;
  // lengths
  const lx = lenT(mkStr(x)), ly = lenT(mkStr(y));
  const le = T.eq(lx, ly);
  if (le === T.FALSE) return T.FALSE;
  if (!decide(T.and(all, le))) return T.FALSE;
  if (lx === T.int(0) || (decide(T.eq(lx, T.int(0))))) return T.TRUE;
  // a character outside the opaque alphabet on one side
  const al = alphabetOf([...x, ...y]);
  if (al) {
    const fx = x.filter(isCh), fy = y.filter(isCh);
    if ((x.every((c) => !isCh(c)) && fy.some((c) => typeof c === "number" && !al.includes(String.fromCharCode(c)))) || (y.every((c) => !isCh(c)) && fx.some((c) => typeof c === "number" && !al.includes(String.fromCharCode(c))))) return T.FALSE;
  }
  // the same parts of the same text?
  if (x.length === y.length && x.every((c, k) => (isCh(c) ? isCh(y[k]) : !isCh(y[k]) && c.o === y[k].o))) {
    if (decide(T.and(...x.map((c, k) => (isCh(c) ? chEq(c, y[k]) : T.and(T.eq(c.s, y[k].s), T.eq(c.n, y[k].n))))))) return T.TRUE;
  }
  if (x.concat(y).some((c) => !isCh(c) && c.o.num)) return T.and(...cs, eqStr(mkStr(chars(mkStr(x))), mkStr(chars(mkStr(y)))));
  // not known: both answers are explored, and the replay tells
  if (x.concat(y).every((c) => isCh(c) || c.o.kind === "free")) { R.approx = true; return newVar(T.boolVar("eq#" + R.fresh++)); }
  throw new Unsupported("equality of opaque texts (" + describe(x) + " / " + describe(y) + ")");
}
const describe = (cs) => cs.slice(0, 6).map((c) => (isCh(c) ? (typeof c === "number" ? String.fromCharCode(c) : "?") : `<${c.o.kind}#${c.o.id}>`)).join("");
function alphabetOf(cs) {
  let al;
  for (const c of cs) if (!isCh(c)) { if (c.o.kind !== "free" || !c.o.alphabet) return undefined; al = (al ?? "") + c.o.alphabet; }
  return al;
}

// lexicographic a < b by code units
export function ltStr(a, b) {
  const A = items(a), B = items(b);
  if (A.length === 1 && B.length === 1 && A[0] instanceof Opq && B[0] instanceof Opq && A[0].o.kind === "iso" && B[0].o.kind === "iso" && isWhole(A[0]) && isWhole(B[0])) return T.lt(A[0].o.data, B[0].o.data);
  const x = chars(a), y = chars(b);
  let r = T.bool(x.length < y.length);
  for (let i = Math.min(x.length, y.length) - 1; i >= 0; i--) r = T.ite(chEq(x[i], y[i]), r, T.lt(chT(x[i]), chT(y[i])));
  return r;
}

// ---------------------------------------------------------------- slices
function takeT(cs, skip, count) {
  const out = [];
  for (let c of cs) {
    let L = isCh(c) ? T.int(1) : c.n;
    if (!(skip.op === "int" && skip.val <= 0)) {
      if (decide(T.le(L, skip))) { skip = T.sub(skip, L); continue; }
      if (!isCh(c)) {
        if (decide(T.le(T.int(1), skip))) { c = new Opq(c.o, T.add(c.s, skip), T.sub(c.n, skip)); L = c.n; }
      }
      skip = T.int(0);
    }
    if (count) {
      if (decide(T.le(count, T.int(0)))) break;
      if (!decide(T.le(L, count))) { out.push(new Opq(c.o, c.s, count)); break; }
      count = T.sub(count, L);
    }
    out.push(c);
  }
  return mkStr(out);
}
const intArg = (v, dflt) => {
  if (v === undefined) return T.int(dflt);
  v = toNum(v);
  if (typeof v === "number") { if (Number.isNaN(v)) return T.int(0); if (v === Infinity) return T.int(2 ** 50); if (v === -Infinity) return T.int(-(2 ** 50)); return T.int(Math.trunc(v)); }
  if (v.t.sort === "FP") return T.int(Math.trunc(conc(v)));
  if (v.den === 1) return v.t;
  return T.ite(T.le(T.int(0), v.t), T.divc(v.t, v.den), T.neg(T.divc(T.neg(v.t), v.den)));
};
export function slice(v, from, to) {
  const cs = items(v), n = lenT(v);
  const norm = (t) => {
    if (t.op === "int" && t.val >= 0) return t;
    if (t.op === "int" && n.op === "int") return T.int(Math.max(0, n.val + t.val));
    if (t.lo >= 0) return t;
    if (decide(T.le(T.int(0), t))) return t;
    const u = T.add(n, t);
    return decide(T.le(T.int(0), u)) ? u : T.int(0);
  };
  const a = norm(intArg(from, 0));
  if (to === undefined) return takeT(cs, a);
  const b = norm(intArg(to, 0));
  return takeT(cs, a, T.sub(b, a));
}
export function substring(v, from, to) {
  const clamp = (t) => (t.lo >= 0 ? t : t.op === "int" ? T.int(Math.max(0, t.val)) : decide(T.le(T.int(0), t)) ? t : T.int(0));
  const n = lenT(v);
  const min = (t) => (t.op === "int" && n.op === "int" ? T.int(Math.min(t.val, n.val)) : decide(T.le(t, n)) ? t : n);
  let a = min(clamp(intArg(from, 0)));
  if (to === undefined) return takeT(items(v), a);
  let b = min(clamp(intArg(to, 0)));
  if (decide(T.lt(b, a))) [a, b] = [b, a];
  return takeT(items(v), a, T.sub(b, a));
}
export function charAtItem(v, i) {
  // returns item or undefined; forks on a symbolic index
  const t = intArg(i, 0);
  const cs = items(v);
  if (t.op === "int" && allCh(cs)) return cs[t.val];
  if (decide(T.lt(t, T.int(0)))) return undefined;
  if (!decide(T.lt(t, lenT(v)))) return undefined;
  const r = takeT(cs, t, T.int(1));
  return chars(r)[0];
}

// ---------------------------------------------------------------- search
// items of the haystack in which a constant needle may be looked for;
// free opaque segments whose alphabet excludes the needle's first or last char
// are kept as barriers
function matchAt(cs, i, nd) {
  if (i + nd.length > cs.length) return T.FALSE;
  const r = [];
  for (let k = 0; k < nd.length; k++) {
    const c = cs[i + k];
    if (!isCh(c)) return T.FALSE;
    const e = chEq(c, nd[k]);
    if (e === T.FALSE) return T.FALSE;
    r.push(e);
  }
  return T.and(...r);
}
// prepares a haystack: chars, plus opaque barriers proven not to touch the needle
function hay(v, nd) {
  const cs = items(v);
  if (allCh(cs)) return cs;
  const ex = expandSome(v);
  for (const c of ex) if (!isCh(c)) {
    const al = c.o.alphabet ? c.o.alphabet : c.o.kind === "b64" ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=" : undefined;
    if (!al || nd.some((x) => typeof x !== "number") || nd.length === 0) throw new Unsupported("search in opaque text");
    // every char of the needle outside the alphabet: no overlap possible
    if (nd.some((x) => al.includes(String.fromCharCode(x)))) {
      if (nd.every((x) => al.includes(String.fromCharCode(x))) || nd.length > 1) throw new Unsupported("search in opaque text");
    }
  }
  return ex;
}
export function indexOf(v, needle, from = 0) {
  if (typeof v === "string" && typeof needle === "string" && typeof from === "number") return v.indexOf(needle, from);
  if (from instanceof SymNum) from = conc(from);
  const nd = chars(needle);
  const cs = hay(v, nd);
  let r = T.int(-1);
  // positions in code units
  const pos = [];
  let p = T.int(0);
  for (const c of cs) { pos.push(p); p = T.add(p, isCh(c) ? T.int(1) : c.n); }
  pos.push(p);
  const chOnly = allCh(cs);
  for (let i = cs.length - nd.length; i >= 0; i--) {
    if (chOnly ? i < from : false) break;
    r = T.ite(matchAt(cs, i, nd), pos[i], r);
  }
  if (!chOnly && from !== 0) throw new Unsupported("indexOf with offset in opaque text");
  return mkInt(r);
}
export function lastIndexOf(v, needle) {
  const nd = chars(needle), cs = chars(v);
  let r = T.int(-1);
  for (let i = 0; i + nd.length <= cs.length; i++) r = T.ite(matchAt(cs, i, nd), T.int(i), r);
  return mkInt(r);
}
export function includesT(v, needle) {
  const nd = chars(needle);
  if (nd.length === 0) return T.TRUE;
  const cs = hay(v, nd);
  const r = [];
  for (let i = 0; i + nd.length <= cs.length; i++) r.push(matchAt(cs, i, nd));
  return T.or(...r);
}
export function startsWithT(v, needle, pos = 0) {
  const nd = chars(needle);
  let cs = items(v);
  if (pos) cs = chars(v).slice(conc(pos));
  if (!allCh(cs.slice(0, nd.length))) cs = expandSome(v);
  if (!allCh(cs.slice(0, nd.length))) {
    const k = cs.findIndex((c) => !isCh(c));
    const m = matchAt(cs, 0, nd.slice(0, k));
    if (m === T.FALSE) return T.FALSE;
    const al = cs[k].o.alphabet;
    if (al && typeof nd[k] === "number" && !al.includes(String.fromCharCode(nd[k])) && cs[k].n.lo > 0) return T.FALSE;
    throw new Unsupported("startsWith on opaque text");
  }
  return matchAt(cs, 0, nd);
}
export function endsWithT(v, needle) {
  const nd = chars(needle);
  let cs = items(v);
  if (cs.length >= nd.length && !allCh(cs.slice(cs.length - nd.length))) cs = expandSome(v);
  if (cs.length < nd.length) {
    if (allCh(cs)) return T.FALSE;
    throw new Unsupported("endsWith on opaque text");
  }
  if (!allCh(cs.slice(cs.length - nd.length))) {
    const last = cs[cs.length - 1];
    if (!isCh(last) && last.o.alphabet && last.n.lo > 0 && typeof nd[nd.length - 1] === "number" && !last.o.alphabet.includes(String.fromCharCode(nd[nd.length - 1]))) return T.FALSE;
    throw new Unsupported("endsWith on opaque text");
  }
  return matchAt(cs, cs.length - nd.length, nd);
}
// first match at or after i, by forking; -1 if none
function findFork(cs, nd, i) {
  for (; i + nd.length <= cs.length; i++) { step(); if (decide(matchAt(cs, i, nd))) return i; }
  return -1;
}
export function split(v, sep, limit) {
  if (sep === undefined) return [v];
  const nd = chars(sep);
  let out = [];
  if (nd.length === 0) out = chars(v).map((c) => mkStr([c]));
  else {
    const cs = hay(v, nd);
    let i = 0;
    for (;;) {
      const j = findFork(cs, nd, i);
      if (j < 0) break;
      out.push(mkStr(cs.slice(i, j)));
      i = j + nd.length;
    }
    out.push(mkStr(cs.slice(i)));
  }
  return limit === undefined ? out : out.slice(0, conc(limit));
}
// the replacement template of String.prototype.replace; groups: array of strings or undefined
export function expandDollar(rep, matched, before, after, groups = [], named) {
  const cs = items(rep);
  const out = [];
  const is = (c, k) => c !== undefined && isCh(c) && decide(chEq(c, k));
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i];
    if (!isCh(c)) {
      if (c.o.kind === "free" && c.o.alphabet && !c.o.alphabet.includes("$")) { out.push(c); continue; }
      if (["dec", "iso", "b64"].includes(c.o.kind) || c.o.num) { out.push(c); continue; }
      throw new Unsupported("opaque replacement text");
    }
    if (!is(c, 36)) { out.push(c); continue; }
    const d = cs[i + 1];
    if (is(d, 36)) { out.push(36); i++; continue; }
    if (is(d, 38)) { out.push(...items(matched)); i++; continue; }
    if (is(d, 96)) { out.push(...items(before)); i++; continue; }
    if (is(d, 39)) { out.push(...items(after)); i++; continue; }
    if (groups.length && d !== undefined && isCh(d)) {
      const dn = typeof d === "number" ? d : concretize(d, "group digit");
      if (dn >= 49 && dn <= 57 && dn - 48 <= groups.length) { out.push(...items(groups[dn - 49] ?? "")); i++; continue; }
      if (dn === 60 && named) {
        const e = cs.indexOf(62, i);
        if (e > 0) { const nm = String.fromCharCode(...cs.slice(i + 2, e)); out.push(...items(named[nm] ?? "")); i = e; continue; }
      }
    }
    out.push(c);
  }
  return mkStr(out);
}
export function replaceStr(v, pat, rep, all, callFn, toStr) {
  const nd = chars(pat), cs = hay(v, nd);
  const out = [];
  let i = 0;
  for (;;) {
    let j = nd.length === 0 ? i : findFork(cs, nd, i);
    if (j < 0) break;
    out.push(...cs.slice(i, j));
    const m = mkStr(cs.slice(j, j + nd.length));
    const r = typeof rep === "function" ? toStr(callFn(rep, [m, j, v])) : expandDollar(toStr(rep), m, mkStr(cs.slice(0, j)), mkStr(cs.slice(j + nd.length)));
    out.push(...items(r));
    i = j + nd.length;
    if (!all || nd.length === 0) break;
  }
  return mkStr(out.concat(cs.slice(i)));
}

// ---------------------------------------------------------------- characters
export const inRange = (c, lo, hi) => (typeof c === "number" ? T.bool(c >= lo && c <= hi) : T.and(T.le(T.int(lo), c), T.le(c, T.int(hi))));
export const isDigitT = (c) => inRange(c, 48, 57);
const WS = [[9, 13], [32, 32], [160, 160], [5760, 5760], [8192, 8202], [8232, 8233], [8239, 8239], [8287, 8287], [12288, 12288], [65279, 65279]];
export const isWsT = (c) => T.or(...WS.map(([a, b]) => inRange(c, a, b)));
export function ascii(c) {
  if (typeof c === "number" ? c >= 128 : c.hi >= 128) {
    if (!decide(T.le(chT(c), T.int(127)))) endPath("model", "case mapping of a non-ASCII character");
  }
}
export function mapCase(v, upper) {
  if (typeof v === "string") return upper ? v.toUpperCase() : v.toLowerCase();
  const out = [];
  for (const c of expandSome(v)) {
    if (!isCh(c)) {
      if (c.o.alphabet && (upper ? c.o.alphabet.toUpperCase() : c.o.alphabet.toLowerCase()) === c.o.alphabet) { out.push(c); continue; }
      throw new Unsupported("case mapping of opaque text");
    }
    if (typeof c === "number" && c < 128) { out.push((upper ? String.fromCharCode(c).toUpperCase() : String.fromCharCode(c).toLowerCase()).charCodeAt(0)); continue; }
    if (typeof c === "number") { out.push(...codes(upper ? String.fromCharCode(c).toUpperCase() : String.fromCharCode(c).toLowerCase())); continue; }
    ascii(c);
    out.push(upper ? T.ite(inRange(c, 97, 122), T.add(c, T.int(-32)), c) : T.ite(inRange(c, 65, 90), T.add(c, T.int(32)), c));
  }
  return mkStr(out);
}
export function trim(v, l = true, r = true) {
  let cs = expandSome(v);
  let i = 0, j = cs.length;
  const ws = (c) => {
    if (isCh(c)) return decide(isWsT(c));
    if (c.o.kind === "b64" || (c.o.alphabet && !/\s/.test(c.o.alphabet))) { if (c.n.lo > 0 || decide(T.le(T.int(1), c.n))) return false; return true; }
    throw new Unsupported("trim of opaque text");
  };
  if (l) while (i < j && ws(cs[i])) i++;
  if (r) while (j > i && ws(cs[j - 1])) j--;
  return mkStr(cs.slice(i, j));
}

// ---------------------------------------------------------------- text to number
const decVal = (cs) => { let t = T.int(0); for (const c of cs) t = T.add(T.mul(T.int(10), t), T.add(chT(c), T.int(-48))); return t; };
const concStr = (cs) => String.fromCharCode(...cs.map((c) => (typeof c === "number" ? c : concretize(c, "number text"))));
function decOf(v) {
  const cs = items(v);
  if (cs.length === 1 && cs[0] instanceof Opq && isWhole(cs[0]) && (cs[0].o.kind === "dec" || cs[0].o.kind === "num")) return cs[0].o.data;
  return undefined;
}
export function strToNumber(v) {
  const d = decOf(v);
  if (d) return d;
  const cs = items(trim(v)).map((c) => c);
  if (!allCh(cs)) {
    const e = expandSome(mkStr(cs));
    if (!allCh(e)) {
      if (e.some((c) => !isCh(c) && c.o.alphabet && !/[0-9a-fxobeEInity.+-]/.test(c.o.alphabet) && c.n.lo > 0)) return NaN;
      throw new Unsupported("number from opaque text");
    }
    return strToNumber(mkStr(e));
  }
  if (cs.length === 0) return 0;
  if (cs.every((c) => typeof c === "number")) return Number(String.fromCharCode(...cs));
  let i = 0, neg = false;
  if (decide(chEq(cs[0], 45))) { neg = true; i = 1; } else if (decide(chEq(cs[0], 43))) i = 1;
  const ip = [], fp = [];
  let dot = false;
  for (; i < cs.length; i++) {
    step();
    if (decide(isDigitT(cs[i]))) { (dot ? fp : ip).push(cs[i]); continue; }
    if (!dot && decide(chEq(cs[i], 46))) { dot = true; continue; }
    // exponent, hexadecimal, Infinity: by value
    const c = cs[i];
    if (decide(T.or(...[101, 69, 120, 88, 98, 66, 111, 79, 73].map((k) => chEq(c, k))))) return Number(concStr(cs));
    return NaN;
  }
  if (ip.length + fp.length === 0) return NaN;
  if (ip.length + fp.length > 15) throw new Unsupported("long number text");
  const n = decVal(ip.concat(fp));
  const r = mkInt(neg ? T.neg(n) : n, 10 ** fp.length);
  if (neg && !(n.lo > 0) && decide(T.eq(n, T.int(0)))) return -0;
  return r;
}
export function parseIntStr(v, radix) {
  const d = decOf(v);
  if (d && (radix === undefined || radix === 10) && d.t.sort === "Int" && d.den <= 1e6) return truncNum(d);
  if (radix !== undefined && radix !== 10 && radix !== 0) return parseInt(concStr(chars(v)), conc(radix));
  let cs = chars(trim(v, true, false));
  let i = 0, neg = false;
  if (cs.length && decide(chEq(cs[0], 45))) { neg = true; i = 1; } else if (cs.length && decide(chEq(cs[0], 43))) i = 1;
  const ip = [];
  for (; i < cs.length; i++) {
    if (decide(isDigitT(cs[i]))) ip.push(cs[i]);
    else {
      if (radix === undefined && ip.length === 1 && decide(T.and(chEq(ip[0], 48), T.or(chEq(cs[i], 120), chEq(cs[i], 88))))) return parseInt(concStr(cs));
      break;
    }
  }
  if (!ip.length) return NaN;
  if (ip.length > 15) throw new Unsupported("long number text");
  const n = decVal(ip);
  return mkInt(neg ? T.neg(n) : n);
}
export function parseFloatStr(v) {
  const d = decOf(v);
  if (d) return d;
  const cs = chars(trim(v, true, false));
  let k = 0, dot = false, dig = 0;
  for (; k < cs.length; k++) {
    if (k === 0 && decide(T.or(chEq(cs[0], 45), chEq(cs[0], 43)))) continue;
    if (decide(isDigitT(cs[k]))) { dig++; continue; }
    if (!dot && decide(chEq(cs[k], 46))) { dot = true; continue; }
    if (decide(T.or(chEq(cs[k], 101), chEq(cs[k], 69), chEq(cs[k], 73)))) return parseFloat(concStr(cs));
    break;
  }
  return dig ? strToNumber(mkStr(cs.slice(0, k))) : NaN;
}

// ---------------------------------------------------------------- JSON text
export function jsonQuote(v) {
  if (typeof v === "string") return JSON.stringify(v);
  return whole(jsonBase(v));
}
function jsonBase(v) {
  for (const b of R.opqs) if (b.kind === "jsonq" && sameData(b.data, v)) return b;
  // length: at least 2 + length; exact when no character can need an escape
  let safe = true;
  for (const c of v.cs) {
    if (isCh(c)) { const t = chT(c); if (!(t.lo >= 32 && t.hi < 0xd800) || mayBe(c, 34) || mayBe(c, 92)) safe = false; }
    else if (!(c.o.kind === "dec" || c.o.kind === "iso" || c.o.kind === "b64" || (c.o.alphabet && JSON.stringify(c.o.alphabet).length === c.o.alphabet.length + 2))) safe = false;
  }
  const n = lenT(v);
  let len;
  if (safe) len = T.add(n, T.int(2));
  else {
    // bounds on the quoted length of every part
    let lo = T.int(2), hi = T.int(2);
    for (const c of v.cs) {
      if (isCh(c)) {
        if (typeof c === "number") { const q = T.int(JSON.stringify(String.fromCharCode(c)).length - 2); lo = T.add(lo, q); hi = T.add(hi, q); }
        else { lo = T.add(lo, T.int(1)); hi = T.add(hi, T.int(6)); }
        continue;
      }
      let a = 1, b = 6;
      if (c.o.alphabet) { const w = [...new Set(c.o.alphabet)].map((x) => JSON.stringify(x).length - 2); a = Math.min(...w); b = Math.max(...w); }
      lo = T.add(lo, T.mul(T.int(a), c.n)); hi = T.add(hi, T.mul(T.int(b), c.n));
    }
    if (lo === hi) len = lo;
    else {
      len = newVar(T.intVar(`jsonq#len${R.fresh++}`, 2, Math.max(2, hi.hi)));
      assume(T.and(T.le(lo, len), T.le(len, hi)));
    }
  }
  const b = opqBase("jsonq", v, len);
  R.opqs.push(b);
  return b;
}
const mayBe = (c, k) => (typeof c === "number" ? c === k : T.eq(c, T.int(k)) !== T.FALSE && !R.pcset.has(T.not(T.eq(c, T.int(k)))));
const SHORT = { 8: "b", 9: "t", 10: "n", 12: "f", 13: "r" };
function hex4(t) { return [12, 8, 4, 0].map((sh) => { const d = T.modc(T.divc(t, 2 ** sh), 16); return T.ite(T.le(d, T.int(9)), T.add(d, T.int(48)), T.add(d, T.int(87))); }); }
export function jsonQuoteChars(v) {
  const out = [34];
  for (const c of expandSome(v)) {
    if (!isCh(c)) {
      if (c.o.kind === "b64" || (c.o.alphabet && JSON.stringify(c.o.alphabet).length === c.o.alphabet.length + 2)) { out.push(c); continue; }
      throw new Unsupported("JSON text of opaque data");
    }
    if (typeof c === "number") { const q = JSON.stringify(String.fromCharCode(c)); out.push(...codes(q.slice(1, -1))); continue; }
    if (decide(T.or(chEq(c, 34), chEq(c, 92)))) { out.push(92, c); continue; }
    if (decide(T.le(c, T.int(31)))) {
      if (decide(T.or(...Object.keys(SHORT).map((k) => chEq(c, Number(k)))))) {
        let e = T.int(114);
        for (const k of [8, 9, 10, 12]) e = T.ite(chEq(c, k), T.int(SHORT[k].charCodeAt(0)), e);
        out.push(92, e);
      } else out.push(92, 117, ...hex4(c));
      continue;
    }
    if (c.hi >= 0xd800 && decide(inRange(c, 0xd800, 0xdfff))) endPath("model", "surrogate in JSON text");
    out.push(c);
  }
  out.push(34);
  return out;
}
