// Numbers. A symbolic number is an Int term over a constant denominator (exact
// inside the safe-integer range, which is checked), or a Float64 term.
import * as T from "./terms.mjs";
import { R, SymBool, SymNum, SymStr, Unsupported, decide, concretize, endPath } from "./core.mjs";
import { strToNumber } from "./str.mjs";

const LIM = 9007199254740992;
export const isSafe = (t) => t.lo >= -LIM && t.hi <= LIM;
export function mkInt(t, den = 1) {
  if (t.op === "int") return t.val / den;
  if (!isSafe(t)) {
    const bad = T.or(T.le(t, T.int(-LIM)), T.le(T.int(LIM), t));
    if (R.ex.check(R.pc, bad, []) !== "unsat") throw new Unsupported("integer may leave the safe range: " + T.show(t, 3));
  }
  return new SymNum(t, den);
}
export const mkFP = (t) => (t.op === "fp" ? t.val : new SymNum(t, 1));
export const mkBool = (t) => (t === T.TRUE ? true : t === T.FALSE ? false : new SymBool(t));
export const bterm = (v) => (v instanceof SymBool ? v.t : T.bool(v));

export function toNum(v) {
  if (typeof v === "number" || v instanceof SymNum) return v;
  if (v instanceof SymBool) return mkInt(T.ite(v.t, T.int(1), T.int(0)));
  if (v instanceof SymStr) return strToNumber(v);
  if (v && typeof v === "object") {
    if (v.$t !== undefined) return v.$t;
    if (v instanceof Date) return v.getTime();
    const p = v.valueOf();
    if (p !== v && (typeof p !== "object" || p instanceof SymNum)) return toNum(p);
  }
  return Number(v);
}
const isFP = (v) => v instanceof SymNum && v.t.sort === "FP";
export function fpTerm(v) {
  if (typeof v === "number") return T.fp(v);
  if (v.t.sort === "FP") return v.t;
  const f = T.i2f(v.t);
  return v.den === 1 ? f : T.fpbin("fp.div", f, T.fp(v.den));
}
// [numerator term, den] of an exact number, or undefined
function rat(v) {
  if (v instanceof SymNum) return v.t.sort === "Int" ? [v.t, v.den] : undefined;
  if (Number.isInteger(v) && Math.abs(v) <= LIM) return [T.int(v), 1];
  // dyadic or short decimal constants
  if (Number.isFinite(v)) for (let d = 2; d <= 1e6; d *= d < 1024 ? 2 : 10) if (Number.isInteger(v * d) && Math.abs(v * d) < 2 ** 40) return [T.int(v * d), d];
  if (Number.isFinite(v)) for (let d = 10; d <= 1e9; d *= 10) { const n = Math.round(v * d); if (n / d === v && Math.abs(n) < 2 ** 40) return [T.int(n), d]; }
  return undefined;
}
const gcd = (a, b) => (b ? gcd(b, a % b) : a);

// smallest integer x with fl(x/den) >= k, k a finite double
function threshold(k, den, strict) {
  const ok = (x) => (strict ? x / den > k : x / den >= k);
  let x = Math.floor(k * den);
  if (!Number.isSafeInteger(x)) throw new Unsupported("constant out of range in a comparison");
  while (ok(x)) x--;
  while (!ok(x)) x++;
  return x;
}
// a < b
function ltT(a, b) {
  if (typeof a === "number" && typeof b === "number") return T.bool(a < b);
  if (isFP(a) || isFP(b)) return T.fplt(fpTerm(a), fpTerm(b));
  if (typeof b === "number") {
    if (Number.isNaN(b)) return T.FALSE;
    if (!Number.isFinite(b)) return T.bool(b > 0);
    return T.lt(a.t, T.int(threshold(b, a.den, false))); // a/den >= b  <=>  a >= thr
  }
  if (typeof a === "number") {
    if (Number.isNaN(a)) return T.FALSE;
    if (!Number.isFinite(a)) return T.bool(a < 0);
    return T.le(T.int(threshold(a, b.den, true)), b.t);
  }
  const [x, y] = cross(a, b);
  return T.lt(x, y);
}
function cross(a, b) {
  if (a.den === b.den) return [a.t, b.t];
  const g = gcd(a.den, b.den);
  return [T.mul(a.t, T.int(b.den / g)), T.mul(b.t, T.int(a.den / g))];
}
export function cmp(op, a, b) {
  switch (op) {
    case "<": return ltT(a, b);
    case ">": return ltT(b, a);
    case "<=": return leT(a, b);
    case ">=": return leT(b, a);
  }
}
function leT(a, b) {
  if (typeof a === "number" && typeof b === "number") return T.bool(a <= b);
  if (isFP(a) || isFP(b)) return T.fple(fpTerm(a), fpTerm(b));
  if ((typeof a === "number" && Number.isNaN(a)) || (typeof b === "number" && Number.isNaN(b))) return T.FALSE;
  return T.not(ltT(b, a));
}
export function numEq(a, b) {
  if (typeof a === "number" && typeof b === "number") return T.bool(a === b);
  if (isFP(a) || isFP(b)) return T.fpeq(fpTerm(a), fpTerm(b));
  if (typeof a === "number") [a, b] = [b, a];
  if (typeof b === "number") {
    if (!Number.isFinite(b)) return T.FALSE;
    const x = threshold(b, a.den, false);
    return x / a.den === b ? T.eq(a.t, T.int(x)) : T.FALSE;
  }
  const [x, y] = cross(a, b);
  return T.eq(x, y);
}
export function arith(op, a, b) {
  if (typeof a === "number" && typeof b === "number") {
    switch (op) {
      case "+": return a + b;
      case "-": return a - b;
      case "*": return a * b;
      case "/": return a / b;
      case "%": return a % b;
      case "**": return a ** b;
      case "&": return a & b;
      case "|": return a | b;
      case "^": return a ^ b;
      case "<<": return a << b;
      case ">>": return a >> b;
      case ">>>": return a >>> b;
    }
  }
  if (typeof a === "number" && Number.isNaN(a) && "+-*/%".includes(op)) return NaN;
  if (typeof b === "number" && Number.isNaN(b) && "+-*/%".includes(op)) return NaN;
  const fpArgs = isFP(a) || isFP(b);
  if (!fpArgs && "+-*/%".includes(op)) {
    const x = rat(a), y = rat(b);
    if (x && y) {
      switch (op) {
        case "+": case "-": {
          const g = gcd(x[1], y[1]);
          const den = (x[1] / g) * y[1];
          const p = T.mul(x[0], T.int(den / x[1])), q = T.mul(y[0], T.int(den / y[1]));
          return mkRat(op === "+" ? T.add(p, q) : T.sub(p, q), den);
        }
        case "*": return mkRat(T.mul(x[0], y[0]), x[1] * y[1]);
        case "/": {
          if (y[0].op === "int" && y[0].val !== 0) {
            const s = y[0].val < 0 ? -1 : 1;
            return mkRat(T.mul(x[0], T.int(y[1] * s)), x[1] * Math.abs(y[0].val));
          }
          if (typeof b === "number") { // division by zero
            if (decide(T.eq(x[0], T.int(0)))) return NaN;
            return decide(T.lt(x[0], T.int(0))) ? -1 / b : 1 / b;
          }
          const v = concretize(b.t, "divisor");
          return arith("/", a, v / b.den);
        }
        case "%": {
          if (y[0].op !== "int") return arith("%", a, concretize(b.t, "modulus") / b.den);
          if (y[0].val === 0) return NaN;
          // fmod of decimals is not the rational remainder in general
          if (x[1] !== 1 || y[1] !== 1) {
            if (y[0].val === 1 && y[1] === 1) return mkRat(rem(x[0], x[1]), x[1]);
            break;
          }
          return mkRat(rem(x[0], Math.abs(y[0].val)), 1);
        }
      }
    }
  }
  switch (op) {
    case "+": return mkFP(T.fpbin("fp.add", fpTerm(a), fpTerm(b)));
    case "-": return mkFP(T.fpbin("fp.sub", fpTerm(a), fpTerm(b)));
    case "*": return mkFP(T.fpbin("fp.mul", fpTerm(a), fpTerm(b)));
    case "/": return mkFP(T.fpbin("fp.div", fpTerm(a), fpTerm(b)));
    case "**":
      if (b === 2) return arith("*", a, a);
      if (b === 1) return a;
      return arith(op, conc(a), conc(b));
    default: return arith(op, conc(a), conc(b));
  }
}
export function conc(v) {
  if (!(v instanceof SymNum)) return v;
  return v.t.sort === "FP" ? concretize(v.t) : concretize(v.t) / v.den;
}
function rem(t, c) {
  if (t.lo >= 0) return T.modc(t, c);
  return T.ite(T.le(T.int(0), t), T.modc(t, c), T.neg(T.modc(T.neg(t), c)));
}
function mkRat(t, den) {
  if (den !== 1 && t.op === "*" && t.args[0].op === "int") {
    const g = gcd(Math.abs(t.args[0].val), den);
    if (g > 1) return mkRat(T.mul(T.int(t.args[0].val / g), t.args[1]), den / g);
  }
  if (den > LIM) throw new Unsupported("denominator too large");
  return mkInt(t, den);
}
export const negNum = (v) => (typeof v === "number" ? -v : v.t.sort === "FP" ? mkFP(T.fpneg(v.t)) : mkInt(T.neg(v.t), v.den));
export const isNaNT = (v) => (typeof v === "number" ? T.bool(Number.isNaN(v)) : v.t.sort === "FP" ? T.fpIsNaN(v.t) : T.FALSE);
export const isFiniteT = (v) => (typeof v === "number" ? T.bool(Number.isFinite(v)) : v.t.sort === "FP" ? T.not(T.or(T.fpIsNaN(v.t), T.fpIsInf(v.t))) : T.TRUE);
export function isIntegerT(v) {
  if (typeof v === "number") return T.bool(Number.isInteger(v));
  if (v.t.sort === "FP") return T.and(isFiniteT(v), T.fpeq(v.t, T.fpround("RTZ", v.t)));
  return v.den === 1 ? T.TRUE : T.eq(T.modc(v.t, v.den), T.int(0));
}
export function floorNum(v) {
  if (typeof v === "number") return Math.floor(v);
  if (v.t.sort === "FP") return mkFP(T.fpround("RTN", v.t));
  return mkInt(T.divc(v.t, v.den));
}
export function ceilNum(v) {
  if (typeof v === "number") return Math.ceil(v);
  if (v.t.sort === "FP") return mkFP(T.fpround("RTP", v.t));
  return mkInt(T.neg(T.divc(T.neg(v.t), v.den)));
}
export function truncNum(v) {
  if (typeof v === "number") return Math.trunc(v);
  if (v.t.sort === "FP") return mkFP(T.fpround("RTZ", v.t));
  if (v.den === 1) return v;
  if (v.t.lo >= 0) return floorNum(v);
  return mkInt(T.ite(T.le(T.int(0), v.t), T.divc(v.t, v.den), T.neg(T.divc(T.neg(v.t), v.den))));
}
export function roundNum(v) {
  if (typeof v === "number") return Math.round(v);
  if (v.t.sort === "FP") return mkFP(T.fpround("RTN", T.fpbin("fp.add", v.t, T.fp(0.5)))); // 0.49999999999999994 aside
  return mkInt(T.divc(T.add(T.mul(T.int(2), v.t), T.int(v.den)), 2 * v.den));
}
export function absNum(v) {
  if (typeof v === "number") return Math.abs(v);
  if (v.t.sort === "FP") return mkFP(T.fpabs(v.t));
  if (v.t.lo >= 0) return v;
  return mkInt(T.ite(T.le(T.int(0), v.t), v.t, T.neg(v.t)), v.den);
}
export function minmax(isMax, xs) {
  let acc = isMax ? -Infinity : Infinity;
  for (const x0 of xs) {
    const x = toNum(x0);
    if (typeof x === "number" && typeof acc === "number") { acc = isMax ? Math.max(acc, x) : Math.min(acc, x); continue; }
    if (acc === (isMax ? -Infinity : Infinity) && !isFP(x)) { acc = x; continue; }
    if ((typeof x === "number" && Number.isNaN(x)) || (typeof acc === "number" && Number.isNaN(acc))) { acc = NaN; continue; }
    if (isFP(x) || isFP(acc)) {
      const p = fpTerm(acc), q = fpTerm(x);
      const c = T.or(T.fpIsNaN(p), isMax ? T.fplt(q, p) : T.fplt(p, q));
      acc = mkFP(T.ite(c, p, T.ite(T.fpIsNaN(q), q, q)));
      continue;
    }
    const c = isMax ? leT(x, acc) : leT(acc, x);
    const a = rat(acc), b = rat(x);
    if (!a || !b) { acc = decide(c) ? acc : x; continue; }
    const g = gcd(a[1], b[1]), den = (a[1] / g) * b[1];
    acc = mkInt(T.ite(c, T.mul(a[0], T.int(den / a[1])), T.mul(b[0], T.int(den / b[1]))), den);
  }
  return acc;
}
export const numTruth = (v) => (v.t.sort === "FP" ? T.not(T.or(T.fpIsNaN(v.t), T.fpeq(v.t, T.fp(0)))) : T.not(T.eq(v.t, T.int(0))));
