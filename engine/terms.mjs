// Hash-consed SMT terms over Bool, Int and Float64, with constant folding and
// interval reasoning. The store is global to the process, so re-executing a
// path rebuilds the very same nodes (and the very same solver-side names).
const table = new Map();
let nextId = 1;

function mk(op, sort, args, val, lo, hi) {
  let key = op + "|" + sort + "|";
  for (const a of args) key += a.id + ",";
  if (val !== undefined) key += "|" + (typeof val === "number" ? (Object.is(val, -0) ? "-0" : String(val)) : val);
  // the same input may have other bounds on another path
  if (op === "var" && lo !== undefined) key += "|" + lo + "|" + hi;
  let t = table.get(key);
  if (t) return t;
  t = { id: nextId++, op, sort, args, val, lo, hi };
  table.set(key, t);
  return t;
}
export const termCount = () => table.size;

// ---------------------------------------------------------------- Bool
export const TRUE = mk("true", "Bool", []);
export const FALSE = mk("false", "Bool", []);
export const bool = (b) => (b ? TRUE : FALSE);
export const isConst = (t) => t.op === "true" || t.op === "false" || t.op === "int" || t.op === "fp";
export const boolVar = (name) => mk("var", "Bool", [], name);

export function not(a) {
  if (a === TRUE) return FALSE;
  if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  return mk("not", "Bool", [a]);
}
function nary(op, unit, zero, xs) {
  const out = [];
  const seen = new Set();
  const push = (x) => {
    if (x === unit) return true;
    if (x === zero) return false;
    if (x.op === op) {
      for (const y of x.args) if (!push(y)) return false;
      return true;
    }
    if (seen.has(x.id)) return true;
    if (seen.has(not(x).id)) return false;
    seen.add(x.id);
    out.push(x);
    return true;
  };
  for (const x of xs) if (!push(x)) return zero;
  if (out.length === 0) return unit;
  if (out.length === 1) return out[0];
  return mk(op, "Bool", out);
}
export const and = (...xs) => nary("and", TRUE, FALSE, xs);
export const or = (...xs) => nary("or", FALSE, TRUE, xs);
export const implies = (a, b) => or(not(a), b);

export function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a === b) return a;
  if (a.sort === "Bool") {
    if (a === TRUE && b === FALSE) return c;
    if (a === FALSE && b === TRUE) return not(c);
    if (a === TRUE) return or(c, b);
    if (a === FALSE) return and(not(c), b);
    if (b === TRUE) return or(not(c), a);
    if (b === FALSE) return and(c, a);
  }
  let lo, hi;
  if (a.sort === "Int") {
    lo = Math.min(a.lo, b.lo);
    hi = Math.max(a.hi, b.hi);
  }
  return mk("ite", a.sort, [c, a, b], undefined, lo, hi);
}

// ---------------------------------------------------------------- Int
export function int(n) {
  if (!Number.isInteger(n)) throw new Error("terms.int: " + n);
  if (n === 0) n = 0;
  return mk("int", "Int", [], n, n, n);
}
export const intVar = (name, lo = -Infinity, hi = Infinity) => mk("var", "Int", [], name, lo, hi);

export function add(a, b) {
  if (a.op === "int" && b.op === "int") return int(a.val + b.val);
  if (a.op === "int") [a, b] = [b, a];
  if (b.op === "int" && b.val === 0) return a;
  // (x + c1) + c2
  if (b.op === "int" && a.op === "+" && a.args[1].op === "int") return add(a.args[0], int(a.args[1].val + b.val));
  if (a.op === "+" && a.args[1].op === "int" && b.op !== "int") return add(add(a.args[0], b), a.args[1]);
  if (b.op === "+" && b.args[1].op === "int") return add(add(a, b.args[0]), b.args[1]);
  // x + (-1 * x)
  if (neg(a) === b) return int(0);
  // cancel inside a one-level sum: (x + y) + (-x)
  if (a.op === "+" && a.args[1].op !== "int") {
    if (neg(a.args[0]) === b) return a.args[1];
    if (neg(a.args[1]) === b) return a.args[0];
  }
  return mk("+", "Int", [a, b], undefined, a.lo + b.lo, a.hi + b.hi);
}
export function neg(a) {
  if (a.op === "int") return int(-a.val);
  if (a.op === "*" && a.args[0].op === "int") return mulc(a.args[1], -a.args[0].val);
  if (a.op === "+" && a.args[1].op === "int") return add(mulc(a.args[0], -1), int(-a.args[1].val));
  return mulc(a, -1);
}
function mulc(a, c) {
  if (c === 0) return int(0);
  if (c === 1) return a;
  if (a.op === "int") return int(a.val * c);
  if (a.op === "*" && a.args[0].op === "int") return mulc(a.args[1], a.args[0].val * c);
  const x = a.lo * c, y = a.hi * c;
  return mk("*", "Int", [int(c), a], undefined, Math.min(x, y), Math.max(x, y));
}
export const sub = (a, b) => (a === b ? int(0) : add(a, neg(b)));
const m0 = (x, y) => (x === 0 || y === 0 ? 0 : x * y);
export function mul(a, b) {
  if (a.op === "int") return mulc(b, a.val);
  if (b.op === "int") return mulc(a, b.val);
  const c = [m0(a.lo, b.lo), m0(a.lo, b.hi), m0(a.hi, b.lo), m0(a.hi, b.hi)];
  return mk("*", "Int", [a, b], undefined, Math.min(...c), Math.max(...c));
}
// floor division / modulo by a positive constant
export function divc(a, c) {
  if (c <= 0) throw new Error("divc");
  if (c === 1) return a;
  if (a.op === "int") return int(Math.floor(a.val / c));
  return mk("div", "Int", [a, int(c)], undefined, Math.floor(a.lo / c), Math.floor(a.hi / c));
}
export function modc(a, c) {
  if (c <= 0) throw new Error("modc");
  if (c === 1) return int(0);
  if (a.op === "int") return int(((a.val % c) + c) % c);
  if (a.lo >= 0 && a.hi < c) return a;
  return mk("mod", "Int", [a, int(c)], undefined, 0, c - 1);
}
const iteC = (t) => t.args[1].op === "int" || t.args[2].op === "int";
export function le(a, b) {
  if (a.sort === "FP") return fple(a, b);
  if (a === b) return TRUE;
  if (a.op === "int" && b.op === "int") return bool(a.val <= b.val);
  if (a.hi <= b.lo) return TRUE;
  if (a.lo > b.hi) return FALSE;
  // move constants: x + c <= d
  if (a.op === "+" && a.args[1].op === "int" && b.op === "int") return le(a.args[0], int(b.val - a.args[1].val));
  if (b.op === "+" && b.args[1].op === "int" && a.op === "int") return le(int(a.val - b.args[1].val), b.args[0]);
  if (a.op === "+" && a.args[1].op === "int" && b.op === "+" && b.args[1].op === "int") {
    const d = a.args[1].val - b.args[1].val;
    if (d !== 0) return d > 0 ? le(add(a.args[0], int(d)), b.args[0]) : le(a.args[0], add(b.args[0], int(-d)));
    return le(a.args[0], b.args[0]);
  }
  if (a.op === "ite" && b.op === "int" && iteC(a)) return ite(a.args[0], le(a.args[1], b), le(a.args[2], b));
  if (b.op === "ite" && a.op === "int" && iteC(b)) return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]));
  if (a.op === "int") return not(mk("<=", "Bool", [b, int(a.val - 1)])) ;
  return mk("<=", "Bool", [a, b]);
}
export const lt = (a, b) => (a.sort === "FP" ? fplt(a, b) : not(le(b, a)));
export function eq(a, b) {
  if (a === b) return a.sort === "FP" ? not(fpIsNaN(a)) : TRUE;
  if (a.sort === "Bool") {
    if (a === TRUE) return b;
    if (b === TRUE) return a;
    if (a === FALSE) return not(b);
    if (b === FALSE) return not(a);
    if (not(a) === b) return FALSE;
  } else if (a.sort === "Int") {
    if (a.op === "int" && b.op === "int") return bool(a.val === b.val);
    if (a.hi < b.lo || b.hi < a.lo) return FALSE;
    if (a.op === "+" && a.args[1].op === "int" && b.op === "int") return eq(a.args[0], int(b.val - a.args[1].val));
    if (b.op === "+" && b.args[1].op === "int" && a.op === "int") return eq(b.args[0], int(a.val - b.args[1].val));
    if (a.op === "+" && b.op === "+") {
      if (a.args[0] === b.args[0]) return eq(a.args[1], b.args[1]);
      if (a.args[1] === b.args[1]) return eq(a.args[0], b.args[0]);
    }
    if (a.op === "ite" && b.op === "int" && iteC(a)) return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
    if (b.op === "ite" && a.op === "int" && iteC(b)) return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a));
  } else {
    return fpeq(a, b);
  }
  if (a.id > b.id) [a, b] = [b, a];
  return mk("=", "Bool", [a, b]);
}

// ---------------------------------------------------------------- Float64
export const fp = (x) => mk("fp", "FP", [], Number.isNaN(x) ? NaN : x);
export const fpVar = (name) => mk("var", "FP", [], name);
const bothC = (a, b) => a.op === "fp" && b.op === "fp";
export function fpbin(op, a, b) {
  if (bothC(a, b)) {
    switch (op) {
      case "fp.add": return fp(a.val + b.val);
      case "fp.sub": return fp(a.val - b.val);
      case "fp.mul": return fp(a.val * b.val);
      case "fp.div": return fp(a.val / b.val);
    }
  }
  return mk(op, "FP", [a, b]);
}
export function fpneg(a) { return a.op === "fp" ? fp(-a.val) : a.op === "fp.neg" ? a.args[0] : mk("fp.neg", "FP", [a]); }
export function fpabs(a) { return a.op === "fp" ? fp(Math.abs(a.val)) : mk("fp.abs", "FP", [a]); }
export function fpsqrt(a) { return a.op === "fp" ? fp(Math.sqrt(a.val)) : mk("fp.sqrt", "FP", [a]); }
export function fpround(mode, a) { // mode: RTN floor, RTP ceil, RTZ trunc
  if (a.op === "fp") return fp(mode === "RTN" ? Math.floor(a.val) : mode === "RTP" ? Math.ceil(a.val) : Math.trunc(a.val));
  return mk("fp.rti", "FP", [a], mode);
}
export function fplt(a, b) { return bothC(a, b) ? bool(a.val < b.val) : a === b ? FALSE : mk("fp.lt", "Bool", [a, b]); }
export function fple(a, b) { return bothC(a, b) ? bool(a.val <= b.val) : mk("fp.leq", "Bool", [a, b]); }
export function fpeq(a, b) {
  if (bothC(a, b)) return bool(a.val === b.val);
  if (a.op === "fp" && Number.isNaN(a.val)) return FALSE;
  if (b.op === "fp" && Number.isNaN(b.val)) return FALSE;
  if (a.id > b.id) [a, b] = [b, a];
  return mk("fp.eq", "Bool", [a, b]);
}
export function fpIsNaN(a) {
  if (a.op === "fp") return bool(Number.isNaN(a.val));
  if (a.op === "i2f") return FALSE;
  return mk("fp.isNaN", "Bool", [a]);
}
export function fpIsInf(a) { return a.op === "fp" ? bool(Math.abs(a.val) === Infinity) : a.op === "i2f" ? FALSE : mk("fp.isInf", "Bool", [a]); }
// identity of doubles as SMT values (Object.is, except that all NaN are one)
export function fpsame(a, b) { if (a === b) return TRUE; if (bothC(a, b)) return bool(Object.is(a.val, b.val)); return mk("=", "Bool", a.id > b.id ? [b, a] : [a, b]); }
export function i2f(a) { return a.op === "int" ? fp(a.val) : mk("i2f", "FP", [a]); }
// uninterpreted total function FP^n -> FP
export function uf(name, args) { return mk("uf", "FP", args, name); }

// ---------------------------------------------------------------- evaluation under a model
// model: Map(varname -> number|boolean); missing names get a default.
export function evaluate(root, model, cache = new Map()) {
  const ev = (t) => {
    if (cache.has(t.id)) return cache.get(t.id);
    let r;
    const A = t.args;
    switch (t.op) {
      case "true": r = true; break;
      case "false": r = false; break;
      case "int": case "fp": r = t.val; break;
      case "var":
        r = model.get(t.val);
        if (r === undefined) r = t.sort === "Bool" ? false : t.sort === "Int" ? (t.lo > 0 ? t.lo : t.hi < 0 ? t.hi : 0) : 0;
        break;
      case "not": r = !ev(A[0]); break;
      case "and": r = A.every(ev); break;
      case "or": r = A.some(ev); break;
      case "ite": r = ev(A[0]) ? ev(A[1]) : ev(A[2]); break;
      case "=": r = t.args[0].sort === "FP" ? Object.is(ev(A[0]), ev(A[1])) : ev(A[0]) === ev(A[1]); break;
      case "+": r = ev(A[0]) + ev(A[1]); break;
      case "*": r = ev(A[0]) * ev(A[1]); break;
      case "div": r = Math.floor(ev(A[0]) / ev(A[1])); break;
      case "mod": { const m = ev(A[1]); r = ((ev(A[0]) % m) + m) % m; break; }
      case "<=": r = ev(A[0]) <= ev(A[1]); break;
      case "fp.add": r = ev(A[0]) + ev(A[1]); break;
      case "fp.sub": r = ev(A[0]) - ev(A[1]); break;
      case "fp.mul": r = ev(A[0]) * ev(A[1]); break;
      case "fp.div": r = ev(A[0]) / ev(A[1]); break;
      case "fp.neg": r = -ev(A[0]); break;
      case "fp.abs": r = Math.abs(ev(A[0])); break;
      case "fp.sqrt": r = Math.sqrt(ev(A[0])); break;
      case "fp.rti": r = t.val === "RTN" ? Math.floor(ev(A[0])) : t.val === "RTP" ? Math.ceil(ev(A[0])) : Math.trunc(ev(A[0])); break;
      case "fp.lt": r = ev(A[0]) < ev(A[1]); break;
      case "fp.leq": r = ev(A[0]) <= ev(A[1]); break;
      case "fp.eq": r = ev(A[0]) === ev(A[1]); break;
      case "fp.isNaN": r = Number.isNaN(ev(A[0])); break;
      case "fp.isInf": r = Math.abs(ev(A[0])) === Infinity; break;
      case "i2f": r = ev(A[0]); break;
      default: throw new EvalUnknown(t.op);
    }
    cache.set(t.id, r);
    return r;
  };
  return ev(root);
}
export class EvalUnknown extends Error {}

export function vars(root, out = new Map(), seen = new Set()) {
  const st = [root];
  while (st.length) {
    const t = st.pop();
    if (seen.has(t.id)) continue;
    seen.add(t.id);
    if (t.op === "var") out.set(t.val, t);
    for (const a of t.args) st.push(a);
  }
  return out;
}

// ---------------------------------------------------------------- SMT-LIB
const f64 = new Float64Array(1);
const u64 = new BigUint64Array(f64.buffer);
export function fpLit(x) {
  if (Number.isNaN(x)) return "(_ NaN 11 53)";
  f64[0] = x;
  const bits = u64[0].toString(2).padStart(64, "0");
  return `(fp #b${bits[0]} #b${bits.slice(1, 12)} #b${bits.slice(12)})`;
}
export const SORT = { Bool: "Bool", Int: "Int", FP: "(_ FloatingPoint 11 53)" };
const sym = (s) => "|" + s.replace(/[|\\]/g, "_") + "|";
const intLit = (n) => (n < 0 ? `(- ${BigInt(-n)})` : `${BigInt(n)}`);

// Emits whatever `root` still needs (declarations and definitions, once per
// solver) through `send`, and returns an expression naming it.
export function emit(root, done, send) {
  const name = (t) => {
    switch (t.op) {
      case "true": case "false": return t.op;
      case "int": return intLit(t.val);
      case "fp": return fpLit(t.val);
      case "var": return sym(t.val);
      default: return "n" + t.id;
    }
  };
  const stack = [[root, false]];
  while (stack.length) {
    const [t, ready] = stack.pop();
    if (done.has(t.id)) continue;
    if (t.op === "true" || t.op === "false" || t.op === "int" || t.op === "fp") continue;
    if (t.op === "var") {
      done.add(t.id);
      const n = "v:" + t.val;
      if (!done.has(n)) {
        done.add(n);
        send(`(declare-const ${sym(t.val)} ${SORT[t.sort]})`);
      }
      continue;
    }
    if (!ready) {
      stack.push([t, true]);
      for (const a of t.args) stack.push([a, false]);
      continue;
    }
    done.add(t.id);
    const A = t.args.map(name);
    let body;
    switch (t.op) {
      case "fp.add": case "fp.sub": case "fp.mul": case "fp.div": body = `(${t.op} RNE ${A.join(" ")})`; break;
      case "fp.sqrt": body = `(fp.sqrt RNE ${A[0]})`; break;
      case "fp.rti": body = `(fp.roundToIntegral ${t.val} ${A[0]})`; break;
      case "fp.isInf": body = `(fp.isInfinite ${A[0]})`; break;
      case "i2f": body = `((_ to_fp 11 53) RNE (to_real ${A[0]}))`; break;
      case "uf": {
        const k = "uf:" + t.val;
        if (!done.has(k)) {
          done.add(k);
          send(`(declare-fun ${sym(t.val)} (${t.args.map((a) => SORT[a.sort]).join(" ")}) ${SORT.FP})`);
        }
        body = `(${sym(t.val)} ${A.join(" ")})`;
        break;
      }
      default: body = `(${t.op} ${A.join(" ")})`;
    }
    send(`(define-fun n${t.id} () ${SORT[t.sort]} ${body})`);
  }
  return name(root);
}
export function show(t, depth = 4) {
  switch (t.op) {
    case "true": case "false": return t.op;
    case "int": case "fp": return String(t.val);
    case "var": return t.val;
  }
  if (depth === 0) return "…";
  return `(${t.op}${t.val !== undefined ? ":" + t.val : ""} ${t.args.map((a) => show(a, depth - 1)).join(" ")})`;
}

// the declared range of an Int variable, not folded away by its own interval
export function range(v) {
  const xs = [];
  if (v.lo > -Infinity) xs.push(mk("<=", "Bool", [int(v.lo), v]));
  if (v.hi < Infinity) xs.push(mk("<=", "Bool", [v, int(v.hi)]));
  return xs.length === 2 ? mk("and", "Bool", xs) : xs.length ? xs[0] : TRUE;
}
