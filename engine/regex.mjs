// JavaScript regular expressions over symbolic characters.
// test(): one boolean term (an NFA run over the characters); exec()/replace()/
// split(): a backtracking matcher that forks on character-class membership, in
// the order the language specifies.
import * as T from "./terms.mjs";
import { Opq, Unsupported, decide, step } from "./core.mjs";
import { inRange, items, chars, expandSome, mkStr, isWsT, chT, expandDollar } from "./str.mjs";

const DIGIT = [[48, 57]], WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
const SPACE = [[9, 13], [32, 32], [160, 160], [5760, 5760], [8192, 8202], [8232, 8233], [8239, 8239], [8287, 8287], [12288, 12288], [65279, 65279]];
const NL = [[10, 10], [13, 13], [8232, 8233]];
function invert(rs) {
  const s = norm(rs), out = [];
  let p = 0;
  for (const [a, b] of s) { if (a > p) out.push([p, a - 1]); p = b + 1; }
  if (p <= 0xffff) out.push([p, 0xffff]);
  return out;
}
function norm(rs) {
  const s = [...rs].sort((x, y) => x[0] - y[0]), out = [];
  for (const [a, b] of s) {
    const l = out[out.length - 1];
    if (l && a <= l[1] + 1) l[1] = Math.max(l[1], b); else out.push([a, b]);
  }
  return out;
}
// a Unicode property within the basic plane
const properties = new Map();
function property(name) {
  if (!properties.has(name)) {
    const re = new RegExp(`^\\p{${name}}$`, "u"), rs = [];
    for (let c = 0; c <= 0xffff; c++) if ((c < 0xd800 || c > 0xdfff) && re.test(String.fromCharCode(c))) { const l = rs[rs.length - 1]; if (l && l[1] === c - 1) l[1] = c; else rs.push([c, c]); }
    properties.set(name, rs);
  }
  return properties.get(name);
}
const cache = new Map();
export function compile(re) {
  const key = re.flags + "/" + re.source;
  if (cache.has(key)) return cache.get(key);
  const r = parse(re.source, re.flags);
  cache.set(key, r);
  return r;
}
function parse(src, flags) {
  let i = 0, ncap = 0, simple = true;
  const names = {};
  const icase = flags.includes("i"), dotall = flags.includes("s");
  const bad = (w) => { throw new Unsupported("regular expression: " + w + " in /" + src + "/"); };
  const cls = (rs) => {
    rs = norm(rs);
    if (icase) {
      const ex = [];
      for (const [a, b] of rs) for (let c = Math.max(a, 65); c <= Math.min(b, 122); c++) { if (c >= 65 && c <= 90) ex.push([c + 32, c + 32]); else if (c >= 97) ex.push([c - 32, c - 32]); }
      rs = norm(rs.concat(ex));
    }
    return { k: "c", rs };
  };
  function alt() {
    const xs = [seq()];
    while (src[i] === "|") { i++; xs.push(seq()); }
    return xs.length === 1 ? xs[0] : { k: "alt", xs };
  }
  function seq() {
    const xs = [];
    while (i < src.length && src[i] !== "|" && src[i] !== ")") xs.push(quant(atom()));
    return { k: "seq", xs };
  }
  function quant(a) {
    const ch = src[i];
    let min, max;
    if (ch === "*") [min, max] = [0, Infinity];
    else if (ch === "+") [min, max] = [1, Infinity];
    else if (ch === "?") [min, max] = [0, 1];
    else if (ch === "{") {
      const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i));
      if (!m) return a;
      min = Number(m[1]); max = m[2] === undefined ? min : m[3] === "" ? Infinity : Number(m[3]);
      i += m[0].length - 1;
    } else return a;
    i++;
    let lazy = false;
    if (src[i] === "?") { lazy = true; i++; }
    return { k: "q", a, min, max, lazy };
  }
  function esc(inClass) {
    const c = src[++i];
    i++;
    switch (c) {
      case "d": return DIGIT;
      case "D": return invert(DIGIT);
      case "w": return WORD;
      case "W": return invert(WORD);
      case "s": return SPACE;
      case "S": return invert(SPACE);
      case "n": return [[10, 10]];
      case "r": return [[13, 13]];
      case "t": return [[9, 9]];
      case "f": return [[12, 12]];
      case "v": return [[11, 11]];
      case "0": return [[0, 0]];
      case "b": if (inClass) return [[8, 8]]; break;
      case "x": { const n = parseInt(src.substr(i, 2), 16); i += 2; return [[n, n]]; }
      case "u": {
        if (src[i] === "{") bad("\\u{}");
        const n = parseInt(src.substr(i, 4), 16); i += 4; return [[n, n]];
      }
      case "p": case "P": {
        const m = /^\{([^}]+)\}/.exec(src.slice(i));
        if (!m || !/[uv]/.test(flags)) bad("\\" + c);
        i += m[0].length;
        const rs = property(m[1]);
        return c === "p" ? rs : invert(rs.concat([[0xd800, 0xdfff]]));
      }
      case "k": bad("\\" + c);
    }
    if (/[1-9]/.test(c) && !inClass) bad("backreference");
    return [[c.charCodeAt(0), c.charCodeAt(0)]];
  }
  function atom() {
    const c = src[i];
    if (c === "^") { i++; return { k: "^" }; }
    if (c === "$") { i++; return { k: "$" }; }
    if (c === ".") { i++; return { k: "c", rs: dotall ? [[0, 0xffff]] : invert(NL) }; }
    if (c === "(") {
      i++;
      let cap = -1, look;
      if (src[i] === "?") {
        if (src[i + 1] === ":") i += 2;
        else if (src[i + 1] === "=" || src[i + 1] === "!") { look = src[i + 1]; i += 2; simple = false; }
        else if (src[i + 1] === "<" && src[i + 2] !== "=" && src[i + 2] !== "!") {
          const e = src.indexOf(">", i);
          cap = ++ncap; names[src.slice(i + 2, e)] = cap; i = e + 1;
        } else bad("lookbehind");
      } else cap = ++ncap;
      const a = alt();
      i++;
      if (look) return { k: "look", neg: look === "!", a };
      return cap > 0 ? { k: "g", cap, a } : a;
    }
    if (c === "[") {
      i++;
      let neg = false;
      if (src[i] === "^") { neg = true; i++; }
      let rs = [];
      while (src[i] !== "]") {
        let lo;
        if (src[i] === "\\") lo = esc(true); else { const n = src.charCodeAt(i++); lo = [[n, n]]; }
        if (src[i] === "-" && src[i + 1] !== "]" && lo.length === 1 && lo[0][0] === lo[0][1]) {
          i++;
          let hi;
          if (src[i] === "\\") hi = esc(true); else { const n = src.charCodeAt(i++); hi = [[n, n]]; }
          rs.push([lo[0][0], hi[0][1]]);
        } else rs.push(...lo.map((x) => [...x]));
      }
      i++;
      const k = cls(rs);
      return neg ? { k: "c", rs: invert(k.rs) } : k;
    }
    if (c === "\\") {
      if (src[i + 1] === "b" || src[i + 1] === "B") { i += 2; simple = false; return { k: "b", neg: src[i - 1] === "B" }; }
      return cls(esc(false));
    }
    i++;
    return cls([[c.charCodeAt(0), c.charCodeAt(0)]]);
  }
  const ast = alt();
  return { ast, ncap, names, simple, multi: flags.includes("m"), flags, nfa: undefined };
}
export const inClass = (c, rs) => T.or(...rs.map(([a, b]) => inRange(c, a, b)));

// ---------------------------------------------------------------- NFA
function buildNfa(ast) {
  const eps = [], tr = [];
  const state = () => { eps.push([]); tr.push(undefined); return eps.length - 1; };
  function go(n, s) {
    switch (n.k) {
      case "c": { const e = state(); tr[s] = tr[s] ?? []; tr[s].push([n.rs, e]); return e; }
      case "^": case "$": { const e = state(); eps[s].push([e, n.k]); return e; }
      case "seq": for (const x of n.xs) s = go(x, s); return s;
      case "alt": { const e = state(); for (const x of n.xs) { const a = state(); eps[s].push([a]); eps[go(x, a)].push([e]); } return e; }
      case "g": return go(n.a, s);
      case "q": {
        for (let k = 0; k < n.min; k++) s = go(n.a, s);
        if (n.max === Infinity) {
          const a = state(), e = state();
          eps[s].push([a]); eps[a].push([e]);
          eps[go(n.a, a)].push([a]);
          return e;
        }
        const e = state();
        for (let k = n.min; k < n.max; k++) { eps[s].push([e]); const a = state(); eps[s].push([a]); s = go(n.a, a); }
        eps[s].push([e]);
        return e;
      }
    }
    throw new Error(n.k);
  }
  const start = state();
  const end = go(ast, start);
  return { eps, tr, start, end };
}
function testNfa(p, cs) {
  const { eps, tr, start, end } = (p.nfa ??= buildNfa(p.ast));
  const n = cs.length;
  let cur = new Map();
  const close = (m, i) => {
    const work = [...m.keys()];
    while (work.length) {
      const s = work.pop();
      for (const [e, cond] of eps[s]) {
        if (cond === "^" && i !== 0 && !p.multi) continue;
        if (cond === "$" && i !== n && !p.multi) continue;
        let g = T.TRUE;
        if (p.multi && cond === "^" && i !== 0) g = inClass(cs[i - 1], NL);
        if (p.multi && cond === "$" && i !== n) g = inClass(cs[i], NL);
        const old = m.get(e) ?? T.FALSE;
        const nw = T.or(old, T.and(m.get(s), g));
        if (nw !== old) { m.set(e, nw); work.push(e); }
      }
    }
  };
  let acc = T.FALSE;
  for (let i = 0; i <= n; i++) {
    cur.set(start, T.TRUE);
    close(cur, i);
    acc = T.or(acc, cur.get(end) ?? T.FALSE);
    if (acc === T.TRUE || i === n) break;
    const nx = new Map();
    for (const [s, g] of cur) for (const [rs, e] of tr[s] ?? []) {
      const t = T.and(g, inClass(cs[i], rs));
      if (t !== T.FALSE) nx.set(e, T.or(nx.get(e) ?? T.FALSE, t));
    }
    cur = nx;
    step();
  }
  return acc;
}

// ---------------------------------------------------------------- matcher
function cAt(c, rs) {
  if (c instanceof Opq) {
    if (c.o.alphabet && c.n.lo > 0 && [...c.o.alphabet].every((x) => !rs.some(([a, b]) => x.charCodeAt(0) >= a && x.charCodeAt(0) <= b))) return false;
    throw new Unsupported("regular expression inside opaque text");
  }
  return decide(inClass(c, rs));
}
const subset = (c, rs) => c.o.alphabet && [...c.o.alphabet].every((x) => rs.some(([a, b]) => x.charCodeAt(0) >= a && x.charCodeAt(0) <= b));
function matchAt(p, cs, start) {
  const caps = new Array(p.ncap + 1).fill(undefined);
  const m = (n, i, k) => {
    step();
    switch (n.k) {
      case "c": return i < cs.length && cAt(cs[i], n.rs) ? k(i + 1) : -1;
      case "^": return i === 0 || (p.multi && cAt(cs[i - 1], NL)) ? k(i) : -1;
      case "$": return i === cs.length || (p.multi && cAt(cs[i], NL)) ? k(i) : -1;
      case "b": {
        const a = i > 0 && cAt(cs[i - 1], WORD), b = i < cs.length && cAt(cs[i], WORD);
        return (a !== b) !== n.neg ? k(i) : -1;
      }
      case "seq": {
        const go = (j, q) => (j === n.xs.length ? k(q) : m(n.xs[j], q, (r) => go(j + 1, r)));
        return go(0, i);
      }
      case "alt": for (const x of n.xs) { const r = m(x, i, k); if (r >= 0) return r; } return -1;
      case "g": {
        const old = caps[n.cap];
        const r = m(n.a, i, (j) => { const o = caps[n.cap]; caps[n.cap] = [i, j]; const q = k(j); if (q < 0) caps[n.cap] = o; return q; });
        if (r < 0) caps[n.cap] = old;
        return r;
      }
      case "look": {
        const saved = caps.slice();
        const r = m(n.a, i, (j) => j);
        if (n.neg) { for (let q = 0; q < caps.length; q++) caps[q] = saved[q]; return r >= 0 ? -1 : k(i); }
        return r >= 0 ? k(i) : -1;
      }
      case "q": {
        const go = (cnt, q) => {
          const more = () => {
            if (cnt >= n.max) return -1;
            if (n.a.k === "c" && cs[q] instanceof Opq && n.max === Infinity && subset(cs[q], n.a.rs)) {
              const r = go(cnt + 1, q + 1);
              if (r < 0) throw new Unsupported("regular expression backtracks into opaque text");
              return r;
            }
            return m(n.a, q, (r) => (r === q && cnt >= n.min ? -1 : go(cnt + 1, r)));
          };
          if (cnt < n.min) return more();
          if (n.lazy) { const r = k(q); return r >= 0 ? r : more(); }
          const r = more();
          return r >= 0 ? r : k(q);
        };
        return go(0, i);
      }
    }
    throw new Error(n.k);
  };
  const e = m(p.ast, start, (i) => i);
  return e < 0 ? undefined : { start, end: e, caps };
}
const text = (v) => expandSome(v);
export function test(re, v) {
  const p = compile(re);
  if (re.global || re.sticky) { const m = exec(re, v); return m !== null; }
  const cs = text(v);
  if (p.simple && !cs.some((c) => c instanceof Opq)) return testNfa(p, cs);
  return find(p, cs, 0) !== undefined;
}
function find(p, cs, from, sticky) {
  for (let i = from; i <= cs.length; i++) {
    const m = matchAt(p, cs, i);
    if (m) return m;
    if (sticky) break;
  }
  return undefined;
}
function toArray(p, cs, m, v) {
  const r = [mkStr(cs.slice(m.start, m.end))];
  for (let c = 1; c <= p.ncap; c++) r.push(m.caps[c] ? mkStr(cs.slice(m.caps[c][0], m.caps[c][1])) : undefined);
  r.index = m.start;
  r.input = v;
  r.groups = undefined;
  if (Object.keys(p.names).length) { r.groups = {}; for (const [k, i] of Object.entries(p.names)) r.groups[k] = r[i]; }
  return r;
}
export function exec(re, v) {
  const p = compile(re), cs = text(v);
  const g = re.global || re.sticky;
  const from = g ? re.lastIndex : 0;
  const m = from <= cs.length ? find(p, cs, from, re.sticky) : undefined;
  if (!m) { if (g) re.lastIndex = 0; return null; }
  if (g) re.lastIndex = m.end;
  return toArray(p, cs, m, v);
}
export function* matches(re, v, all) {
  const p = compile(re), cs = text(v);
  let i = 0;
  for (;;) {
    const m = i <= cs.length ? find(p, cs, i, re.sticky) : undefined;
    if (!m) return;
    yield [m, toArray(p, cs, m, v), cs];
    if (!all) return;
    i = m.end === m.start ? m.end + 1 : m.end;
  }
}
export function match(re, v) {
  if (!re.global) return exec(re, v);
  const out = [];
  for (const [, a] of matches(re, v, true)) out.push(a[0]);
  return out.length ? out : null;
}
export function replace(re, v, rep, all, callFn, toStr) {
  const cs = text(v);
  const out = [];
  let i = 0;
  for (const [m, a] of matches(re, v, all || re.global)) {
    out.push(...cs.slice(i, m.start));
    const r = typeof rep === "function"
      ? toStr(callFn(rep, [...a, m.start, v, ...(a.groups ? [a.groups] : [])]))
      : expandDollar(toStr(rep), a[0], mkStr(cs.slice(0, m.start)), mkStr(cs.slice(m.end)), a.slice(1), a.groups);
    out.push(...items(r));
    i = m.end;
  }
  return mkStr(out.concat(cs.slice(i)));
}
export function split(re, v) {
  const cs = text(v), p = compile(re);
  const out = [];
  if (cs.length === 0) return matchAt(p, cs, 0) ? [] : [v];
  let a = 0, q = 0;
  while (q < cs.length) {
    const m = matchAt(p, cs, q);
    if (!m || m.end === a) { q++; continue; }
    if (m.end === q && m.end === m.start && q === a) { q++; continue; }
    out.push(mkStr(cs.slice(a, q)));
    for (let c = 1; c <= p.ncap; c++) out.push(m.caps[c] ? mkStr(cs.slice(m.caps[c][0], m.caps[c][1])) : undefined);
    a = m.end;
    q = a;
  }
  out.push(mkStr(cs.slice(a)));
  return out;
}
