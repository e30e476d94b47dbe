// The template language of the API gateway, interpreted over symbolic values.
// Templates are parsed by the parser the repository's own tests use.
import velocity from "velocityjs";
const parsed = new Map();
function parse(text) {
  if (!parsed.has(text)) parsed.set(text, velocity.parse(text));
  return parsed.get(text);
}
// the ordered maps of the template language; keys may be symbolic
export class VMap {
  constructor(S, entries = []) { this.S = S; this.list = entries.map(([k, v]) => ({ k, v })); }
  find(k) { for (const e of this.list) if (this.S.decide(this.S.eq(e.k, k))) return e; return undefined; }
  get(k) { return this.find(k)?.v; }
  put(k, v) { const e = this.find(k); if (e) { const was = e.v; e.v = v; return was; } this.list.push({ k, v }); return undefined; }
  containsKey(k) { return this.find(k) !== undefined; }
  keySet() { return this.list.map((e) => e.k); }
  values() { return this.list.map((e) => e.v); }
  entrySet() { return this.list.map((e) => ({ key: e.k, value: e.v })); }
  size() { return this.list.length; }
  isEmpty() { return this.list.length === 0; }
  remove(k) { const e = this.find(k); if (!e) return undefined; this.list.splice(this.list.indexOf(e), 1); return e.v; }
}
const isText = (S, v) => v !== null && v !== undefined && (typeof v === "string" || (typeof v === "object" && !(v instanceof VMap) && !Array.isArray(v) && v.charCodeAt !== undefined));
// a regular expression that is only text
function literal(S, re) {
  let out = "";
  for (let i = 0; i < re.length; i++) {
    if (re[i] === "\\") { i++; if (i >= re.length || /[A-Za-z0-9]/.test(re[i])) S.gap("regular expression " + re); out += re[i]; } else if (/[.*+?()[\]{}|^$]/.test(re[i])) S.gap("regular expression " + re); else out += re[i];
  }
  return out;
}
// what the gateway's helper makes of a text
export function escapeJavaScript(S, s) {
  if (s === null || s === undefined) return undefined;
  let out = "";
  for (const c of s) {
    const n = c.charCodeAt(0);
    if (S.decide(S.or(S.eq(n, 34), S.eq(n, 39), S.eq(n, 92), S.eq(n, 47)))) out = out + "\\" + c;
    else if (S.decide(S.or(n < 32, n > 126))) {
      if (S.decide(S.eq(n, 10))) out = out + "\\n";
      else if (S.decide(S.eq(n, 13))) out = out + "\\r";
      else if (S.decide(S.eq(n, 9))) out = out + "\\t";
      else { const v = S.concrete(n); out = out + "\\u" + v.toString(16).toUpperCase().padStart(4, "0"); }
    } else out = out + c;
  }
  return out;
}
export function render(S, template, context) {
  const text = (v) => (v === undefined || v === null ? "" : isText(S, v) ? v : `${v}`);
  const truthy = (v) => (v === undefined || v === null ? false : typeof v === "boolean" ? v : isText(S, v) || Array.isArray(v) || v instanceof VMap || typeof v === "number" ? true : S.decide(v));
  const same = (a, b) => (a === undefined || a === null || b === undefined || b === null ? (a ?? undefined) === (b ?? undefined) : S.eq(a, b));
  const scopes = { ...context };
  const method = (o, id, args) => {
    if (o === undefined || o === null) return undefined;
    if (o instanceof VMap) return typeof o[id] === "function" && id !== "find" ? o[id](...args) : S.gap("map method " + id);
    if (Array.isArray(o)) {
      if (id === "size") return o.length;
      if (id === "isEmpty") return o.length === 0;
      if (id === "get") return o[args[0]];
      if (id === "contains") return o.some((x) => S.decide(same(x, args[0])));
      return S.gap("list method " + id);
    }
    if (isText(S, o)) switch (id) {
      case "substring": if (S.decide(o.length < Math.max(...args))) S.fail("a template step does not fail"); return args.length === 2 ? o.substring(args[0], args[1]) : o.substring(args[0]);
      case "startsWith": return o.startsWith(args[0]);
      case "endsWith": return o.endsWith(args[0]);
      case "equals": return S.eq(o, args[0]);
      case "contains": return o.includes(args[0]);
      case "isEmpty": return S.eq(o.length, 0);
      case "length": return o.length;
      case "toLowerCase": return o.toLowerCase();
      case "toString": return o;
      case "charAt": return o.charAt(args[0]);
      case "replace": return o.split(args[0]).join(args[1]);
      case "replaceAll": return o.split(literal(S, args[0])).join(args[1]);
      default: return S.gap("text method " + id);
    }
    if (typeof o[id] === "function") return o[id](...args);
    return S.gap("method " + id);
  };
  const prop = (o, id) => (o === undefined || o === null ? undefined : o instanceof VMap ? o.get(id) : isText(S, o) ? S.gap("member of a text") : o[id]);
  const step = (o, p) => {
    if (p.type === "method") return method(o, p.id, (p.args || []).map(value));
    if (p.type === "property") return prop(o, p.id);
    if (p.type === "index") { const k = value(p.id); return Array.isArray(o) ? o[k] : prop(o, k); }
    return S.gap("path " + p.type);
  };
  const reference = (n) => { let o = scopes[n.id]; for (const p of n.path || []) o = step(o, p); return o; };
  function math(n) {
    const [a, b] = n.expression;
    switch (n.operator) {
      case "not": return !truthy(value(a));
      case "parenthesis": return value(a);
      case "&&": return truthy(value(a)) && truthy(value(b));
      case "||": return truthy(value(a)) || truthy(value(b));
      case "==": return S.decide(same(value(a), value(b)));
      case "!=": return !S.decide(same(value(a), value(b)));
      case "<": return S.decide(value(a) < value(b));
      case ">": return S.decide(value(a) > value(b));
      case "<=": return S.decide(value(a) <= value(b));
      case ">=": return S.decide(value(a) >= value(b));
      case "+": return value(a) + value(b);
      case "-": return value(a) - value(b);
      default: return S.gap("operator " + n.operator);
    }
  }
  function value(n) {
    switch (n.type) {
      case "references": return reference(n);
      case "string": return n.isEval ? block(parse(n.value)) : n.value;
      case "integer": return Number(n.value);
      case "decimal": return Number(n.value);
      case "bool": return n.value === true || n.value === "true";
      case "null": return undefined;
      case "map": return new VMap(S, Object.entries(n.value ?? {}).map(([k, v]) => [k, value(v)]));
      case "array": return (n.value ?? []).map(value);
      case "math": return math(n);
      default: return S.gap("value " + n.type);
    }
  }
  function assign(n) {
    const [l, r] = n.equal;
    const v = value(r);
    if (v === undefined || v === null) return;
    if (!l.path || !l.path.length) { scopes[l.id] = v; return; }
    let o = scopes[l.id];
    for (const p of l.path.slice(0, -1)) o = step(o, p);
    const last = l.path[l.path.length - 1];
    const k = last.type === "property" ? last.id : last.type === "index" ? value(last.id) : S.gap("assignment to " + last.type);
    if (o === undefined || o === null) S.fail("a template assignment has a target");
    if (o instanceof VMap) o.put(k, v); else o[k] = v;
  }
  function block(nodes) {
    let out = "";
    for (const n of nodes) out = out + node(n);
    return out;
  }
  function node(n) {
    if (typeof n === "string") return n;
    if (Array.isArray(n)) {
      const [h, ...body] = n;
      if (h.type === "if") {
        let taken = truthy(value(h.condition)), done = taken, out = "";
        for (const c of body) {
          if (c && c.type === "elseif") { taken = !done && truthy(value(c.condition)); done = done || taken; } else if (c && c.type === "else") { taken = !done; done = true; } else if (taken) out = out + node(c);
        }
        return out;
      }
      if (h.type === "foreach") {
        let from = h.from.type ? value(h.from) : undefined;
        if (from instanceof VMap) from = from.values();
        if (!Array.isArray(from)) return "";
        const was = [scopes[h.to], scopes.foreach];
        let out = "";
        for (const [i, x] of from.entries()) { scopes[h.to] = x; scopes.foreach = { hasNext: i < from.length - 1, index: i, count: i + 1, first: i === 0, last: i === from.length - 1 }; out = out + block(body); }
        [scopes[h.to], scopes.foreach] = was;
        return out;
      }
      return S.gap("directive " + h.type);
    }
    switch (n.type) {
      case "comment": return "";
      case "set": assign(n); return "";
      case "references": return text(reference(n));
      case "raw": return n.value;
      default: return S.gap("directive " + n.type);
    }
  }
  return block(parse(template));
}
// the texts, lists and objects of a JSON document with symbolic characters
export function readJson(S, s) {
  let i = 0;
  const bad = () => { throw new SyntaxError("not JSON"); };
  const at = (c) => i < s.length && S.decide(S.eq(s.charAt(i), c));
  const ws = () => { while (i < s.length && S.decide(S.or(S.eq(s.charAt(i), " "), S.eq(s.charAt(i), "\n"), S.eq(s.charAt(i), "\t"), S.eq(s.charAt(i), "\r")))) i++; };
  const str = () => {
    let out = "";
    for (i++; ; i++) {
      if (i >= s.length) bad();
      const c = s.charAt(i);
      if (S.decide(S.eq(c, '"'))) { i++; return out; }
      if (S.decide(c.charCodeAt(0) < 32)) bad();
      if (!S.decide(S.eq(c, "\\"))) { out = out + c; continue; }
      i++;
      if (i >= s.length) bad();
      const e = s.charAt(i);
      if (S.decide(S.or(S.eq(e, '"'), S.eq(e, "\\"), S.eq(e, "/")))) out = out + e;
      else {
        const k = ["n", "r", "t", "b", "f", "u"].find((x) => S.decide(S.eq(e, x)));
        if (!k) bad();
        if (k === "u") { const h = S.concrete(s.substring(i + 1, i + 5)); if (!/^[0-9a-fA-F]{4}$/.test(h)) bad(); out = out + String.fromCharCode(Number.parseInt(h, 16)); i += 4; } else out = out + { n: "\n", r: "\r", t: "\t", b: "\b", f: "\f" }[k];
      }
    }
  };
  const val = () => {
    ws();
    if (at('"')) return str();
    if (at("{")) {
      const m = new VMap(S);
      i++; ws();
      if (at("}")) { i++; return m; }
      for (;;) { ws(); if (!at('"')) bad(); const k = str(); ws(); if (!at(":")) bad(); i++; m.put(k, val()); ws(); if (at(",")) { i++; continue; } if (at("}")) { i++; return m; } bad(); }
    }
    if (at("[")) {
      const a = [];
      i++; ws();
      if (at("]")) { i++; return a; }
      for (;;) { a.push(val()); ws(); if (at(",")) { i++; continue; } if (at("]")) { i++; return a; } bad(); }
    }
    return bad();
  };
  const v = val();
  ws();
  if (i < s.length) bad();
  return v;
}
