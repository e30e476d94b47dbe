// A small database: keeps tables of (symbolic) rows and carries out the SQL the code sends to it.
// What it does not understand is a gap of the harness, never an alarm.
const KEYWORDS = new Set("select insert into values on conflict do update set nothing where and or not is null in any from as order by asc desc limit delete join left inner outer distinct returning true false default between exists for case when then else end union all group having with".split(" "));
function tokens(text, gap, mysql) {
  let nth = 0;
  if (mysql) text = text.replace(/([^:a-zA-Z])(b?):([a-zA-Z_][a-zA-Z_0-9]*)/g, (_, before, b, name) => `${before} $[${name}${b ? ":bits" : ""}] `).replace(/\?/g, () => ` $${++nth} `);
  const out = [];
  const re = /\s+|--[^\n]*|\/\*[\s\S]*?\*\/|(\$\([a-zA-Z_0-9]+(?::[a-z]+)?\)|\$\{[a-zA-Z_0-9]+(?::[a-z]+)?\}|\$\[[a-zA-Z_0-9]+(?::[a-z]+)?\]|\$<[a-zA-Z_0-9]+(?::[a-z]+)?>|\$[0-9]+(?::[a-z]+)?)|('(?:[^']|'')*')|("(?:[^"])*")|([0-9]+(?:\.[0-9]+)?)|([a-zA-Z_][a-zA-Z_0-9]*)|(::|<>|!=|<=|>=|\|\||->>|->|[-+*\/=<>(),.;])/gy;
  let at = 0;
  while (at < text.length) {
    re.lastIndex = at;
    const m = re.exec(text);
    if (!m) gap(`SQL not understood at: ${text.slice(at, at + 30)}`);
    at = re.lastIndex;
    if (m[1]) out.push({ k: "param", v: m[1][1] === "(" || m[1][1] === "{" || m[1][1] === "[" || m[1][1] === "<" ? m[1].slice(2, -1) : m[1].slice(1) });
    else if (m[2]) out.push({ k: "text", v: m[2].slice(1, -1).split("''").join("'") });
    else if (m[3]) out.push({ k: "name", v: m[3].slice(1, -1) });
    else if (m[4]) out.push({ k: "num", v: Number(m[4]) });
    else if (m[5]) { const w = m[5].toLowerCase(); out.push(KEYWORDS.has(w) ? { k: "word", v: w } : { k: "name", v: w }); }
    else if (m[6] && m[6] !== ";") out.push({ k: "op", v: m[6] });
  }
  return out;
}
function parse(text, gap, mysql) {
  const ts = tokens(text, gap, mysql);
  let i = 0;
  const peek = (o = 0) => ts[i + o] ?? { k: "end", v: "" };
  const is = (v, o = 0) => { const t = peek(o); return (t.k === "word" || t.k === "op") && t.v === v; };
  const bad = () => gap(`SQL not understood near "${ts.slice(Math.max(0, i - 3), i + 3).map((t) => t.v).join(" ")}"`);
  const take = (v) => (is(v) ? (i++, true) : false);
  const need = (...vs) => { for (const v of vs) if (!take(v)) bad(); };
  const isFn = (n) => peek().k === "name" && peek().v === n && is("(", 1);
  const tableName = () => { let n = ident(); if (take(".")) n = ident(); return n; };
  const ident = () => { const t = peek(); if (t.k === "param" && t.v.endsWith(":name")) { i++; return { param: t.v.slice(0, -5) }; } if (t.k !== "name") bad(); i++; return t.v; };
  const list = (f) => { const r = [f()]; while (take(",")) r.push(f()); return r; };
  const expr = () => orE();
  const orE = () => { let l = andE(); while (take("or")) l = { t: "or", l, r: andE() }; return l; };
  const andE = () => { let l = notE(); while (take("and")) l = { t: "and", l, r: notE() }; return l; };
  const notE = () => (take("not") ? { t: "not", x: notE() } : cmpE());
  const cmpE = () => {
    const l = addE();
    if (take("is")) { const neg = take("not"); if (take("true")) return { t: "istrue", x: l, neg }; if (take("false")) return { t: "isfalse", x: l, neg }; if (take("distinct")) { need("from"); return { t: "distinct", l, r: addE(), neg }; } need("null"); return { t: "isnull", x: l, neg }; }
    for (const op of ["=", "<>", "!=", "<=", ">=", "<", ">"]) if (take(op)) {
      if (take("any")) { need("("); const arr = expr(); need(")"); return { t: "any", op, l, arr }; }
      return { t: "cmp", op, l, r: addE() };
    }
    if (peek().k === "name" && peek().v === "ilike") { i++; return { t: "ilike", l, r: addE() }; }
    const neg = is("not") && (is("in", 1) || is("between", 1)) ? (i++, true) : false;
    if (take("in")) { need("("); if (take("select")) { const q = selectE(); need(")"); const e = { t: "insub", l, q }; return neg ? { t: "not", x: e } : e; } const xs = list(expr); need(")"); const e = { t: "in", l, xs }; return neg ? { t: "not", x: e } : e; }
    if (take("between")) { const a = addE(); need("and"); const b = addE(); const e = { t: "and", l: { t: "cmp", op: ">=", l, r: a }, r: { t: "cmp", op: "<=", l, r: b } }; return neg ? { t: "not", x: e } : e; }
    return l;
  };
  const addE = () => { let l = mulE(); for (;;) { if (take("+")) l = { t: "op", op: "+", l, r: mulE() }; else if (take("-")) l = { t: "op", op: "-", l, r: mulE() }; else if (take("||")) l = { t: "op", op: "||", l, r: mulE() }; else return l; } };
  const mulE = () => { let l = castE(); while (is("*")) { i++; l = { t: "op", op: "*", l, r: castE() }; } return l; };
  const castE = () => { let l = primary(); while (take("::")) { const type = peek().v; i++; l = { t: "cast", type, x: l }; } return l; };
  const primary = () => {
    const t = peek();
    if (take("(")) { if (is("select")) { i++; const q = selectE(); need(")"); return { t: "sub", q }; } const e = expr(); need(")"); return e; }
    if (take("case")) {
      const of = is("when") ? undefined : expr(), arms = [];
      while (take("when")) { const c = expr(); need("then"); arms.push([c, expr()]); }
      const other = take("else") ? expr() : { t: "lit", v: null };
      need("end");
      return { t: "case", of, arms, other };
    }
    if (take("exists")) { need("(", "select"); const q = selectE(); need(")"); return { t: "exists", q }; }
    if (t.k === "param") { i++; return { t: "param", name: t.v }; }
    if (t.k === "num" || t.k === "text") { i++; return { t: "lit", v: t.v }; }
    if (take("null")) return { t: "lit", v: null };
    if (take("true")) return { t: "lit", v: true };
    if (take("false")) return { t: "lit", v: false };
    if (take("default")) return { t: "default" };
    if (take("-")) return { t: "op", op: "-", l: { t: "lit", v: 0 }, r: primary() };
    if (t.k === "name") {
      if (is("(", 1)) {
        i += 2;
        const args = is(")") ? [] : is("*") ? (i++, ["*"]) : (take("distinct"), list(expr));
        need(")");
        return { t: "fn", name: t.v, args };
      }
      if (t.v === "current_timestamp") { i++; return { t: "fn", name: "now", args: [] }; }
      if ((t.v === "timestamp" || t.v === "timestamptz" || t.v === "date") && peek(1).k === "text") { const v = peek(1).v; i += 2; return { t: "time", v }; }
      if (t.v === "interval" && peek(1).k === "num") { const v = peek(1).v + " " + peek(2).v; i += 3; return { t: "interval", v }; }
      if (t.v === "interval" && peek(1).k === "text") { const v = peek(1).v; i += 2; return { t: "interval", v }; }
      i++;
      if (take(".")) { if (take("*")) return { t: "all", of: t.v }; const c = ident(); return { t: "col", of: t.v, name: c }; }
      return { t: "col", name: t.v };
    }
    bad();
  };
  const returning = () => (take("returning") ? items() : undefined);
  const items = () => list(() => { if (take("*")) return { all: true }; const e = expr(); if (e.t === "all") return { all: true, of: e.of }; const as = take("as") || peek().k === "name" ? ident() : undefined; return { e, as }; });
  const sets = () => list(() => { let c = ident(); if (take(".")) c = ident(); need("="); return [c, expr()]; });
  const selectE = () => {
    const q = coreE();
    if (!is("union")) return tail(q);
    const u = { t: "select", union: [q], cols: q.cols.map((c, n) => ({ e: { t: "col", name: c.as ?? c.e?.name ?? "?" + n } })) };
    while (take("union")) { const all = take("all"); let k; if (take("(")) { need("select"); k = selectE(); need(")"); } else { need("select"); k = coreE(); } k.all = all; u.union.push(k); }
    return tail({ ...u, from: [{ q: { t: "union", union: u.union }, as: "" }] });
  };
  const tail = (q) => {
    let order = [], limit, lock;
    if (take("order")) { need("by"); order = list(() => { const e = expr(); const d = take("desc") ? true : (take("asc"), false); let nulls; if (peek().v === "nulls") { i++; nulls = peek().v; i++; } return { e, d, nulls }; }); }
    if (take("limit")) limit = expr();
    if (take("for")) { take("update"); lock = true; }
    return { ...q, order, limit, lock };
  };
  const coreE = () => {
    const distinct = take("distinct");
    const cols = items();
    const from = [];
    const table = () => { if (take("(")) { need("select"); const q = selectE(); need(")"); take("as"); return { q, as: peek().k === "name" ? ident() : "" }; } const name = tableName(); const as = take("as") || peek().k === "name" ? ident() : name; return { name, as }; };
    if (take("from")) {
      from.push(table());
      for (;;) {
        if (take(",")) { from.push({ ...table(), kind: "inner" }); continue; }
        const left = take("left"); if (left) take("outer"); else take("inner");
        if (!is("join")) { if (left) bad(); break; }
        i++;
        const tb = table();
        need("on");
        from.push({ ...tb, kind: left ? "left" : "inner", on: expr() });
      }
    }
    const where = take("where") ? expr() : undefined;
    let group, having;
    if (take("group")) { need("by"); group = list(expr); }
    if (take("having")) having = expr();
    return { t: "select", cols, from, where, order: [], distinct, group, having };
  };
  let st;
  const ctes = [];
  if (take("with")) ctes.push(...list(() => { const name = ident(); need("as", "(", "select"); const q = selectE(); need(")"); return { name, q }; }));
  if (take("select")) st = { ...selectE(), ctes };
  else if (take("insert")) {
    need("into");
    const table = tableName();
    let as; if (take("as")) as = ident();
    let cols; if (take("(")) { cols = list(ident); need(")"); }
    let rows, q;
    if (mysql && take("select")) { q = selectE(); q.cols.forEach((c, n) => { c.as = "c" + n; }); rows = []; }
    else {
      need("values");
      if (mysql && peek().k === "param") { rows = { bulk: peek().v }; i++; }
      else rows = list(() => { need("("); const r = list(expr); need(")"); return r; });
    }
    let conflict;
    if (mysql && is("on") && peek(1).v === "duplicate") {
      i += 3; need("update");
      conflict = { set: list(() => { let c = ident(); if (take(".")) c = ident(); need("="); if (take("values")) { need("("); const n = ident(); need(")"); return [c, { t: "col", of: "excluded", name: n }]; } return [c, expr()]; }) };
    } else if (take("on")) {
      need("conflict");
      let on; if (take("(")) { on = list(ident); need(")"); }
      if (peek().v === "on") bad();
      need("do");
      if (take("nothing")) conflict = { on, nothing: true };
      else { need("update", "set"); conflict = { on, set: sets(), where: take("where") ? expr() : undefined }; }
    }
    st = { t: "insert", table, as, cols, rows, q, conflict, returning: returning() };
  } else if (take("update")) {
    const table = tableName();
    const as = is("update") && is("set", 1) ? (i++, "update") : take("as") || peek().k === "name" ? ident() : undefined;
    need("set");
    const set = sets();
    const where = take("where") ? expr() : undefined;
    st = { t: "update", table, as, set, where, returning: returning() };
  } else if (take("delete")) {
    need("from");
    const table = tableName();
    const as = take("as") || peek().k === "name" ? ident() : undefined;
    const where = take("where") ? expr() : undefined;
    if (mysql && take("limit")) expr(); // more rows than any bound here
    st = { t: "delete", table, as, where, returning: returning() };
  } else bad();
  if (i < ts.length) bad();
  return st;
}
// tables: { name: { cols: [..] | undefined, defaults: {col: value}, unique: [[col, ..]], required: [col], rows: [..] } }
export function database(S, tables, more = {}) {
  const parsed = new Map();
  const db = { tables, statements: [], fns: more.fns ?? {}, failing: undefined };
  let seq = 0;
  const gap = (m) => S.gap(m);
  const tableOf = (name, params) => { const n = typeof name === "object" ? S.concrete(lookup(name.param, params)) : name; const t = tables[n]; if (!t) gap(`table ${n} is not provided`); t.rows ??= []; t.name = n; return t; };
  const lookup = (name, params) => {
    const [n, mod] = name.split(":");
    let v;
    if (/^[0-9]+$/.test(n)) { if (!Array.isArray(params) && params !== undefined && n === "1") v = params; else { if (!params || Number(n) > params.length) throw new Error(`Variable $${n} out of range.`); v = params[Number(n) - 1]; } }
    else { if (!params || !(n in params)) throw new Error(`Property '${n}' doesn't exist.`); v = params[n]; }
    if (mod === "csv" || mod === "list") return { csv: v };
    if (mod === "bits") return { bits: v };
    return v === undefined ? null : v;
  };
  const num = (v) => (v instanceof S.world.Date || v instanceof Date ? v.getTime() : v);
  const same = (a, b) => { a = num(a); b = num(b); if (a === null || b === null) return null; return S.eq(a, b); };
  const less = (a, b) => {
    a = num(a); b = num(b);
    if (a === null || b === null) return null;
    if (a === "infinity" || b === "-infinity") return false;
    if (b === "infinity" || a === "-infinity") return true;
    return a < b;
  };
  const test = (v) => (v === null ? false : S.decide(v)); // unknown counts as false
  const interval = (v) => { const m = /^([0-9]+) *(second|minute|hour|day|week|month|year)s?$/.exec(String(S.concrete(v)).trim().toLowerCase()); if (!m) gap("interval " + v); return Number(m[1]) * { second: 1e3, minute: 6e4, hour: 36e5, day: 864e5, week: 6048e5, month: 30 * 864e5, year: 365 * 864e5 }[m[2]]; };
  function value(e, env) {
    switch (e.t) {
      case "lit": return e.v;
      case "param": return lookup(e.name, env.params);
      case "time": return new S.world.Date(e.v);
      case "interval": { return interval(e.v); }
      case "case": {
        for (const [c, v] of e.arms) if (test(e.of ? same(value(e.of, env), value(c, env)) : value(c, env))) return value(v, env);
        return value(e.other, env);
      }
      case "sub": { const rows = query(e.q, env.params, env.scopes); if (rows.length > 1) throw new Error("more than one row returned by a subquery"); return rows.length ? Object.values(rows[0])[0] : null; }
      case "exists": return query(e.q, env.params, env.scopes).length > 0;
      case "col": {
        for (const s of env.scopes) if ((e.of === undefined || s.as === e.of) && e.name in s.row) return s.row[e.name];
        for (const s of env.scopes) if ((e.of === undefined || s.as === e.of) && (!s.table?.cols || s.table.cols.includes(e.name))) return s.table?.defaults?.[e.name] ?? null;
        throw new Error(`column "${e.name}" does not exist`);
      }
      case "cast": { if (e.x.t === "lit" && typeof e.x.v === "string" && (e.type === "json" || e.type === "jsonb")) return JSON.parse(e.x.v); const v = value(e.x, env); if ((e.type === "int" || e.type === "integer") && typeof v === "boolean") return S.decide(v) ? 1 : 0; if (e.type === "text" && typeof v === "number") return String(v); return e.type === "interval" && typeof v === "string" ? interval(v) : v; }
      case "and": { const l = value(e.l, env); if (l !== null && !S.decide(l)) return false; const r = value(e.r, env); if (r !== null && !S.decide(r)) return false; return l === null || r === null ? null : true; }
      case "or": { const l = value(e.l, env); if (l !== null && S.decide(l)) return true; const r = value(e.r, env); if (r !== null && S.decide(r)) return true; return l === null || r === null ? null : false; }
      case "not": { const v = value(e.x, env); return v === null ? null : !v; }
      case "distinct": { const l = value(e.l, env), r = value(e.r, env); const d = l === null || r === null ? l !== r : !S.decide(same(l, r)); return d !== e.neg; }
      case "ilike": { // only text between two %
        const l = value(e.l, env), r = value(e.r, env);
        if (l === null || r === null) return null;
        const inner = r.substring(1, r.length - 1);
        if (S.decide(S.or(!S.eq(r[0], "%"), !S.eq(r[r.length - 1], "%"), inner.includes("%"), inner.includes("_"), inner.includes("\\")))) gap("ilike with a pattern");
        return l.toLowerCase().includes(inner.toLowerCase());
      }
      case "isnull": { const v = value(e.x, env); return (v === null) !== e.neg; }
      case "istrue": { const v = value(e.x, env); const r = v === null ? false : S.decide(v); return r !== e.neg; }
      case "isfalse": { const v = value(e.x, env); const r = v === null ? false : !S.decide(v); return r !== e.neg; }
      case "cmp": return compare(e.op, value(e.l, env), value(e.r, env));
      case "any": { const l = value(e.l, env), arr = value(e.arr, env); const list = arr?.csv ?? arr; if (list === null) return null; for (const x of list) if (test(compare(e.op, l, x))) return true; return false; }
      case "in": {
        const l = value(e.l, env);
        for (const x of e.xs) { const v = value(x, env); const vs = v !== null && typeof v === "object" && "csv" in v ? v.csv : [v]; if (v && v.csv && vs.length === 0) throw new Error("syntax error: empty list"); for (const y of vs) if (test(same(l, y))) return true; }
        return l === null ? null : false;
      }
      case "insub": {
        const l = value(e.l, env);
        let unknown = l === null;
        if (l !== null) for (const r of query(e.q, env.params, env.scopes)) { const v = Object.values(r)[0]; if (v === null) unknown = true; else if (test(same(l, v))) return true; }
        return unknown ? null : false;
      }
      case "op": {
        const l = value(e.l, env), r = value(e.r, env);
        if (l === null || r === null) return null;
        if (e.op === "||") return `${l}${r}`;
        const d = l instanceof S.world.Date || l instanceof Date;
        const v = e.op === "+" ? num(l) + num(r) : e.op === "-" ? num(l) - num(r) : num(l) * num(r);
        return d && e.op !== "*" && !(r instanceof S.world.Date) ? new S.world.Date(v) : v;
      }
      case "fn": {
        if (env.group && aggregate(e)) return fold(e, env.group, env.params);
        if (db.fns[e.name]) return db.fns[e.name](...e.args.map((a) => value(a, env)));
        if (more.mysql) {
          if (e.name === "current_timestamp") return new S.world.Date();
          if (e.name === "if") { return test(value(e.args[0], env)) ? value(e.args[1], env) : value(e.args[2], env); }
          if (e.name === "nullif") { const a = value(e.args[0], env); return test(same(a, value(e.args[1], env))) ? null : a; }
          if (e.name === "json_object") { const o = {}; for (let n = 0; n < e.args.length; n += 2) o[value(e.args[n], env)] = value(e.args[n + 1], env); return o; }
        }
        if (e.name === "now") return db.now ? db.now() : new S.world.Date();
        if (e.name === "nextval") return ++seq;
        if (e.name === "coalesce") { for (const a of e.args) { const v = value(a, env); if (v !== null) return v; } return null; }
        if (e.name === "lower") { const v = value(e.args[0], env); return v === null ? null : v.toLowerCase(); }
        if (e.name === "upper") { const v = value(e.args[0], env); return v === null ? null : v.toUpperCase(); }
        if (e.name === "string_to_array") { const a = value(e.args[0], env), by = value(e.args[1], env); return a === null ? null : a.split(by); }
        if (e.name === "json_build_object" || e.name === "jsonb_build_object") { const o = {}; for (let n = 0; n < e.args.length; n += 2) { const v = value(e.args[n + 1], env); o[value(e.args[n], env)] = v instanceof S.world.Date && db.asJson ? db.asJson(v) : v; } return o; }
        if (e.name === "to_timestamp" && e.args.length === 1) { const v = value(e.args[0], env); return v === null ? null : new S.world.Date(v * 1000); }
        if (e.name === "greatest" || e.name === "least") { let best = null; for (const a of e.args) { const v = value(a, env); if (v === null) continue; if (best === null || S.decide(e.name === "greatest" ? less(best, v) : less(v, best))) best = v; } return best; }
        gap(`SQL function ${e.name}`);
      }
    }
    gap(`SQL expression ${e.t}`);
  }
  const compare = (op, a, b) => {
    if (op === "=") return same(a, b);
    if (op === "<>" || op === "!=") { const s = same(a, b); return s === null ? null : !s; }
    if (op === "<") return less(a, b);
    if (op === ">") return less(b, a);
    const s = op === "<=" ? less(b, a) : less(a, b);
    return s === null ? null : !s;
  };
  const project = (items, scopes, params, outer = []) => {
    const out = {};
    for (const it of items) {
      if (it.all) { for (const s of scopes) if (!it.of || s.as === it.of) { for (const c of s.table.cols ?? []) out[c] = s.table.defaults?.[c] ?? null; Object.assign(out, s.row); } }
      else out[it.as ?? (it.e.t === "col" ? it.e.name : it.e.t === "fn" ? it.e.name : "?column?")] = value(it.e, { scopes: [...scopes, ...outer], params });
    }
    return out;
  };
  const undo = (log) => { for (const f of log.reverse()) f(); };
  function execute(text, params, log) {
    if (text !== null && typeof text === "object") { params = params ?? text.values; text = text.text; }
    text = S.concrete(text);
    if (log?.aborted) throw new Error("current transaction is aborted, commands ignored until end of transaction block");
    try { return carry(text, params, log); } catch (e) { if (log) log.aborted = true; throw e; }
  }
  function carry(text, params, log) {
    const given = more.answers?.(text, params, { undo: (f) => log?.push(f), check(kind, table) { const s = { kind, table, text, params }; db.statements.push(s); if (db.failing?.(s)) throw db.failing.error ?? new Error("the database failed"); } });
    if (given) { db.statements.push({ kind: "answered", text, params }); return given; }
    let st = parsed.get(text);
    if (!st) parsed.set(text, (st = parse(text, gap, more.mysql)));
    db.statements.push({ kind: st.t, table: typeof st.table === "object" ? st.table.param : st.table ?? st.from?.[0]?.name, text, params });
    if (db.failing?.(db.statements[db.statements.length - 1])) throw db.failing.error ?? new Error("the database failed");
    if (st.t === "select") return query(st, params, []);
    const own = [];
    try { return change(st, params, own); } catch (e) { undo(own); own.length = 0; throw e; } finally { log?.push(...own); }
  }
  function query(st, params, outer, ctes = {}) {
      let combos = [[]];
      if (st.t === "union") {
        const out = [];
        const alike = (a, b) => { const x = Object.values(a), y = Object.values(b); return x.every((v, n) => (v === null || y[n] === null ? v === y[n] : test(same(v, y[n])))); };
        st.union.forEach((q) => { const names = out.length ? Object.keys(out[0]) : undefined; for (const r of query(q, params, outer, ctes)) { const row = names ? Object.fromEntries(Object.values(r).map((v, n) => [names[n], v])) : r; out.push(row); } if (q.all === false) for (let n = out.length - 1; n > 0; n--) if (out.slice(0, n).some((o) => alike(o, out[n]))) out.splice(n, 1); });
        return out;
      }
      for (const c of st.ctes ?? []) ctes = { ...ctes, [c.name]: { rows: query(c.q, params, [], ctes) } };
      for (const f of st.from) {
        const t = f.q ? { rows: query(f.q, params, outer, ctes) } : ctes[f.name] ?? tableOf(f.name, params), next = [];
        if ((f.q || ctes[f.name]) && t.rows.length) t.cols = Object.keys(t.rows[0]);
        for (const c of combos) {
          let any = false;
          for (const row of t.rows) { const sc = [...c, { as: f.as, row, table: t }]; if (!f.on || test(value(f.on, { scopes: [...sc, ...outer], params }))) { any = true; next.push(sc); } }
          if (!any && f.kind === "left") next.push([...c, { as: f.as, row: {}, table: t }]);
        }
        combos = next;
      }
      if (st.where) combos = combos.filter((c) => test(value(st.where, { scopes: [...c, ...outer], params })));
      if (st.group || st.cols.some((c) => !c.all && aggregated(c.e))) {
        let groups = [];
        if (!st.group) groups = [combos];
        else for (const c of combos) { const key = st.group.map((e) => value(e, { scopes: [...c, ...outer], params })); const g = groups.find((x) => x.key.every((k, n) => (k === null || key[n] === null ? k === key[n] : test(same(k, key[n]))))); if (g) g.push(c); else { const n = [c]; n.key = key; groups.push(n); } }
        const env = (g) => ({ scopes: [...(g[0] ?? []), ...outer], params, group: g.map((k) => [...k, ...outer]) });
        if (st.having) groups = groups.filter((g) => test(value(st.having, env(g))));
        for (const o of [...st.order].reverse()) groups = sort(groups, (g) => value(o.e, env(g)), o);
        if (st.limit) groups = groups.slice(0, S.concrete(value(st.limit, { scopes: [], params })));
        return groups.map((g) => Object.fromEntries(st.cols.map((c) => [c.as ?? c.e.name ?? "?column?", value(c.e, env(g))])));
      }
      for (const o of [...st.order].reverse()) combos = sort(combos, (c) => value(o.e, { scopes: [...c, ...outer], params }), o);
      if (st.limit) combos = combos.slice(0, S.concrete(value(st.limit, { scopes: [], params })));
      const rows = combos.map((c) => project(st.cols, c, params, outer));
      if (!st.distinct) return rows;
      const kept = [];
      for (const r of rows) if (!kept.some((k) => Object.keys(r).every((c) => (r[c] === null || k[c] === null ? r[c] === k[c] : test(same(r[c], k[c])))))) kept.push(r);
      return kept;
  }
  const bulk = (v) => { if (!Array.isArray(v) || !v.length || !Array.isArray(v[0])) throw new Error("You have an error in your SQL syntax"); return v.map((r) => r.map((x) => ({ t: "lit", v: x === undefined ? null : x }))); };
  const saving = (t, row, log) => { const was = { ...row }; log.push(() => { for (const x of Object.keys(row)) delete row[x]; Object.assign(row, was); }); };
  function change(st, params, log) {
    const t = tableOf(st.table, params);
    const changed = [], born = new Set();
    if (st.t === "insert") {
      const given = st.q ? query(st.q, params, []).map((r) => Object.values(r).map((v) => ({ t: "lit", v }))) : st.rows.bulk ? bulk(lookup(st.rows.bulk, params)) : st.rows;
      for (const vals of given) {
        const cols = st.cols ?? t.cols ?? gap("insert without columns");
        if (vals.length !== cols.length) throw new Error("INSERT has more or fewer expressions than target columns");
        const row = {};
        if (t.cols) for (const c of cols) if (!t.cols.includes(c)) throw new Error(`column "${c}" does not exist`);
        for (const c of t.cols ?? []) row[c] = t.defaults?.[c] ?? null;
        for (const c of Object.keys(t.defaults ?? {})) row[c] = t.defaults[c];
        cols.forEach((c, n) => { if (vals[n].t !== "default") row[c] = value(vals[n], { scopes: [], params }); });
        for (const c of t.required ?? []) if (row[c] === null || row[c] === undefined) throw new Error(`null value in column "${c}"`);
        let clash, key;
        for (const u of t.unique ?? []) for (const other of t.rows) if (!clash && u.every((c) => test(same(row[c] ?? null, other[c] ?? null)))) { clash = other; key = u; }
        if (clash) {
          const onKey = st.conflict && (!st.conflict.on || (st.conflict.on.length === key.length && st.conflict.on.every((c) => key.includes(c))));
          if (!onKey) throw new Error("duplicate key value violates unique constraint");
          if (st.conflict.nothing) continue;
          const scopes = [{ as: st.as ?? t.name, row: clash, table: t }, { as: "excluded", row, table: t }];
          if (st.conflict.where && !test(value(st.conflict.where, { scopes, params }))) continue;
          const set = st.conflict.set.map(([c, e]) => [c, value(e, { scopes: e.t === "col" && !e.of ? scopes.slice(0, 1) : scopes, params })]);
          saving(t, clash, log);
          for (const [c, v] of set) clash[c] = v;
          changed.push(clash);
          continue;
        }
        if (st.conflict?.on && !(t.unique ?? []).some((u) => u.length === st.conflict.on.length && u.every((c) => st.conflict.on.includes(c)))) throw new Error("there is no unique constraint matching the ON CONFLICT specification");
        t.rows.push(row);
        born.add(row);
        log.push(() => { t.rows = t.rows.filter((r) => r !== row); });
        changed.push(row);
      }
    } else {
      const hit = t.rows.filter((row) => !st.where || test(value(st.where, { scopes: [{ as: st.as ?? t.name, row, table: t }], params })));
      if (st.t === "delete") {
        const at = t.rows.map((r, n) => [n, r]).filter(([, r]) => hit.includes(r));
        t.rows = t.rows.filter((r) => !hit.includes(r));
        log.push(() => { const rows = [...t.rows]; for (const [n, r] of at) rows.splice(n, 0, r); t.rows = rows; });
      }
      else for (const row of hit) { const set = st.set.map(([c, e]) => { if (t.cols && !t.cols.includes(c)) throw new Error(`column "${c}" does not exist`); return [c, value(e, { scopes: [{ as: st.as ?? t.name, row, table: t }], params })]; }); saving(t, row, log); for (const [c, v] of set) row[c] = v; }
      changed.push(...hit);
    }
    const out = st.returning ? changed.map((row) => project(st.returning, [{ as: st.as ?? t.name, row, table: t }, { as: "?system", row: { xmax: born.has(row) ? 0 : 1 }, table: t }], params)) : [];
    out.changed = changed.length;
    return out;
  }
  const aggregate = (e) => e.t === "fn" && ["count", "max", "min", "sum", "array_agg", "json_agg", "group_concat"].includes(e.name);
  const aggregated = (e) => aggregate(e) || (e.t === "fn" ? e.args.some((a) => a !== "*" && aggregated(a)) : e.t === "cast" ? aggregated(e.x) : e.t === "op" ? aggregated(e.l) || aggregated(e.r) : false);
  const fold = (e, combos, params) => {
    if (!aggregate(e)) gap("mixed aggregates");
    if (e.name === "count") return e.args[0] === "*" ? combos.length : combos.filter((c) => value(e.args[0], { scopes: c, params }) !== null).length;
    if (e.name === "array_agg" || e.name === "json_agg") return combos.length ? combos.map((c) => value(e.args[0], { scopes: c, params })) : null;
    if (e.name === "group_concat") { const xs = combos.map((c) => value(e.args[0], { scopes: c, params })).filter((x) => x !== null); return xs.length ? xs.reduce((a, b) => `${a},${b}`) : null; }
    if (e.name === "sum") { const xs = combos.map((c) => value(e.args[0], { scopes: c, params })).filter((x) => x !== null); return xs.length ? xs.reduce((a, b) => a + b) : null; }
    let best = null;
    for (const c of combos) { const v = value(e.args[0], { scopes: c, params }); if (v === null) continue; if (best === null || S.decide(e.name === "max" ? less(best, v) : less(v, best))) best = v; }
    return best;
  };
  const sort = (xs, key, o) => {
    const items = xs.map((x) => [key(x), x]);
    const before = (a, b) => { // a strictly before b
      const nullsFirst = o.nulls ? o.nulls === "first" : o.d;
      if (a === null || b === null) return a !== null ? !nullsFirst && b === null : nullsFirst && b !== null;
      return S.decide(o.d ? less(b, a) : less(a, b));
    };
    const out = [];
    for (const it of items) { let n = out.length; while (n > 0 && before(it[0], out[n - 1][0])) n--; out.splice(n, 0, it); }
    return out.map((x) => x[1]);
  };
  // the interface of the driver; every call takes time. What fails inside a transaction is taken back.
  const api = (extra, log) => {
    const run = async (q, v) => { await null; let rows; try { rows = execute(q, v, log); } catch (e) { for (let n = db.late ?? 0; n > 0; n--) await null; throw e; } await null; return rows; };
    const handle = S.mock({
    none: async (q, v) => { const r = await run(q, v); if (r.length) throw new Error("No return data was expected."); return null; },
    one: async (q, v, cb, ctx) => { const r = await run(q, v); if (r.length !== 1) throw new Error(r.length ? "Multiple rows were not expected." : "No data returned from the query."); return cb ? cb.call(ctx, r[0]) : r[0]; },
    oneOrNone: async (q, v, cb, ctx) => { const r = await run(q, v); if (r.length > 1) throw new Error("Multiple rows were not expected."); const x = r.length ? r[0] : null; return cb ? cb.call(ctx, x) : x; },
    many: async (q, v) => { const r = await run(q, v); if (!r.length) throw new Error("No data returned from the query."); return [...r]; },
    manyOrNone: async (q, v) => [...(await run(q, v))],
    any: async (q, v) => [...(await run(q, v))],
    query: async (q, v) => [...(await run(q, v))],
    map: async (q, v, f) => (await run(q, v)).map((r, n, a) => f(r, n, a)),
    result: async (q, v, cb) => { const r = await run(q, v); const x = { rows: [...r], rowCount: r.changed ?? r.length }; return cb ? cb(x) : x; },
    batch: (xs) => Promise.all(xs),
    tx: async (...a) => {
      const f = a[a.length - 1], own = [];
      try { const r = await f(api(more.extra ?? {}, own)); if (own.aborted) { if (log) throw new Error("current transaction is aborted"); undo(own); } log?.push(...own); return r; } catch (e) { undo(own); throw e; }
    },
    task: async (...a) => a[a.length - 1](handle),
    ...extra,
    }, "db");
    return handle;
  };
  const handle = api(more.extra ?? {});
  db.handle = handle;
  db.execute = execute;
  return db;
}
// stand-in of the database module: every session is on this one database
export function sessions(S, db, lib = "lib/digitraffic-common/src/database/database") {
  db.sessions = [];
  const session = (kind, tx) => async (f) => {
    const entry = { kind, open: true };
    db.sessions.push(entry);
    await null;
    try { const r = await (tx ? db.handle.tx(f) : f(db.handle)); entry.open = false; return r; } catch (e) { entry.open = false; entry.failed = true; throw e; }
  };
  S.stub(lib, { inDatabase: session("rw", false), inDatabaseReadonly: session("ro", false), inTransaction: session("tx", true) });
  S.stub("pg-promise", { __esModule: true, default: { PreparedStatement: class { constructor(o) { Object.assign(this, o); } }, PreparedStatementObject: Object, ParameterizedQuery: class { constructor(o) { Object.assign(this, typeof o === "string" ? { text: o } : o); } } } });
  return db;
}

// stand-in of the driver of MySQL: connections of a pool on this one database
export function mysqlPool(S, db, conf) {
  const pool = { taken: 0, given: 0, log: [], limit: 10 };
  const connection = () => {
    let tx, free = false;
    const run = (strict) => async (text, params) => {
      await null;
      if (free) throw new Error("connection is already released");
      if (strict && params) for (const v of Object.values(params)) if (v === undefined) throw new TypeError("Bind parameters must not contain undefined");
      const own = tx ?? [], at = own.length;
      let r;
      try { r = db.execute(text, params, own); } finally { delete own.aborted; }
      if (!tx) own.length = at;
      await null;
      return r.changed === undefined ? [r, []] : [{ affectedRows: r.changed }, undefined];
    };
    return S.mock({
      beginTransaction: async () => { await null; if (pool.failing === "begin") throw new Error("begin failed"); tx = []; },
      commit: async () => { await null; if (pool.failing === "commit") throw new Error("commit failed"); tx = undefined; pool.log.push("commit"); },
      rollback: async () => { await null; for (const f of (tx ?? []).reverse()) f(); tx = undefined; pool.log.push("rollback"); if (pool.failing === "rollback") throw new Error("rollback failed"); },
      release: () => { if (!free) { pool.given++; for (const f of (tx ?? []).reverse()) f(); tx = undefined; } free = true; },
      query: run(false),
      execute: run(true),
    }, "connection");
  };
  pool.open = () => pool.taken - pool.given;
  const handle = S.mock({
    getConnection: async () => { await null; if (pool.failing === "connect") throw new Error("no connection"); if (pool.open() >= pool.limit) return new Promise(() => {}); pool.taken++; return connection(); },
    end: async () => { await null; pool.log.push("end"); },
  }, "pool");
  const createPool = (o) => { pool.options = o; return handle; };
  S.stub("mysql2/promise.js", { createPool });
  S.stub("mysql2/promise", { createPool });
  return pool;
}
