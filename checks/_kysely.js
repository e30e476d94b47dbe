// stand-in of the query builder: makes the statement and its parameters
const q = (n) => n.split(".").map((x) => `"${x}"`).join(".");
export function kysely(S, dbModule) {
  const isRaw = (v) => v !== null && typeof v === "object" && v.$raw !== undefined;
  const compile = (f) => { const parameters = []; const put = (v) => (isRaw(v) ? v.$raw : `$${parameters.push(v)}`); const sql = f(put); return { sql, parameters }; };
  const where = (st, put) => (st.where.length ? " where " + st.where.map(([c, op, v]) => `${q(c)} ${op} ${Array.isArray(v) ? `(${v.map(put).join(", ")})` : put(v)}`).join(" and ") : "");
  const fn = (name, cols) => ({ as: (a) => ({ $raw: `${name}(${cols.map(q).join(", ")})`, as: a }) });
  for (const f of ["max", "min", "count"]) fn[f] = (c) => fn(f, [c]);
  const column = (c) => (isRaw(c) ? `${c.$raw}${c.as ? ` as ${c.as}` : ""}` : / as /.test(c) ? c.split(" as ").map(q).join(" as ") : q(c));
  const select = (st) => S.mock({
    select: (c) => { const x = typeof c === "function" ? c(S.mock({ fn }, "expression builder")) : c; return select({ ...st, cols: [...st.cols, ...(Array.isArray(x) ? x : [x])] }); },
    where: (c, op, v) => select({ ...st, where: [...st.where, [c, op, v]] }),
    leftJoin: (t, a, b) => select({ ...st, join: `${st.join} left join ${q(t)} on ${q(a)} = ${q(b)}` }),
    innerJoin: (t, a, b) => select({ ...st, join: `${st.join} join ${q(t)} on ${q(a)} = ${q(b)}` }),
    orderBy: (c, d) => select({ ...st, order: [...st.order, ...[c].flat().map((x) => q(x) + (d ? " " + d : ""))] }),
    $if: (cond, f) => (cond ? f(select(st)) : select(st)),
    compile: () => compile((put) => `select ${st.cols.map(column).join(", ")} from ${q(st.from)}${st.join}${where(st, put)}${st.order.length ? " order by " + st.order.join(", ") : ""}`),
  }, "select");
  const insert = (t, rows) => S.mock({
    values: (v) => insert(t, Array.isArray(v) ? v : [v]),
    compile: () => compile((put) => { const cols = [...new Set(rows.flatMap((r) => Object.keys(r).filter((c) => r[c] !== undefined)))]; return `insert into ${q(t)} (${cols.map(q).join(", ")}) values ${rows.map((r) => `(${cols.map((c) => (r[c] === undefined ? "default" : put(r[c]))).join(", ")})`).join(", ")}`; }),
  }, "insert");
  const update = (st) => S.mock({
    set: (a, b) => update({ ...st, set: [...st.set, ...(typeof a === "string" ? [[a, b]] : Object.entries(a)).filter(([, v]) => v !== undefined)] }),
    where: (c, op, v) => update({ ...st, where: [...st.where, [c, op, v]] }),
    compile: () => compile((put) => `update ${q(st.t)} set ${st.set.map(([c, v]) => `${q(c)} = ${put(v)}`).join(", ")}${where(st, put)}`),
  }, "update");
  const sql = (strings, ...vs) => { if (vs.length) S.gap("raw statement with values"); return { $raw: strings.join("") }; };
  S.stub("kysely", { sql });
  S.stub(dbModule, { database: S.mock({ selectFrom: (from) => select({ from, join: "", cols: [], where: [], order: [] }), insertInto: (t) => insert(t, []), updateTable: (t) => update({ t, set: [], where: [] }) }, "database") });
}
