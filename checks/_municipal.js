// the tables of the municipal trackings; statements that compute geometries are carried out here
import { database, sessions } from "./_sql.js";
const split = (text) => { const out = []; let depth = 0, at = 0; for (let i = 0; i < text.length; i++) { const c = text[i]; if (c === "(") depth++; else if (c === ")") depth--; else if (c === "," && !depth) { out.push(text.slice(at, i)); at = i + 1; } } out.push(text.slice(at)); return out.map((x) => x.trim()); };
export function municipal(S, { earlier = [], machines = [], contract = true, contracts, mappings } = {}) {
  const T = "maintenance_tracking";
  let next = 1000;
  const tables = {
    [T]: { cols: ["id", "sending_system", "sending_time", "last_point", "geometry", "work_machine_id", "start_time", "end_time", "direction", "finished", "domain", "contract", "message_original_id", "previous_tracking_id"], rows: earlier.map(({ tasks, ...r }) => ({ previous_tracking_id: null, direction: null, ...r })) },
    maintenance_tracking_task: { cols: ["maintenance_tracking_id", "task"], rows: earlier.flatMap((r) => r.tasks.map((task) => ({ maintenance_tracking_id: r.id, task }))) },
    maintenance_tracking_work_machine: { cols: ["id", "harja_id", "harja_urakka_id", "type"], unique: [["harja_id", "harja_urakka_id"]], rows: machines },
    maintenance_tracking_domain: { cols: ["name", "source"], unique: [["name"]], rows: [] },
    maintenance_tracking_domain_contract: { cols: ["domain", "contract", "name", "source", "start_date", "end_date", "data_last_updated"], unique: [["domain", "contract"]], rows: contracts ?? (contract ? [{ domain: "x", contract: "x", name: "x", source: "src", start_date: null, end_date: null, data_last_updated: null }] : []) },
    maintenance_tracking_domain_task_mapping: { cols: ["name", "original_id", "domain", "ignore", "info"], unique: [["domain", "original_id"]], rows: mappings ?? [{ name: "T1", original_id: "a", domain: "x", ignore: false }, { name: "T9", original_id: "a", domain: "y", ignore: false }] },
    data_updated: { cols: ["id", "data_type", "subtype", "updated"], defaults: { subtype: "-" }, unique: [["data_type", "subtype"]], rows: [] },
  };
  const db = sessions(S, database(S, tables, {
    fns: { nextval: (seq) => (String(seq).includes("work_machine") ? Math.max(0, ...db.tables.maintenance_tracking_work_machine.rows.map((r) => r.id)) + 1 : next++) },
    answers(text, params, ctx) {
      const rows = db.tables[T].rows;
      const param = (e) => { const m = /\$([0-9]+)/.exec(e); return m ? params[m[1] - 1] ?? null : undefined; };
      const flat = text.replace(/--[^\n]*/g, " ").replace(/\s+/g, " ");
      let m;
      if ((m = /^\s*WITH geometry AS \( SELECT (.*?) AS geometry \), .*INSERT INTO maintenance_tracking ?\((.*?)\) SELECT (.*?) FROM finalGeometry RETURNING id\s*;?\s*$/i.exec(flat))) {
        const cols = split(m[2]), values = split(m[3]);
        if (cols.length !== values.length) throw new Error("INSERT has more or fewer expressions than target columns");
        ctx.check("insert", T);
        const row = { direction: null, previous_tracking_id: null };
        cols.forEach((c, i) => {
          const v = /nextval/i.test(values[i]) ? next++ : /finalGeometry\.geometry/i.test(values[i]) ? param(m[1]) : param(values[i]);
          row[c.toLowerCase()] = (c === "geometry" || c === "last_point") && typeof v === "string" ? JSON.parse(v).coordinates : v;
        });
        db.tables[T].rows = [...rows, row];
        ctx.undo(() => { db.tables[T].rows = db.tables[T].rows.filter((x) => x !== row); });
        return [{ id: row.id }];
      }
      if (/^\s*WITH geometry AS .*UPDATE maintenance_tracking tgt SET finished = true, end_time = \$2, last_point = [^$]*\$3[^$]*, geometry = finalGeometry\.geometry, direction = \$4 FROM finalGeometry WHERE tgt\.finished = false AND tgt\.id = finalGeometry\.id\s*;?\s*$/i.test(flat) && /ST_MakeLine\(geometry, [^$]*\$3/i.test(flat) && /WHERE tracking\.id = \$1 AND tracking\.finished = false \)/i.test(flat)) {
        ctx.check("update", T);
        for (const row of rows) if (!row.finished && S.decide(S.eq(row.id, params[0]))) {
          const was = { ...row };
          ctx.undo(() => Object.assign(row, was));
          const at = /^POINT\(([^ ]+) ([^ ]+) ([^ ]+)\)$/.exec(params[2]);
          if (!at) throw new Error("parse error - invalid geometry");
          Object.assign(row, { finished: true, end_time: params[1], last_point: at.slice(1).map(Number), direction: params[3] ?? null });
        }
        return [];
      }
      if (/array_agg\(task\.task/i.test(flat) && /where finished = false and domain = \$1::text and work_machine_id = \$2::bigint and not exists\( ?select null from maintenance_tracking other where other\.previous_tracking_id = t\.id ?\) group by t\.id, t\.end_time order by t\.end_time desc limit 1\s*;?\s*$/i.test(flat)) {
        ctx.check("select", T);
        let best;
        for (const t of rows) {
          if (t.finished || t.domain !== params[0] || t.work_machine_id !== params[1] || rows.some((o) => o.previous_tracking_id === t.id)) continue;
          const tasks = db.tables.maintenance_tracking_task.rows.filter((x) => x.maintenance_tracking_id === t.id).map((x) => x.task).sort();
          if (tasks.length && (!best || t.end_time.getTime() > best.end_time.getTime())) best = { id: t.id, last_point: JSON.stringify({ type: "Point", coordinates: t.last_point }), end_time: t.end_time, work_machine_id: t.work_machine_id, finished: t.finished, tasks };
        }
        return best ? [best] : [];
      }
    },
  }));
  db.contract = contract;
  db.trackings = () => db.tables[T].rows.map((r) => ({ ...r, tasks: db.tables.maintenance_tracking_task.rows.filter((x) => x.maintenance_tracking_id === r.id).map((x) => x.task) }));
  db.machineOf = (id) => db.tables[T].rows.find((r) => r.id === id)?.work_machine_id;
  return db;
}
