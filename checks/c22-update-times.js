import { LIB, quiet } from "./_util.js";
import { database } from "./_sql.js";
export const property = {
  id: "C22",
  title: "A recorded update time is read back, and only for what was updated",
  statement: "After the update time of a kind of data, with or without a subtype, or of a named thing has been recorded any number of times, in any order, reading it gives the time recorded last for exactly that kind and subtype or name, and null for one never recorded; other update times stay as they were. A name's last updater is kept with it.",
  quantifier: { over: ["histories", "inputs"], text: "all histories of up to 3 updates (4 thorough) over two kinds, symbolic subtypes, names and times, read from any place" },
  why_tests_cant: "The tests replace the database; the statements sent to it are never carried out, and no test updates twice.",
  anchors: {
    files: ["lib/digitraffic-common/src/database/last-updated.ts"],
    mechanism: [{ name: "updateLastUpdated, getLastUpdated and their variants", where: "lib/digitraffic-common/src/database/last-updated.ts" }],
    observe_at: "the statements sent to the database, carried out by a small database of symbolic rows",
  },
  assumptions: ["the tables have the unique keys and the default subtype the statements rely on", "the SQL of these statements means what the harness's small interpreter makes of it"],
};
const tables = () => ({
  data_updated: { cols: ["id", "data_type", "subtype", "updated"], defaults: { subtype: "-" }, required: ["id", "data_type", "subtype"], unique: [["id"], ["data_type", "subtype"]] },
  updated_timestamp: { cols: ["updated_name", "updated_time", "updated_by"], required: ["updated_name", "updated_time", "updated_by"], unique: [["updated_name"]] },
});
export const harnesses = {
  kinds: {
    bounds: "1..3 updates (4 thorough) of two kinds, each with or without a symbolic subtype of 0..1 characters, times 0..2^31 ms; one read of any of them",
    reach: ["overwritten", "never recorded", "other subtype"],
    async run(S) {
      quiet(S);
      const db = database(S, tables());
      const m = S.load(LIB + "database/last-updated.js");
      const types = [m.DataType.VS_DATEX2, m.DataType.PERMIT_DATA];
      const n = S.choose("n", S.thorough ? [1, 2, 3, 4] : [1, 2, 3]);
      const log = [];
      const about = (k) => { const w = S.choose("about" + k, [0, 1, 2, 3]); return { type: types[w % 2], sub: w > 1 ? S.str("sub" + k, [0, 1], "ab-") : undefined }; };
      for (let k = 0; k < n; k++) {
        const a = about(k), t = S.date("t" + k, 0, 2 ** 31);
        const r = await S.settle(() => (a.sub === undefined ? m.updateLastUpdated(db.handle, a.type, t) : m.updateLastUpdatedWithSubtype(db.handle, a.type, a.sub, t)));
        S.assert(!r.error, "an update succeeds");
        log.push({ ...a, t });
      }
      const q = about("q");
      const got = await S.settle(() => (q.sub === undefined ? m.getLastUpdated(db.handle, q.type) : m.getLastUpdatedWithSubtype(db.handle, q.type, q.sub)));
      const key = (x) => (x.sub === undefined ? "-" : x.sub);
      let last, hits = 0, other = false;
      for (const l of log) if (l.type === q.type) { if (S.decide(S.eq(key(l), key(q)))) { last = l; hits++; } else other = true; }
      if (hits > 1) S.reach("overwritten");
      if (other) S.reach("other subtype");
      if (!last) S.reach("never recorded");
      S.assert(!got.error, "reading succeeds");
      S.assert(last ? got.value != null && S.eq(got.value.getTime(), last.t.getTime()) : got.value === null, "the time recorded last is read back, or null");
    },
  },
  names: {
    bounds: "1..3 updates (4 thorough) of symbolic names of 1 character by someone or nobody, one read of any name",
    reach: ["overwritten", "never recorded", "nobody"],
    async run(S) {
      quiet(S);
      const t = tables();
      const db = database(S, t);
      const m = S.load(LIB + "database/last-updated.js");
      const n = S.choose("n", S.thorough ? [1, 2, 3, 4] : [1, 2, 3]);
      const log = [];
      for (let k = 0; k < n; k++) {
        const name = S.str("name" + k, [1, 1], "abc"), time = S.date("t" + k, 0, 2 ** 31), by = S.choose("by" + k, [undefined, "me" + k]);
        const r = await S.settle(() => (by === undefined ? m.updateUpdatedTimestamp(db.handle, name, time) : m.updateUpdatedTimestamp(db.handle, name, time, by)));
        S.assert(!r.error, "an update succeeds");
        log.push({ name, time, by });
      }
      const q = S.str("q", [1, 1], "abc");
      const got = await S.settle(() => m.getUpdatedTimestamp(db.handle, q));
      let last, hits = 0;
      for (const l of log) if (S.decide(S.eq(l.name, q))) { last = l; hits++; }
      if (hits > 1) S.reach("overwritten");
      if (!last) S.reach("never recorded");
      S.assert(!got.error && (last ? got.value != null && S.eq(got.value.getTime(), last.time.getTime()) : got.value === null), "the time recorded last is read back, or null");
      if (last) {
        const row = t.updated_timestamp.rows.find((r) => S.decide(S.eq(r.updated_name, q)));
        if (!last.by) S.reach("nobody");
        S.assert(row.updated_by === (last.by ?? ""), "the last updater is kept");
      }
    },
  },
};
