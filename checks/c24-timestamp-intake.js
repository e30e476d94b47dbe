import { LIB, quiet, connections } from "./_util.js";
import { database, sessions } from "./_sql.js";
const P = "marine/portactivity/src/";
export const property = {
  id: "C24",
  title: "Port call times: only usable ones are kept, each on its own",
  statement: "A reported port call time is stored exactly when its kind, event and record times, source, ship number and port are present and well-formed, the predictor of departures and, for arrivals, traffic centre calculations for ships known within the hour to be moored, anchored, aground or slower than two knots excepted, and its port call (not needed from the predictor) and ship are known or found; it is stored once with those numbers, and its uncertainty only when the bounds are numbers around zero. A time from the port system for another port replaces the earlier ones of the same port call, all or nothing. Each message of a batch is handled once and in order, and only those that cannot be read or stored are reported back.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "any one or two faults in a report, symbolic numbers, speeds, states and ages, all earlier rows, batches of up to 3 messages failing at any statement" },
  why_tests_cant: "The tests need a database, try single faults and never fail a statement in the middle.",
  anchors: {
    files: [P + "service/timestamp-validation.ts", P + "service/timestamps.ts", P + "dao/timestamps.ts", P + "lambda/process-queue/process-queue.ts"],
    mechanism: [{ name: "validateTimestamp", where: P + "service/timestamp-validation.ts" }, { name: "saveTimestamp, saveTimestamps", where: P + "service/timestamps.ts" }, { name: "handlerFn", where: P + "lambda/process-queue/process-queue.ts" }],
    observe_at: "results and the rows of a small database that carries out the statements sent to it",
  },
  assumptions: ["the searches for a port call and for a ship's other number are answered by the harness", "the SQL of the other statements means what the harness's small interpreter makes of it"],
};
const COLS = ["id", "event_type", "event_time", "event_time_confidence_lower", "event_time_confidence_lower_diff", "event_time_confidence_upper", "event_time_confidence_upper_diff", "event_source", "record_time", "location_locode", "ship_mmsi", "ship_imo", "portcall_id", "location_portarea", "location_from_locode", "source_id"];
const world = (S, lookups = {}) => {
  const tables = {
    port_call_timestamp: { cols: COLS, unique: [["ship_imo", "event_source", "location_locode", "event_type", "event_time", "record_time", "portcall_id"]], rows: [] },
    vessel_location: { cols: ["mmsi", "sog", "nav_stat", "modified"], rows: [] },
  };
  const asked = [];
  const answers = (text, params) => {
    if (/port_area_details/.test(text) && /port_to_visit/.test(text)) { asked.push(["portcall", params]); return lookups.portcall === undefined ? [] : [{ port_call_id: lookups.portcall }]; }
    if (/AS mmsi\s*$/.test(text)) { asked.push(["mmsi", params]); return [{ mmsi: lookups.mmsi ?? null }]; }
    if (/AS imo\s*$/.test(text)) { asked.push(["imo", params]); return [{ imo: lookups.imo ?? null }]; }
  };
  const db = sessions(S, database(S, tables, { answers }));
  db.asked = asked;
  connections(S);
  return db;
};
const EVENT = "2024-05-01T10:00:00.000Z", RECORD = "2024-05-01T08:30:00Z";
const good = (more) => ({ eventType: "ETA", eventTime: EVENT, recordTime: RECORD, source: "Portnet", ship: { mmsi: 230000001, imo: 9000001 }, location: { port: "FIHKO" }, portcallId: 77, ...more });
const FAULTS = {
  none: () => true,
  "no type": (t) => { delete t.eventType; return false; },
  "unknown type": (t, S) => { t.eventType = S.choose("type", ["EETA", "eta", "", "ETX", null]); return false; },
  "no event time": (t, S) => { t.eventTime = S.choose("etime", [undefined, "", null]); return false; },
  "bad event time": (t, S) => { t.eventTime = S.choose("etime", ["yesterday", "2024-13-01T00:00:00Z", "2024-05-01T25:00:00Z"]); return false; },
  "no record time": (t, S) => { t.recordTime = S.choose("rtime", [undefined, ""]); return false; },
  "bad record time": (t, S) => { t.recordTime = S.choose("rtime", ["x", "2024-02-30T00:00:00Z"]); return false; },
  "no source": (t, S) => { t.source = S.choose("src", [undefined, ""]); return false; },
  "no ship": (t) => { delete t.ship; return false; },
  "ship numbers": (t, S) => { const mmsi = S.choose("has mmsi", [true, false]) ? S.int("mmsi", 0, 3) : undefined, imo = S.choose("has imo", [true, false]) ? S.int("imo", 0, 3) : undefined; t.ship = { mmsi, imo }; return S.or(mmsi !== undefined && S.decide(mmsi > 0), imo !== undefined && S.decide(imo > 0)); },
  "no location": (t) => { delete t.location; return false; },
  port: (t, S) => { const port = S.str("port", [0, 7], "A-Z"); t.location = { port }; return S.and(port.length > 0, port.length <= 5); },
  "port areas": (t, S) => { const from = S.str("from", [0, 7], "A-Z"), portArea = S.str("area", [0, 8], "A-Z"); t.location = { port: "FIHKO", from, portArea }; return S.and(from.length <= 5, portArea.length <= 6); },
};
export const harnesses = {
  accepted: {
    bounds: "any fault of 13 sorts with symbolic numbers and names, all kinds and sources",
    reach: ["accepted", "refused", "departure prediction"],
    async run(S) {
      quiet(S);
      const db = world(S);
      const { validateTimestamp } = S.load(P + "service/timestamp-validation.js");
      const t = good({ sourceId: "s1" });
      const fault = S.choose("fault", Object.keys(FAULTS));
      if (fault === "none") {
        t.eventType = S.choose("kind", ["ATA", "ATB", "ATD", "ETA", "ETB", "ETP", "ETD", "RPS", "PPS", "APS", "APC"]);
        t.source = S.choose("source", ["Portnet", "Awake.AI", "Awake.AI Pred", "Port HKO", "SCHEDULES_VTS_CONTROLLED", "SCHEDULES_CALCULATED", "Pilotweb", "Other"]);
      }
      const copy = { ...t };
      let ok = FAULTS[fault](t, S);
      if (t.eventType === "ETD" && t.source === "Awake.AI Pred") { S.reach("departure prediction"); ok = false; }
      const r = await S.settle(() => validateTimestamp(t, db.handle));
      S.assert(!r.error, "a report is decided");
      ok = S.decide(ok);
      S.reach(ok ? "accepted" : "refused");
      S.assert((r.value !== undefined) === ok, "accepted exactly when everything is there");
      if (ok) for (const k of ["eventType", "eventTime", "recordTime", "source", "sourceId", "ship", "location", "portcallId"]) S.assert(S.eq(r.value[k], t[k]), "what is accepted is as it was reported");
    },
  },
  uncertainty: {
    bounds: "bounds missing, of any type, or symbolic in quarters of -100..100 seconds; stored rounded outwards",
    reach: ["kept", "dropped", "zero"],
    async run(S) {
      quiet(S);
      const db = world(S);
      const { validateTimestamp } = S.load(P + "service/timestamp-validation.js");
      const dao = S.load(P + "dao/timestamps.js");
      const pick = (n) => { const k = S.choose(n, ["number", "missing", "null", "text", "nan"]); return { k, v: { number: k === "number" ? S.dec(n + "v", -400, 400, 4) : 0, missing: undefined, null: null, text: "-5", nan: NaN }[k] }; };
      const lo = pick("lower"), hi = pick("upper");
      const t = good();
      if (lo.k !== "missing") t.eventTimeConfidenceLowerDiff = lo.v;
      if (hi.k !== "missing") t.eventTimeConfidenceUpperDiff = hi.v;
      const r = await S.settle(() => validateTimestamp(t, db.handle));
      S.assert(r.value !== undefined, "bounds do not refuse a report");
      const ok = lo.k === "number" && hi.k === "number" && S.decide(S.and(lo.v <= 0, hi.v >= 0));
      S.reach(ok ? "kept" : "dropped");
      S.assert(ok ? S.and(S.eq(r.value.eventTimeConfidenceLowerDiff, lo.v), S.eq(r.value.eventTimeConfidenceUpperDiff, hi.v)) : r.value.eventTimeConfidenceLowerDiff === undefined && r.value.eventTimeConfidenceUpperDiff === undefined, "the uncertainty is kept exactly when its bounds are around zero");
      await dao.updateTimestamp(db.handle, r.value);
      const [row] = db.tables.port_call_timestamp.rows;
      const L = row.event_time_confidence_lower_diff, U = row.event_time_confidence_upper_diff;
      if (!ok) S.assert(L === null && U === null, "no uncertainty is stored");
      else {
        if (S.decide(lo.v === 0)) S.reach("zero");
        S.assert(L !== null && U !== null && S.and(L <= lo.v, lo.v < L + 1, U >= hi.v, hi.v > U - 1), "the stored uncertainty is rounded outwards");
      }
    },
  },
  stationary: {
    bounds: "two positions of symbolic ships, ages 0..3 h, speeds 0..5 knots in tenths, all states, arrivals and other kinds, from the traffic centre and elsewhere",
    reach: ["refused", "accepted", "old position", "no number"],
    async run(S) {
      quiet(S);
      const db = world(S);
      const { validateTimestamp } = S.load(P + "service/timestamp-validation.js");
      const now = 1714550000000;
      S.world.time = now;
      const rows = [0, 1].slice(0, S.choose("positions", [1, 2])).map((i) => ({ mmsi: S.int("ship" + i, 1, 2), sog: S.dec("sog" + i, 0, 50, 10), nav_stat: S.int("state" + i, 0, 15), modified: S.date("seen" + i, now - 3 * 3600000, now) }));
      db.tables.vessel_location.rows = rows;
      if (rows.length > 1) S.assume(S.not(S.eq(rows[0].modified, rows[1].modified)));
      const eventType = S.choose("kind", ["ETA", "ETB", "ETD", "ATA"]), source = S.choose("source", ["SCHEDULES_CALCULATED", "Awake.AI"]);
      const hasNumber = S.choose("number", [true, false]);
      const t = good({ eventType, source, ship: hasNumber ? { mmsi: 1 } : { imo: 5 } });
      const r = await S.settle(() => validateTimestamp(t, db.handle));
      let last;
      for (const w of rows) if (S.decide(S.and(w.mmsi === 1, w.modified.getTime() > now - 3600000)) && (!last || S.decide(w.modified.getTime() > last.modified.getTime()))) last = w;
      if (!last) S.reach("old position");
      if (!hasNumber) S.reach("no number");
      const applies = source === "SCHEDULES_CALCULATED" && (eventType === "ETA" || eventType === "ETB") && hasNumber && last;
      const still = applies && S.decide(S.or(last.nav_stat === 1, last.nav_stat === 5, last.nav_stat === 6, last.sog < 2));
      S.reach(still ? "refused" : "accepted");
      S.assert(!r.error && (r.value === undefined) === !!still, "estimates for ships known to be still are refused");
    },
  },
  save: {
    bounds: "every source, numbers given, found or unknown (0..3), two earlier rows of symbolic port calls, ports and sources, an equal row, any statement failing",
    reach: ["stored", "no port call", "no ship", "moved", "already there", "failed", "prediction without port call"],
    async run(S) {
      quiet(S);
      const portcallId = S.choose("portcall given", [true, false]) ? 77 : undefined;
      const given = S.choose("given", ["both", "imo", "mmsi"]);
      const found = { portcall: portcallId ? undefined : S.choose("portcall found", [undefined, 78]), imo: given === "mmsi" ? S.choose("imo found", [undefined, 11]) : undefined, mmsi: given === "imo" ? S.choose("mmsi found", [undefined, 12]) : undefined };
      const db = world(S, found);
      const { saveTimestamp } = S.load(P + "service/timestamps.js");
      const source = S.choose("source", ["Portnet", "Awake.AI Pred", "Awake.AI", "Pilotweb"]);
      const eventType = portcallId ? "ETA" : S.choose("kind", ["ETA", "ETB"]);
      const ship = { ...(given !== "mmsi" && { imo: 5 }), ...(given !== "imo" && { mmsi: 6 }) };
      const t = good({ source, eventType, portcallId, ship });
      const pid = portcallId ?? found.portcall, imo = ship.imo ?? found.imo, mmsi = ship.mmsi ?? found.mmsi;
      const table = db.tables.port_call_timestamp;
      // two earlier rows, the second maybe the very same report
      const row = (i, same) => ({ id: 100 + i, event_type: eventType, event_time: new S.world.Date(same ? EVENT : EVENT), event_source: S.choose("source" + i, [source, "Portnet"].slice(0, source === "Portnet" ? 1 : 2)), record_time: new S.world.Date(same ? RECORD : "2024-05-01T07:00:00Z"), location_locode: S.choose("port" + i, ["FIHKO", "FIHEL"]), ship_mmsi: mmsi, ship_imo: imo ?? 5, portcall_id: S.int("portcall" + i, 76, 78) });
      const same = S.choose("same", [true, false]);
      table.rows = [row(0, false), ...(same ? [{ ...row(1, true), event_source: source, location_locode: "FIHKO", portcall_id: pid ?? null }] : [])];
      const before = table.rows.map((r) => ({ ...r }));
      const failAt = S.choose("fails", [undefined, "insert", "delete"]);
      const cause = new Error("no more space");
      if (failAt) { db.failing = (s) => s.kind === failAt; db.failing.error = cause; }
      const r = await S.settle(() => saveTimestamp(t, db.handle));
      const usable = (pid !== undefined || source === "Awake.AI Pred") && imo !== undefined;
      if (!usable) {
        S.reach(imo === undefined ? "no ship" : "no port call");
        S.assert(!r.error && r.value === undefined && S.eq(table.rows, before), "without a port call or ship nothing is stored");
        return;
      }
      if (pid === undefined) S.reach("prediction without port call");
      const asked = db.asked.find((a) => a[0] === "portcall");
      S.assert((asked !== undefined) === (portcallId === undefined), "the port call is searched for exactly when it is not given");
      if (asked) S.assert(asked[1] === undefined || S.eq([...asked[1]].slice(2, 4), ["FIHKO", eventType === "ETB" && source === "Awake.AI" ? "ETA" : eventType]), "the port call is searched for by port and kind");
      const gone = before.filter((b) => source === "Portnet" && pid !== undefined && b.event_source === "Portnet" && b.location_locode !== "FIHKO" && S.decide(b.portcall_id === pid));
      if (failAt === "insert" || (failAt === "delete" && gone.length)) { S.reach("failed"); S.assert(r.error === cause && S.eq(table.rows, before), "a failure leaves everything as it was"); return; }
      S.assert(!r.error, "saving succeeds");
      const kept = before.filter((b) => !gone.some((g) => g === b));
      if (gone.length) S.reach("moved");
      const there = same && pid !== undefined && S.decide(S.eq(before[1].ship_imo, imo));
      const added = table.rows.filter((x) => x.id === null || x.id === undefined);
      S.assert(S.eq(table.rows.filter((x) => x.id !== null && x.id !== undefined), kept), "only rows of the same port call for another port are removed");
      if (there) { S.reach("already there"); S.assert(added.length === 0 && r.value === undefined, "the same report is stored once"); return; }
      S.reach("stored");
      S.assert(added.length === 1, "one row is stored");
      const a = added[0];
      S.assert(a.event_type === eventType && a.event_source === source && a.location_locode === "FIHKO" && S.eq(a.portcall_id, pid ?? null) && S.eq(a.ship_imo, imo) && S.eq(a.ship_mmsi, mmsi ?? null), "the row has the ship's and port call's numbers");
      S.assert(a.event_time.getTime() === Date.parse(EVENT) && a.record_time.getTime() === Date.parse(RECORD), "the row has the reported times");
      S.assert(r.value && r.value.locodeChanged === gone.length > 0, "it is told whether the port changed");
    },
  },
  batch: {
    bounds: "0..3 messages, each fine, refused, unreadable, without a port call, or failing in the database",
    reach: ["reported back", "all fine", "stored"],
    async run(S) {
      quiet(S);
      const db = world(S);
      S.stub("@middy/core", { default: (f) => ({ use: () => f }), __esModule: true });
      S.stub("@middy/sqs-partial-batch-failure", { default: () => ({}), __esModule: true });
      const { handlerFn } = S.load(P + "lambda/process-queue/process-queue.js");
      const n = S.choose("n", [0, 1, 2, 3]);
      const kinds = Array.from({ length: n }, (_, i) => S.choose("m" + i, ["fine", "refused", "unreadable", "fails", "no port call"]));
      const body = (k, i) => {
        if (k === "unreadable") return S.choose("text" + i, ["{", "", "undefined"]);
        return JSON.stringify(good({ portcallId: k === "no port call" ? undefined : 10 + i, eventType: k === "refused" ? "XXX" : "ETA", sourceId: k === "fails" ? "fails" : "s" + i }));
      };
      db.failing = (s) => s.kind === "insert" && s.params.includes("fails");
      const r = await S.settle(() => handlerFn()({ Records: kinds.map((k, i) => ({ messageId: String(i), body: body(k, i) })) }));
      S.assert(!r.error && r.value.length === n, "every message has an outcome");
      kinds.forEach((k, i) => S.assert((r.value[i].status === "rejected") === (k === "unreadable" || k === "fails"), "only messages that cannot be read or stored are reported back"));
      const ids = db.tables.port_call_timestamp.rows.map((x) => x.portcall_id);
      S.assert(S.eq(ids, kinds.map((k, i) => [k, 10 + i]).filter(([k]) => k === "fine").map(([, i]) => i)), "the good ones are stored once, in order");
      S.assert(db.sessions.every((s) => !s.open), "the session is over when the answer is given");
      if (kinds.some((k) => k === "unreadable" || k === "fails")) S.reach("reported back"); else S.reach("all fine");
      if (ids.length) S.reach("stored");
    },
  },
};
