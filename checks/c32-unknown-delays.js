import { quiet } from "./_util.js";
import { database, mysqlPool } from "./_sql.js";
const P = "rail/rami/src/";
export const property = {
  id: "C32",
  title: "Unknown delays and tracks of trains end up at their timetable rows",
  statement: "Of each stop of a monitored train that takes passengers on, the arrival and the departure are passed on with whether their time or track is unknown, for the train and day of its journey; replacement buses are not, and what cannot be read is kept aside word for word. Each is set at the timetable row of the same station, kind and minute, with a line of history for each change, all of a message or nothing of it also when statements fail, each message of a batch succeeds or is reported as failed on its own, and what is older than a day is deleted.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "journeys of 1..2 stops with any times missing or not and any train number, any timetable times within two minutes, any earlier state, the first 0..3 tries of statements failing" },
  why_tests_cant: "The tests need a database and use two fixed messages; no statement of theirs fails, and no second or minute boundary is met.",
  anchors: {
    files: [P + "service/process-sm-message.ts", P + "service/process-udot-message.ts", P + "dao/udot.ts", P + "dao/time_table_row.ts", P + "dao/stop_monitoring_message.ts", P + "lambda/process-sm-queue/process-sm-queue.ts", P + "lambda/process-udot-queue/process-udot-queue.ts"],
    mechanism: [{ name: "parseUDOTMessage, parseMonitoredCall, parseTrain", where: P + "service/process-sm-message.ts" }, { name: "processUdotMessage, findAttapId", where: P + "service/process-udot-message.ts" }, { name: "insertOrUpdate, executeWithRetry, deleteOldValues", where: P + "dao/udot.ts" }],
    observe_at: "rows of a small database that carries out the statements sent to it, messages sent to queues, results of the handlers",
  },
  assumptions: ["rows of the timetable have ids above zero", "a row is counted as changed when a statement hits it, as the driver does"],
};
const NOW = Date.UTC(2024, 5, 12, 10, 0), MIN = 60000, DAY = 86400000;
const tables = (rows = [], udot = []) => ({
  time_table_row: { cols: ["attap_id", "train_number", "departure_date", "station_short_code", "scheduled_time", "type"], rows },
  rami_udot: { cols: ["train_number", "train_departure_date", "attap_id", "unknown_delay", "unknown_track", "created_db", "model_updated_time"], unique: [["train_departure_date", "train_number", "attap_id"]], required: ["train_number", "train_departure_date", "attap_id", "unknown_delay", "unknown_track"], rows: udot },
  rami_udot_history: { cols: ["rami_message_id", "train_number", "train_departure_date", "attap_id", "unknown_track", "unknown_delay", "created_db"], required: ["rami_message_id", "unknown_track", "unknown_delay"], rows: [] },
  rami_stop_monitoring_message: { cols: ["rami_message_id", "train_number", "train_departure_date", "message", "created_db"], required: ["rami_message_id", "train_number", "train_departure_date", "message"], rows: [] },
});
function setup(S, t) {
  const sent = [];
  quiet(S);
  S.world.time = NOW;
  Object.assign(S.world.process.env, { SECRET_ID: "s", DB_USER: "u", DB_PASS: "p", DB_URI: "h", DB_APPLICATION: "d", ROSM_SQS_URL: "rosm", DLQ_URL: "dlq", UDOT_SQS_URL: "udot" });
  const db = database(S, t, { mysql: true });
  const pool = mysqlPool(S, db);
  S.stub("@aws-sdk/client-sqs", { SendMessageCommand: class { constructor(o) { this.o = o; } }, SQSClient: class { async send(c) { await null; if (S.queueFails?.(c.o)) throw new Error("queue down"); sent.push({ to: c.o.QueueUrl, body: c.o.MessageBody }); } } });
  S.stub("@middy/core", { default: (h) => S.mock({ use: () => h }, "middy") });
  S.stub("@middy/sqs-partial-batch-failure", { default: () => ({}) });
  return { db, pool, sent };
}
async function run(S, lambda, bodies) {
  const { handlerFn } = S.load(`${P}lambda/${lambda}/${lambda}.js`);
  await S.ready();
  return S.settle(() => handlerFn()({ Records: bodies.map((body, i) => ({ body, messageId: "q" + i })) }));
}
const headers = { e2eId: "e1", source: "s", eventType: null, recordedAtTime: "2024-01-01T00:00:00Z" };
const iso = (S, t) => new S.world.Date(t).toISOString();
const sm = (name, monitoredCall, onwardCalls, more = {}) => ({ headers, payload: { monitoredStopVisits: [{ monitoredVehicleJourney: { monitoredCall, onwardCalls, vehicleJourneyName: name } }] }, ...more });
export const harnesses = {
  journey: {
    bounds: "a journey of 1..2 stops, arrival and departure each missing, expected or not, with a track or not; taking passengers on or not; any train number of 5 digits, bus or train; the passing on failing or not",
    reach: ["arrival", "departure", "no passengers", "bus", "nothing to pass on"],
    async run(S) {
      const { db, pool, sent } = setup(S, tables());
      const n = S.choose("stops", [1, 2]);
      const digits = S.str("number", 5, "0123456789");
      const bus = n === 1 && S.choose("bus", [false, true]);
      const expected = [], calls = [];
      for (let i = 0; i < n; i++) {
        const boarding = S.choose("boarding" + i, ["boarding", "noBoarding"]);
        const kinds = i === 0 ? ["no", "known", "late"] : ["no", "late"];
        const arr = S.choose("arrival" + i, kinds), dep = S.choose("departure" + i, kinds);
        const quays = S.choose("quays" + i, i === 0 ? [[true, true], [true, false], [false, true]] : [[false, true], [true, false]]);
        const t1 = NOW + S.int("t1" + i, 0, 100000) * 1000, t2 = NOW + S.int("t2" + i, 0, 100000) * 1000;
        calls.push({ stopPointRef: "ST" + i, departureBoardingActivity: boarding, arrivalStopAssignment: quays[0] ? { expectedQuayName: "1" } : {}, departureStopAssignment: quays[1] ? { expectedQuayName: "2" } : {}, ...(arr !== "no" && { aimedArrivalTime: iso(S, t1) }), ...(dep !== "no" && { aimedDepartureTime: iso(S, t2) }), ...(arr === "known" && { expectedArrivalTime: iso(S, t1) }), ...(dep === "known" && { expectedDepartureTime: iso(S, t2) }) });
        if (boarding !== "boarding") { S.reach("no passengers"); continue; }
        if (arr !== "no") expected.push({ station: "ST" + i, type: 0, time: t1, delay: arr !== "known", track: !quays[0] });
        if (dep !== "no") expected.push({ station: "ST" + i, type: 1, time: t2, delay: dep !== "known", track: !quays[1] });
      }
      const body = JSON.stringify(sm("202406121" + digits + (bus ? "BUS" : ""), calls[0], calls.slice(1)));
      const r = await run(S, "process-sm-queue", [body]);
      S.assert(!r.error && r.value[0].status === "fulfilled", "the message is taken");
      const kept = db.tables.rami_stop_monitoring_message.rows;
      S.assert(kept.length === 1 && kept[0].rami_message_id === "e1" && S.and(S.eq(kept[0].train_number, Number(digits)), kept[0].train_departure_date === "2024-06-12", S.eq(kept[0].message, body)), "the message is kept as it came, with its train and day");
      S.assert(pool.open() === 0, "no connection is kept");
      if (bus || expected.length === 0) { S.reach(bus ? "bus" : "nothing to pass on"); S.assert(sent.length === 0, "nothing is passed on"); return; }
      S.assert(sent.length === 1 && sent[0].to === "udot", "it is passed on once");
      const u = JSON.parse(sent[0].body);
      S.assert(u.messageId === "e1" && S.and(S.eq(u.trainNumber, Number(digits)), u.departureDate === "2024-06-12"), "for its train and day");
      S.assert(u.data.length === expected.length, "the arrivals and departures of the stops that take passengers on");
      expected.forEach((e) => {
        S.reach(e.type ? "departure" : "arrival");
        const mine = u.data.filter((x) => x.stationShortCode === e.station && x.type === e.type);
        S.assert(mine.length === 1 && S.and(S.eq(Date.parse(mine[0].scheduledTime), e.time), mine[0].unknownDelay === e.delay, mine[0].unknownTrack === e.track), "each with what is unknown of it");
      });
    },
  },
  unreadable: {
    bounds: "batches of 1..2 messages: good, not a message, a journey's name of wrong length, none or two visits, or failing to be kept",
    reach: ["good", "refused", "unreadable", "fails"],
    async run(S) {
      const { db, pool, sent } = setup(S, tables());
      const call = { stopPointRef: "A", departureBoardingActivity: "boarding", arrivalStopAssignment: {}, departureStopAssignment: {}, aimedArrivalTime: "2024-06-12T10:00:00Z" };
      const name = "20240612100123";
      const make = {
        good: () => sm(name, call, []),
        short: () => sm("2024061210012", call, []),
        extra: () => sm(name, call, [], { other: 1 }),
        none: () => ({ headers, payload: { monitoredStopVisits: [] } }),
        two: () => { const m = sm(name, call, []); m.payload.monitoredStopVisits.push(m.payload.monitoredStopVisits[0]); return m; },
        fails: () => sm(name, call, [], {}),
        unreadable: () => undefined,
      };
      const kinds = [0, 1].slice(0, S.choose("n", [1, 2])).map((i) => S.choose("kind" + i, Object.keys(make)));
      const bodies = kinds.map((k, i) => { const m = make[k](); if (!m) return "{"; return JSON.stringify({ ...m, headers: { ...headers, e2eId: k === "fails" ? "fails" : "e" + i } }); });
      db.failing = (s) => s.kind === "insert" && s.params.id === "fails";
      const r = await run(S, "process-sm-queue", bodies);
      S.assert(!r.error && r.value.length === kinds.length, "every message has its result");
      S.assert(pool.open() === 0, "no connection is kept");
      kinds.forEach((k, i) => {
        const aside = sent.filter((x) => x.to === "dlq" && JSON.parse(x.body).message === bodies[i]);
        const passed = sent.filter((x) => x.to === "udot" && JSON.parse(x.body).messageId === "e" + i);
        const kept = db.tables.rami_stop_monitoring_message.rows.filter((x) => x.message === bodies[i]);
        S.reach(k === "good" || k === "unreadable" || k === "fails" ? k : "refused");
        if (k === "good") S.assert(kept.length === 1 && passed.length === 1 && aside.length === 0, "a good message is kept and passed on");
        else {
          S.assert(kept.length === 0 && passed.length === 0, "others are not");
          if (k !== "fails" && k !== "unreadable") S.assert(aside.length === kinds.filter((x, j) => bodies[j] === bodies[i]).length && JSON.parse(aside[0].body).messageType === "SM", "what is refused is kept aside word for word");
        }
      });
    },
  },
  applied: {
    bounds: "a message of 1..2 rows for a timetable of 2 rows with any times within 2 minutes, an earlier state of the first row or not; the first 0..3 tries of the statements of one table failing",
    reach: ["set", "taken back", "nothing to take back", "other row", "tried again", "given up", "no timetable"],
    async run(S) {
      const train = 123, day = "2024-06-12";
      const n = S.choose("rows", [1, 2]);
      const s1 = 17;
      const rows = [{ attap_id: 11, type: 0 }, { attap_id: 12, type: 1 }, { attap_id: 13, type: 0, train_number: 9 }].map((r) => ({ train_number: train, departure_date: day, station_short_code: "A", ...r, scheduled_time: new S.world.Date(NOW + s1 * 1000) }));
      const none = n === 1 && S.choose("none", [false, true]);
      const was = S.choose("was", [undefined, [true, false], [false, false]]);
      const state = was ? [{ train_number: train, train_departure_date: day, attap_id: 11, unknown_delay: was[0], unknown_track: was[1], created_db: new S.world.Date(NOW), model_updated_time: null }] : [];
      state.push({ train_number: 9, train_departure_date: day, attap_id: 13, unknown_delay: true, unknown_track: true, created_db: new S.world.Date(NOW), model_updated_time: null });
      const { db, pool } = setup(S, tables(none ? rows.slice(2) : rows, state));
      const data = [];
      for (let i = 0; i < n; i++) {
        const v = S.choose("values" + i, i ? [[true, true], [false, false]] : [[false, false], [true, false], [false, true]]);
        const k = i ? "second" : S.choose("place", ["first", "other minute", "other station", "other kind"]);
        data.push({ stationShortCode: k === "other station" ? "B" : "A", type: k === "second" ? 1 : k === "other kind" ? 2 : 0, scheduledTime: iso(S, NOW + (k === "other minute" ? 60 : s1) * 1000), unknownDelay: v[0], unknownTrack: v[1], k, v, id: i ? 12 : 11 });
      }
      const fails = S.choose("failing", [0, 1, 2, 3]);
      const where = fails ? S.choose("where", ["rami_udot", "rami_udot_history", "read"]) : "";
      if (where && where !== "rami_udot" && fails > 1) return;
      let failed = 0;
      db.failing = (s) => { const hit = where === "read" ? s.kind === "select" : s.table === where && s.kind !== "select"; if (hit && failed < fails) { failed++; return true; } return false; };
      const body = JSON.stringify({ messageId: "e7", trainNumber: train, departureDate: day, vehicleJourneyName: "x", data: data.map(({ stationShortCode, type, scheduledTime, unknownDelay, unknownTrack }) => ({ stationShortCode, scheduledTime, type, unknownDelay, unknownTrack })) });
      const r = await run(S, "process-udot-queue", [body]);
      S.assert(!r.error && r.value.length === 1, "the message has its result");
      S.assert(pool.open() === 0, "no connection is kept");
      const row = (id) => db.tables.rami_udot.rows.filter((x) => x.attap_id === id);
      const history = (id) => db.tables.rami_udot_history.rows.filter((x) => x.attap_id === id);
      S.assert(row(13).length === 1 && row(13)[0].unknown_delay === true && row(13)[0].unknown_track === true && history(13).length === 0, "other trains stay as they were");
      const gaveUp = failed > 0 && (where !== "rami_udot" || fails === 3);
      if (gaveUp) {
        S.reach("given up");
        S.assert(r.value[0].status === "rejected", "a failed message is reported");
        S.assert(row(12).length === 0 && row(11).length === (was ? 1 : 0) && row(11).every((x) => x.unknown_delay === was[0] && x.unknown_track === was[1]) && db.tables.rami_udot_history.rows.length === 0, "nothing of it is done");
        return;
      }
      S.assert(r.value[0].status === "fulfilled", "the message is applied");
      if (failed) S.reach("tried again");
      if (none) S.reach("no timetable");
      for (const d of data) {
        const before = d.id === 11 ? was : undefined;
        const hits = !none && (d.k === "second" || d.k === "first");
        const now = row(d.id), h = history(d.id);
        if (!hits) { S.reach("other row"); S.assert(now.length === (before ? 1 : 0) && now.every((x) => x.unknown_delay === before[0] && x.unknown_track === before[1]) && h.length === 0, "a row that does not match stays as it was"); continue; }
        const clear = !d.v[0] && !d.v[1];
        if (clear && !(before && (before[0] || before[1]))) {
          S.reach("nothing to take back");
          S.assert(h.length === 0 && now.length === (before ? 1 : 0) && now.every((x) => !x.unknown_delay && !x.unknown_track), "what is known already is not stored");
          continue;
        }
        S.reach(clear ? "taken back" : "set");
        S.assert(now.length === 1 && now[0].unknown_delay === d.v[0] && now[0].unknown_track === d.v[1] && now[0].train_number === train && now[0].train_departure_date === day, "the row has what is unknown of it");
        S.assert(h.length === 1 && h[0].rami_message_id === "e7" && h[0].unknown_delay === d.v[0] && h[0].unknown_track === d.v[1] && h[0].train_number === train && h[0].train_departure_date === day, "and its history a line for the change");
      }
    },
  },
  minutes: {
    bounds: "a message for one row of the timetable, their times any seconds within two minutes",
    reach: ["same minute", "other minute"],
    async run(S) {
      const s1 = S.int("timetable", 0, 119), s2 = S.int("asked", 0, 119);
      const { db } = setup(S, tables([{ attap_id: 11, train_number: 1, departure_date: "2024-06-12", station_short_code: "A", scheduled_time: new S.world.Date(NOW + s1 * 1000), type: 1 }]));
      const body = JSON.stringify({ messageId: "e7", trainNumber: 1, departureDate: "2024-06-12", vehicleJourneyName: "x", data: [{ stationShortCode: "A", scheduledTime: iso(S, NOW + s2 * 1000), type: 1, unknownDelay: true, unknownTrack: true }] });
      const r = await run(S, "process-udot-queue", [body]);
      S.assert(!r.error && r.value[0].status === "fulfilled", "the message is applied");
      const hit = db.tables.rami_udot.rows.length === 1;
      S.reach(hit ? "same minute" : "other minute");
      S.assert(S.iff(hit, S.iff(s1 < 60, s2 < 60)), "a row is found by the minute of its time");
    },
  },
  batch: {
    bounds: "batches of 2 messages, each good, unreadable or failing",
    reach: ["good", "unreadable", "fails"],
    async run(S) {
      const day = "2024-06-12", t = new S.world.Date(NOW);
      const rows = [1, 2].map((i) => ({ attap_id: 10 + i, train_number: i, departure_date: day, station_short_code: "A", scheduled_time: t, type: 1 }));
      const { db, pool } = setup(S, tables(rows));
      const kinds = [1, 2].map((i) => S.choose("kind" + i, ["good", "unreadable", "fails"]));
      db.failing = (s) => s.table === "rami_udot_history" && kinds[s.params.trainNumber - 1] === "fails";
      const r = await run(S, "process-udot-queue", kinds.map((k, i) => (k === "unreadable" ? "{" : JSON.stringify({ messageId: "e" + i, trainNumber: i + 1, departureDate: day, vehicleJourneyName: "x", data: [{ stationShortCode: "A", scheduledTime: t.toISOString(), type: 1, unknownDelay: true, unknownTrack: false }] }))));
      S.assert(!r.error && r.value.length === 2, "every message has its result");
      S.assert(pool.open() === 0, "no connection is kept");
      kinds.forEach((k, i) => {
        S.reach(k);
        S.assert(r.value[i].status === (k === "good" ? "fulfilled" : "rejected"), "a message succeeds or fails on its own");
        S.assert(db.tables.rami_udot.rows.filter((x) => x.attap_id === 11 + i).length === (k === "good" ? 1 : 0), "only good messages are applied");
      });
    },
  },
  cleaning: {
    bounds: "two rows of each table of any age up to 3 days, failing or not",
    reach: ["deleted", "kept", "failed"],
    async run(S) {
      const ages = [0, 1].map((i) => S.int("age" + i, 0, 3 * 1440));
      const t = tables();
      for (const k of ["rami_udot", "rami_udot_history", "rami_stop_monitoring_message"]) t[k].rows = ages.map((a, i) => ({ attap_id: i, created_db: new S.world.Date(NOW - a * MIN) }));
      const { db, pool } = setup(S, t);
      const fails = S.choose("failing", [0, 1, 2, 3]);
      let n = 0;
      db.failing = () => ++n === fails;
      const { handler } = S.load(P + "lambda/delete-old-data/delete-old-data.js");
      await S.ready();
      const r = await S.settle(() => handler());
      S.assert(pool.open() === 0, "no connection is kept");
      for (const k of ["rami_udot", "rami_udot_history", "rami_stop_monitoring_message"]) {
        const rows = db.tables[k].rows;
        if (fails) { S.reach("failed"); S.assert(!!r.error && rows.length === 2, "a failed cleaning deletes nothing"); continue; }
        S.assert(!r.error, "cleaning does not fail");
        ages.forEach((a, i) => { const old = S.decide(a > 1440); S.reach(old ? "deleted" : "kept"); if (old || S.decide(a < 1440)) S.assert(rows.some((x) => x.attap_id === i) === !old, "rows of more than a day are deleted, others kept"); });
      }
    },
  },
};
