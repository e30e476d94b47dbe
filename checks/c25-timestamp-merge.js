import { LIB, quiet, connections } from "./_util.js";
import { database, sessions } from "./_sql.js";
const P = "marine/portactivity/src/";
export const property = {
  id: "C25",
  title: "Port call times are shown merged, latest and in order",
  statement: "Of each source, kind, ship, port and port call only the time recorded last is shown, in order of event time; the two automatic estimates of one port call and kind are shown as one, at their mean time, the traffic centre's left out when recorded an hour ago or later by an hour than the other (to full minutes upwards), and a prediction only when neither is there and no equal one names its port call. Every other time is shown once and unchanged, under its source's public name, on the page of ships as in the interface, unless out of the asked place, ship, source or window. Ships whose arrival needs predicting are each taken once, by their next port call, unless about to arrive.",
  quantifier: { over: ["inputs"], text: "symbolic event and record times in milliseconds, up to 5 times of one port call, 3 rows of the database differing in any of the keys, any texts in names" },
  why_tests_cant: "The tests merge single examples with fixed times and need a database for the rest; limits of an hour, ties and mixtures of sources are not tried.",
  anchors: {
    files: [P + "event-sourceutil.ts", P + "service/timestamps.ts", P + "dao/timestamps.ts", P + "service/shiplist.ts", P + "dao/shiplist-public.ts", P + "lambda/get-shiplist-public/get-shiplist-public.ts", P + "lambda/get-timestamps/get-timestamps.ts"],
    mechanism: [{ name: "mergeTimestamps", where: P + "event-sourceutil.ts" }, { name: "findAllTimestamps, findETAShipsByLocode", where: P + "service/timestamps.ts" }, { name: "getShiplist", where: P + "service/shiplist.ts" }],
    observe_at: "results and pages, the statements carried out by a small database of symbolic rows",
  },
  assumptions: ["one source gives one time per port call and kind, as rows recorded later replace earlier ones", "the SQL means what the harness's small interpreter makes of it"],
};
const NOW = 1714550400000, MIN = 60000, HOUR = 60 * MIN;
const SOURCES = ["Portnet", "Awake.AI Pred", "Awake.AI", "SCHEDULES_VTS_CONTROLLED", "SCHEDULES_CALCULATED", "Port HKO", "Pilotweb"];
const PUBLIC = { Portnet: "PNET", "Awake.AI Pred": "PRED", "Awake.AI": "VTS A", SCHEDULES_VTS_CONTROLLED: "VTS O", SCHEDULES_CALCULATED: "VTS A", "Port HKO": "Port HKO", Pilotweb: "Pilotweb" };
const VTS = "SCHEDULES_CALCULATED", AWAKE = "Awake.AI", PRED = "Awake.AI Pred";
const time = (t) => Date.parse(t);
const COLS = ["id", "event_type", "event_time", "event_time_confidence_lower", "event_time_confidence_lower_diff", "event_time_confidence_upper", "event_time_confidence_upper_diff", "event_source", "record_time", "location_locode", "ship_mmsi", "ship_imo", "portcall_id", "location_portarea", "location_from_locode", "source_id"];
const row = (S, r) => ({ ...Object.fromEntries(COLS.map((c) => [c, null])), event_type: "ETA", event_source: "Portnet", location_locode: "FIHKO", ship_mmsi: 230000001, ship_imo: 9074729, portcall_id: 1, event_time: new S.world.Date(NOW), record_time: new S.world.Date(NOW), ...r });
const setup = (S, more = {}) => {
  S.world.time = NOW;
  const db = sessions(S, database(S, { port_call_timestamp: { cols: COLS, rows: [] }, ...more }));
  connections(S);
  return db;
};
const sorted = (S, xs) => S.and(true, ...xs.slice(1).map((x, i) => x >= xs[i]));
// the times of a list, each asserted to be that of exactly one expected entry
function sameTimes(S, got, expected, key, what) {
  S.assert(got.length === expected.length, what);
  for (const e of expected) {
    const g = got.filter((x) => key(x) === key(e));
    S.assert(g.length === 1, what);
    if (g.length === 1) S.assert(S.eq(g[0], e), what);
  }
}
export const harnesses = {
  merge: {
    bounds: "one time of any subset of 2..5 sources for one port call and kind (4 thorough), event and record times symbolic within 3 hours",
    reach: ["merged", "old", "differs", "prediction", "prediction left out"],
    budgetMs: 240000,
    async run(S) {
      quiet(S);
      S.world.time = NOW;
      const { mergeTimestamps } = S.load(P + "event-sourceutil.js");
      const sets = [[VTS, AWAKE], [AWAKE, VTS], [VTS, PRED], [PRED, AWAKE], [AWAKE, PRED, VTS], ["Portnet", VTS, AWAKE], [PRED, "Portnet"], ["Port HKO", PRED, VTS], ...(S.thorough ? [["Portnet", "SCHEDULES_VTS_CONTROLLED", AWAKE, VTS], ["Portnet", PRED, AWAKE, VTS]] : [])];
      const set = S.choose("sources", sets);
      const eventType = S.choose("kind", ["ETA", "ETB"]);
      const portcallId = S.choose("portcall", [4, undefined]);
      const stamps = set.map((source, i) => ({ eventType, eventTime: S.date("event" + i, NOW, NOW + 3 * HOUR).toISOString(), recordTime: source === VTS ? S.date("record" + i, NOW - 2 * HOUR, NOW).toISOString() : new S.world.Date(NOW).toISOString(), source, sourceId: "id" + i, ship: { imo: 5 }, location: { port: "FIHKO" }, ...(portcallId !== undefined && { portcallId }) }));
      const copy = stamps.map((s) => ({ ...s }));
      const got = mergeTimestamps(stamps);
      S.assert(S.eq(stamps, copy), "what is merged stays as it was");
      const at = (s) => new S.world.Date(s.eventTime).getTime();
      const vts = copy.find((s) => s.source === VTS), awake = copy.find((s) => s.source === AWAKE);
      const old = vts && S.decide(NOW - new S.world.Date(vts.recordTime).getTime() > 59 * MIN);
      const differs = vts && awake && S.decide(at(vts) - at(awake) > 59 * MIN);
      if (old) S.reach("old");
      if (differs) S.reach("differs");
      const autos = copy.filter((s) => s === awake || (s === vts && !old && !differs));
      const expected = copy.filter((s) => s.source !== VTS && s.source !== AWAKE && (s.source !== PRED || !autos.length));
      if (copy.some((s) => s.source === PRED)) S.reach(autos.length ? "prediction left out" : "prediction");
      if (autos.length === 2) { S.reach("merged"); expected.push({ ...vts, eventTime: new S.world.Date((at(vts) + at(awake)) / 2).toISOString() }); } else expected.push(...autos);
      sameTimes(S, got, expected, (s) => s.source, "exactly the merged times are shown");
      S.assert(sorted(S, got.map(at)), "in order of event time");
    },
  },
  apart: {
    bounds: "3 times of up to two port calls, or none named, two kinds, ships and times; predictions and automatic estimates",
    reach: ["duplicate", "apart", "merged"],
    async run(S) {
      quiet(S);
      S.world.time = NOW;
      const { mergeTimestamps } = S.load(P + "event-sourceutil.js");
      const stamps = [0, 1, 2].map((i) => ({ eventType: i ? S.choose("kind" + i, ["ETA", "ETB"]) : "ETA", eventTime: new S.world.Date(NOW + S.int("m" + i, 0, 1) * MIN).toISOString(), recordTime: new S.world.Date(NOW).toISOString(), source: S.choose("source" + i, i === 2 ? [PRED, AWAKE, VTS] : [PRED, AWAKE]), sourceId: "id" + i, ship: { imo: i === 1 ? S.choose("ship" + i, [5, 6]) : 5 }, location: { port: i === 1 ? S.choose("port" + i, ["FIHKO", "FIHEL"]) : "FIHKO" }, portcallId: S.choose("call" + i, [undefined, 4, 5].slice(0, i === 2 ? 2 : 3)) }));
      // one source gives one time per port call and kind
      for (const a of stamps) for (const b of stamps) if (a !== b && a.source === b.source && a.source !== PRED && a.portcallId === b.portcallId && a.eventType === b.eventType) S.assume(false);
      const got = mergeTimestamps(stamps);
      const dup = (s) => s.source === PRED && s.portcallId === undefined && stamps.some((o) => o.source === PRED && o.portcallId !== undefined && o.ship.imo === s.ship.imo && o.location.port === s.location.port && o.eventType === s.eventType && S.decide(o.eventTime === s.eventTime));
      const expected = [];
      for (const s of stamps) {
        if (dup(s)) { S.reach("duplicate"); continue; }
        const autos = stamps.filter((o) => (o.source === AWAKE || o.source === VTS) && o.portcallId === s.portcallId && o.eventType === s.eventType);
        if (s.source === PRED) { if (!autos.length) expected.push(s); continue; }
        if (autos.length === 1) { expected.push(s); S.reach("apart"); continue; }
        S.reach("merged");
        if (s.source === VTS) expected.push({ ...s, eventTime: new S.world.Date((new S.world.Date(autos[0].eventTime).getTime() + new S.world.Date(autos[1].eventTime).getTime()) / 2).toISOString() });
      }
      sameTimes(S, got, expected, (s) => s.sourceId, "times of other port calls and kinds are kept apart");
    },
  },
  latest: {
    bounds: "3 rows of symbolic record times, the second and third differing from the first in one key each; asked by port, ship numbers or source",
    reach: ["replaced", "both", "named later"],
    async run(S) {
      quiet(S);
      const db = setup(S);
      const { findAllTimestamps } = S.load(P + "service/timestamps.js");
      const change = (i) => ({ nothing: {}, port: { location_locode: "FIHEL" }, ship: { ship_imo: 7, ship_mmsi: 8 }, source: { event_source: "Pilotweb" }, kind: { event_type: "ETD" }, call: { portcall_id: 2 }, "no call": { portcall_id: null } })[S.choose("differs" + i, ["nothing", "port", "ship", "source", "kind", "call", "no call"])];
      const rows = [{}, change(1), ...(S.choose("third", [true, false]) ? [change(2)] : [])].map((c, i) => row(S, { ...c, source_id: "r" + i, event_time: new S.world.Date(NOW + i * HOUR), record_time: S.date("record" + i, NOW - HOUR, NOW) }));
      db.tables.port_call_timestamp.rows = rows;
      const by = S.choose("by", ["locode", "mmsi", "imo", "source", "both"]);
      const r = await S.settle(() => findAllTimestamps(by === "locode" ? "fihko" : undefined, by === "mmsi" || by === "both" ? 230000001 : undefined, by === "imo" || by === "both" ? 9074729 : undefined, by === "source" ? "Portnet" : undefined));
      const asked = (x) => (by === "locode" ? x.location_locode === "FIHKO" : by === "source" ? x.event_source === "Portnet" : x.ship_imo === 9074729);
      const newer = (x, y) => S.decide(y.record_time.getTime() > x.record_time.getTime());
      const group = (x, y) => ["event_type", "location_locode", "ship_imo", "event_source"].every((k) => x[k] === y[k]) && (x.portcall_id === null || y.portcall_id === null || x.portcall_id === y.portcall_id);
      const expected = rows.filter((x) => asked(x) && !rows.some((y) => y !== x && group(x, y) && newer(x, y)));
      if (expected.length < rows.filter(asked).length) S.reach("replaced");
      if (expected.length > 1) S.reach("both");
      if (expected.some((x) => x.portcall_id === null)) S.reach("named later");
      S.assert(!r.error, "the search succeeds");
      sameTimes(S, r.value, expected.map((x) => ({ eventType: x.event_type, eventTime: x.event_time.toISOString(), recordTime: x.record_time.toISOString(), source: PUBLIC[x.event_source], sourceId: x.source_id, ship: { mmsi: x.ship_mmsi, imo: x.ship_imo }, location: { port: x.location_locode, portArea: null, from: null }, portcallId: x.portcall_id, eventTimeConfidenceLowerDiff: null, eventTimeConfidenceUpperDiff: null })), (s) => s.sourceId, "the times recorded last are shown");
    },
  },
  window: {
    bounds: "one row of any source, symbolic time from 13 hours ago to 15 days ahead; asked by the port, the port departed from, another, ship or source",
    reach: ["shown", "past", "far ahead", "departure"],
    async run(S) {
      quiet(S);
      const db = setup(S);
      const { findAllTimestamps } = S.load(P + "service/timestamps.js");
      const source = S.choose("source", SOURCES);
      const x = row(S, { event_source: source, location_from_locode: "FIHEL", event_time: S.date("event", NOW - 13 * HOUR, NOW + 15 * 24 * HOUR), event_time_confidence_lower_diff: -5, event_time_confidence_upper_diff: 6, location_portarea: "A" });
      db.tables.port_call_timestamp.rows = [x];
      const by = S.choose("by", ["FIHKO", "FIHEL", "FITKU", "mmsi", "other mmsi", "imo", "other imo", "source", "other source", "nothing"]);
      const r = await S.settle(() => findAllTimestamps(by.startsWith("FI") ? by : undefined, { mmsi: 230000001, "other mmsi": 230000002 }[by], { imo: 9074729, "other imo": 9074730 }[by], { source, "other source": "Elsewhere" }[by]));
      const asked = ["FIHKO", "mmsi", "imo", "source"].includes(by) || (by === "FIHEL" && source === "Pilotweb");
      if (asked && by === "FIHEL") S.reach("departure");
      const t = x.event_time.getTime();
      const past = S.decide(t <= NOW - 12 * HOUR), far = source === "Portnet" && S.decide(t >= NOW + 14 * 24 * HOUR);
      if (past) S.reach("past");
      if (far) S.reach("far ahead");
      const shown = asked && !past && !far;
      if (shown) S.reach("shown");
      S.assert(!r.error && r.value.length === (shown ? 1 : 0), "a time is shown exactly within its window and place");
      if (shown) S.assert(S.eq(r.value[0], { eventType: "ETA", eventTime: x.event_time.toISOString(), recordTime: x.record_time.toISOString(), source: PUBLIC[source], sourceId: null, ship: { mmsi: 230000001, imo: 9074729 }, location: { port: "FIHKO", portArea: "A", from: "FIHEL" }, portcallId: 1, eventTimeConfidenceLowerDiff: -5, eventTimeConfidenceUpperDiff: 6 }), "all of it is shown");
    },
  },
  request: {
    bounds: "every mixture of given and missing parameters, valid and not",
    reach: ["answered", "bad request"],
    async run(S) {
      quiet(S);
      const db = setup(S);
      const { handler } = S.load(P + "lambda/get-timestamps/get-timestamps.js");
      const e = {};
      const locode = S.choose("locode", [undefined, "FIHKO", "fihel", "SEGOT", "FIHKOO"]), mmsi = S.choose("mmsi", [undefined, 230000001, 99999999, 1000000000]), imo = S.choose("imo", [undefined, 9074729, 9074728, 999999]), source = S.choose("source", [undefined, "Portnet"]);
      Object.assign(e, locode && { locode }, mmsi && { mmsi }, imo && { imo }, source && { source });
      const r = await S.settle(() => handler(e));
      const given = locode || mmsi || imo || source;
      const ok = given && (!locode || /^FI[A-Z]{3}$/i.test(locode)) && (!mmsi || mmsi === 230000001) && (!imo || imo === 9074729);
      S.reach(ok ? "answered" : "bad request");
      S.assert(!r.error && r.value.status === (ok ? 200 : 400), "answered exactly when what is given is valid");
      if (!ok) S.assert(db.statements.length === 0, "nothing is searched for a bad request");
    },
  },
  page: {
    bounds: "one or two times, names that may end the script, with 1..2 symbolic characters, window of symbolic hours, actual and estimated arrivals",
    reach: ["listed", "arrived", "past", "beyond", "unauthorized", "merged", "default window", "named"],
    async run(S) {
      quiet(S);
      const db = setup(S, { vessel: { cols: ["imo", "name", "timestamp"], rows: [] }, port_call: { cols: ["imo_lloyds", "vessel_name"], rows: [] } });
      S.stub("lib/digitraffic-common/src/aws/runtime/secrets/secret-holder", { SecretHolder: { create: () => S.mock({ get: async () => { await null; return { auth: "right" }; } }, "secret") } });
      const { handler } = S.load(P + "lambda/get-shiplist-public/get-shiplist-public.js");
      const auth = S.choose("auth", ["right", "wrong", undefined, "no port", "bad port"]);
      if (auth !== "right") {
        S.reach("unauthorized");
        const r = await handler({ queryStringParameters: auth === undefined ? null : auth === "wrong" ? { auth, locode: "FIHKO" } : auth === "no port" ? { auth: "right" } : { auth: "right", locode: "SEGOT" } });
        S.assert(r.statusCode === { wrong: 403, undefined: 401, "no port": 400, "bad port": 400 }[auth] && db.statements.length === 0, "without the right key and a port there is no page");
        return;
      }
      const what = S.choose("what", ["time", "name", "merge", "arrived"]);
      const type = what === "time" ? S.choose("kind", ["ETA", "ATA", "ATD", "ETD"]) : "ETA";
      const hours = what === "time" ? S.choose("hours", [undefined, "1", "24"]) : "24";
      const t = what === "time" ? S.date("event", NOW - 7 * HOUR, NOW + 97 * HOUR) : new S.world.Date(NOW + HOUR);
      const rows = [row(S, { event_type: type, event_time: t, source_id: "a" })];
      let name = "Unknown";
      if (what === "name") {
        const from = S.choose("named by", ["vessel", "port call"]);
        name = S.str("name", [1, 2], "<!\"A") + S.choose("rest", ["/SCRIPT>", "!--", "-"]);
        if (from === "vessel") db.tables.vessel.rows.push({ imo: 9074729, name: "OLD", timestamp: new S.world.Date(1) }, { imo: 9074729, name, timestamp: new S.world.Date(2) }, { imo: 5, name: "OTHER", timestamp: new S.world.Date(3) });
        else db.tables.port_call.rows.push({ imo_lloyds: 9074729, vessel_name: name });
      }
      if (what === "merge") rows.splice(0, 1, row(S, { event_source: AWAKE, event_time: t }), row(S, { event_source: VTS, event_time: new S.world.Date(t.getTime() + S.int("later", 0, 58) * MIN) }));
      if (what === "arrived") rows.push(row(S, { event_type: "ATA", event_time: new S.world.Date(NOW - 8 * HOUR), portcall_id: S.choose("call", [1, 2]) }));
      db.tables.port_call_timestamp.rows = rows;
      const r = await handler({ queryStringParameters: { auth: "right", locode: "fihko", ...(hours && { interval: hours }) } });
      S.assert(r.statusCode === 200, "the page is given");
      const from = r.body.indexOf("var shiplist = "), to = r.body.indexOf(";\n", from);
      const text = r.body.slice(from + 15, to);
      S.assert(from >= 0 && to > from, "the page has the list of ships");
      S.assert(S.not(S.or(text.toLowerCase().includes("</script"), text.includes("<!--"))), "no name can end the script");
      const list = JSON.parse(text);
      if (what === "time") {
        const limit = { undefined: 96, 1: 1, 24: 24 }[hours];
        if (!hours) S.reach("default window");
        const past = S.decide(t.getTime() <= NOW - (type === "ATA" || type === "ATD" ? 6 : 1) * HOUR), beyond = S.decide(t.getTime() >= NOW + limit * HOUR);
        if (past) S.reach("past");
        if (beyond) S.reach("beyond");
        S.assert(list.length === (past || beyond ? 0 : 1), "exactly the times within the window are listed");
        if (list.length) { S.reach("listed"); S.assert(S.and(S.eq(list[0].event_time, t.toISOString()), list[0].event_type === type, list[0].source === "PNET", list[0].ship_imo === 9074729), "a time is listed as it is"); }
      } else if (what === "name") { S.reach("named"); S.assert(list.length === 1 && S.eq(list[0].ship_name, name), "the latest known name is listed"); }
      else if (what === "merge") {
        S.reach("merged");
        const mean = new S.world.Date((rows[0].event_time.getTime() + rows[1].event_time.getTime()) / 2).toISOString();
        S.assert(list.length === 1 && list[0].source === "VTS A" && S.and(S.eq(list[0].event_time, mean), S.eq(list[0].eventTime, mean)), "merged estimates are listed at their mean time");
      } else { S.reach("arrived"); S.assert(list.length === (rows[1].portcall_id === 1 ? 0 : 1), "an arrived ship's estimate is not listed"); }
    },
  },
  ships: {
    bounds: "two port calls of one or two ships with symbolic arrivals, one with an automatic estimate of symbolic time; arrived, old, of other kinds, sources and ports",
    reach: ["next", "close", "none"],
    async run(S) {
      quiet(S);
      const db = setup(S, { port_call: { cols: ["port_call_id", "port_call_timestamp"], rows: [] }, port_area_details: { cols: ["port_call_id", "ata"], rows: [] } });
      const { findETAShipsByLocode } = S.load(P + "service/timestamps.js");
      const second = S.choose("second ship", [true, false]) ? 7 : 5;
      const odd = S.choose("odd", [undefined, "kind", "source", "port", "arrived", "old", "recorded"]);
      const rows = [5, second].map((imo, i) => row(S, { ship_imo: imo, ship_mmsi: imo, portcall_id: i + 1, event_time: S.date("eta" + i, NOW - HOUR, NOW + 85 * HOUR), record_time: new S.world.Date(NOW - HOUR), location_portarea: "A" + i }));
      S.assume(S.not(S.eq(rows[0].event_time, rows[1].event_time)));
      if (odd === "kind") rows[0].event_type = "ETD";
      if (odd === "source") rows[0].event_source = "Pilotweb";
      if (odd === "port") rows[0].location_locode = "FIHEL";
      if (odd === "recorded") rows.push({ ...rows[0], event_time: new S.world.Date(NOW + 100 * HOUR), record_time: new S.world.Date(NOW) });
      db.tables.port_call.rows = [1, 2].map((n) => ({ port_call_id: n, port_call_timestamp: new S.world.Date(NOW - (odd === "old" && n === 1 ? 73 : 71) * HOUR) }));
      db.tables.port_area_details.rows = [1, 2].map((n) => ({ port_call_id: n, ata: odd === "arrived" && n === 1 ? new S.world.Date(NOW) : null }));
      const auto = row(S, { ship_imo: 5, ship_mmsi: 5, portcall_id: 1, event_source: AWAKE, event_time: S.date("auto", NOW - MIN, NOW + 30 * MIN) });
      db.tables.port_call_timestamp.rows = [...rows, auto];
      const r = await S.settle(() => findETAShipsByLocode(["FIHKO", "FITKU"]));
      S.assert(!r.error, "the search succeeds");
      const ok = [!odd, true].map((x, i) => x && S.decide(rows[i].event_time.getTime() < NOW + 84 * HOUR));
      let chosen = rows.slice(0, 2).filter((x, i) => ok[i]);
      if (chosen.length === 2 && second === 5) { S.reach("next"); chosen = [S.decide(chosen[0].event_time.getTime() < chosen[1].event_time.getTime()) ? chosen[0] : chosen[1]]; }
      const close = chosen.some((x) => x.portcall_id === 1) && S.decide(auto.event_time.getTime() < NOW + 15 * MIN);
      if (close) { S.reach("close"); chosen = chosen.filter((x) => x.portcall_id !== 1); }
      if (!chosen.length) S.reach("none");
      sameTimes(S, r.value.map((s) => ({ imo: s.imo, locode: s.locode, area: s.port_area_code, call: s.portcall_id, eta: s.eta })), chosen.map((x) => ({ imo: x.ship_imo, locode: "FIHKO", area: x.location_portarea, call: x.portcall_id, eta: x.event_time })), (s) => s.imo, "each ship is taken by its next port call");
    },
  },
};
