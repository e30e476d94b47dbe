import { quiet } from "./_util.js";
import { database, sessions } from "./_sql.js";
const P = "marine/winter-navigation/src/";
export const property = {
  id: "C33",
  title: "Winter navigation follows its source and shows what holds now",
  statement: "An update asks each kind of data for exactly the changes between the stored version and the version the source reports, stores each reported item with its properties as not deleted, marks the reported deletions and nothing else, and moves the version on only when all changes of that kind were stored, so that what a failure left out comes with the next update; kinds at the reported version are not asked for. Of locations, restrictions, port suspensions, fairway directions, vessels, assistances and queues exactly those that are not deleted are given, each under its own location or vessels, with the lines in the order of their points. Assistances and queues are given when they overlap the asked time (without an end: when they start in it; by default from a week ago), at the assisted vessel with the assisting one and the other way round; an unknown code or vessel is answered with 404, an impossible request with 400, a too large answer with 413 and a failure with 500.",
  quantifier: { over: ["inputs", "fault_sequences", "histories"], text: "any kind of data with up to 2 reported items, any versions, any statement or request failing and the update repeated; any times of assistances and asked times, any combination of deleted rows" },
  why_tests_cant: "The tests need a database and use random vessels that all have both numbers; nothing is deleted and reported again, and no statement fails.",
  anchors: {
    files: [P + "service/data-updater.ts", P + "service/vessel-service.ts", P + "service/location-service.ts", P + "service/dirway-service.ts", P + "db", P + "api/ibnet-api.ts"],
    mechanism: [{ name: "DataUpdater.updateObjects, setDeleted, updateDataVersion", where: P + "service/data-updater.ts" }, { name: "SQL_GET_VESSEL, SQL_GET_VESSELS", where: P + "db/vessels.ts" }, { name: "convertActivity, convertQueue", where: P + "service/vessel-service.ts" }, { name: "handlers", where: P + "lambda" }],
    observe_at: "requests to the source, rows of a small database that carries out the statements sent to it, responses of the handlers",
  },
  assumptions: ["identifiers of stored rows are unique per kind", "a location code belongs to one location"],
};
const NOW = Date.UTC(2024, 0, 20, 12), MIN = 60000, DAY = 86400000;
const KINDS = {
  location: ["wn_location", ["name", "type", "locode_list", "nationality", "latitude", "longitude", "winterport"]],
  restriction: ["wn_restriction", ["location_id", "text_compilation", "start_time", "end_time"]],
  vessel: ["wn_vessel", ["name", "callsign", "shortcode", "imo", "mmsi", "type"]],
  activity: ["wn_activity", ["icebreaker_id", "vessel_id", "type", "reason", "public_comment", "start_time", "end_time"]],
  source: ["wn_source", ["name", "shortname", "nationality", "type", "vessel_id"]],
  "port-suspension": ["wn_port_suspension", ["start_time", "end_time", "prenotification", "ports_closed", "due_to", "specifications"]],
  "port-suspension-location": ["wn_port_suspension_location", ["suspension_id", "location_id"]],
  queue: ["wn_queue", ["icebreaker_id", "vessel_id", "start_time", "end_time", "order_num"]],
  dirway: ["wn_dirway", ["name", "description"]],
  dirwaypoint: ["wn_dirwaypoint", ["dirway_id", "order_num", "name", "latitude", "longitude"]],
};
const NAMES = Object.keys(KINDS);
const tables = (rows = {}) => ({
  ...Object.fromEntries(NAMES.map((k) => [KINDS[k][0], { cols: ["id", ...KINDS[k][1], "deleted"], unique: [["id"]], required: ["id"], defaults: { deleted: false }, rows: rows[k] ?? [] }])),
  wn_data_version: { cols: ["table_name", "version", "modified"], unique: [["table_name"]], rows: rows.version ?? [] },
  updated_timestamp: { cols: ["updated_name", "updated_time", "updated_by"], unique: [["updated_name"]], rows: rows.updated ?? [] },
});
function setup(S, answer) {
  const requests = [];
  quiet(S);
  S.world.time = NOW;
  Object.assign(S.world.process.env, { SECRET_ID: "s" });
  S.stub("aws/runtime/secrets/proxy-holder", { ProxyHolder: { create: () => S.mock({ setCredentials: async () => { await null; } }, "proxyHolder") } });
  S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: { create: () => S.mock({ get: async () => { await null; return { url: "http://ib/", authHeaderValue: "key" }; } }, "secretHolder") } });
  S.stub("ky", { default: S.mock({ get: async (url, o) => { requests.push({ url, o }); await null; return answer(S.concrete(url), requests.length); } }, "ky") });
  return requests;
}
const reply = (S, body, status = 200) => S.mock({ status, statusText: "", ok: status < 400, json: async () => { await null; return body; } }, "response");
const version = (db, kind) => db.tables.wn_data_version.rows.find((r) => r.table_name === KINDS[kind][0])?.version;
const stamp = (db, name) => db.tables.updated_timestamp.rows.find((r) => r.updated_name === name)?.updated_time;
const blank = (S, x) => x === undefined || x === null;
const body = (r) => JSON.parse(Buffer.from(r.value.body, "base64").toString());
export const harnesses = {
  update: {
    bounds: "each of the 10 kinds with up to 2 reported items with any of 3 identifiers, deleted or not, with or without optional values, one row stored before; any stored version or none and any reported version",
    reach: ["same version", "changed", "new", "updated", "back again", "deleted", "nothing"],
    async run(S) {
      const kind = S.choose("kind", NAMES), [table, cols] = KINDS[kind];
      const had = S.choose("had", [true, false]);
      const stored = had ? S.int("stored", 0, 1000) : undefined, to = S.int("to", 0, 1000);
      const wasDeleted = S.bool("was deleted");
      const n = S.choose("n", S.thorough ? [0, 1, 2] : [0, 1, 2]);
      const optional = S.choose("optional", [true, false]);
      const items = [];
      for (let i = 0; i < n; i++) {
        const id = S.choose("id" + i, i ? ["a", "c"] : ["a", "b"]);
        S.assume(!items.some((x) => x.id === id));
        if (S.choose("deleted" + i, [false, true])) items.push({ id, deleted: true });
        else items.push({ id, rv: 5, ...Object.fromEntries(cols.map((c, k) => [c, `${c}-${i}`]).filter(([c], k) => optional || k === 0)) });
      }
      const old = () => ({ id: "a", ...Object.fromEntries(cols.map((c) => [c, "old-" + c])), deleted: wasDeleted });
      const other = () => ({ id: "z", ...Object.fromEntries(cols.map((c) => [c, "other-" + c])), deleted: false });
      const db = sessions(S, database(S, tables({ [kind]: [old(), other()], version: [...(had ? [{ table_name: table, version: stored, modified: 0 }] : []), ...NAMES.filter((k) => k !== kind).map((k) => ({ table_name: KINDS[k][0], version: to, modified: 0 }))] })));
      const asked = [];
      S.stub("ky", {});
      setup(S, (url) => {
        if (url === "http://ib/") return reply(S, { toRv: to });
        asked.push(url);
        return reply(S, items);
      });
      // the addresses are compared as they were put together
      const urls = [];
      S.stub("ky", { default: S.mock({ get: async (url, o) => { urls.push({ url, o }); await null; return urls.length === 1 ? reply(S, { toRv: to }) : reply(S, items); } }, "ky") });
      const { handler } = S.load(P + "lambda/update-data/update-data.js");
      const r = await S.settle(() => handler());
      S.assert(!r.error, "the update does not fail");
      S.assert(S.eq(urls[0].url, "http://ib/"), "the version is asked for first");
      S.assert(urls.every((u) => u.o.headers.Authorization === "Basic key"), "with the key");
      const rows = db.tables[table].rows, at = (id) => rows.find((x) => x.id === id);
      const is = (row, want, deleted) => row && cols.every((c) => (want[c] ?? null) === row[c]) && S.eq(row.deleted, deleted);
      if (had && S.decide(S.eq(stored, to))) {
        S.reach("same version");
        S.assert(urls.length === 1, "nothing is asked for without a new version");
        S.assert(rows.length === 2 && is(at("a"), old(), wasDeleted) && is(at("z"), other(), false), "nothing changes");
        return;
      }
      S.assert(urls.length === 2, "the changes are asked for once");
      S.assert(S.eq(urls[1].url, `http://ib/${kind}?from=${had ? stored : -1}&to=${to}`), "from the stored version to the reported one");
      S.assert(is(at("z"), other(), false), "what was not reported stays");
      for (const id of ["a", "b", "c"]) {
        const item = items.find((x) => x.id === id), row = at(id);
        if (!item) S.assert(id === "a" ? is(row, old(), wasDeleted) : !row, "what was not reported stays as it was");
        else if (item.deleted) { S.reach("deleted"); S.assert(id === "a" ? is(row, old(), true) : !row || S.decide(S.eq(row.deleted, true)), "a reported deletion is marked"); }
        else {
          S.reach(id !== "a" ? "new" : S.decide(wasDeleted) ? "back again" : "updated");
          S.assert(is(row, item, false), "a reported item is stored as not deleted");
        }
      }
      S.assert(rows.length === new Set(["a", "z", ...items.filter((x) => !x.deleted).map((x) => x.id)]).size, "no other rows");
      S.reach(n ? "changed" : "nothing");
      if (n) S.assert(S.eq(version(db, kind), to), "the version moves on");
      else S.assert(had ? S.or(S.eq(version(db, kind), stored), S.eq(version(db, kind), to)) : S.or(version(db, kind) === undefined, S.eq(version(db, kind), to)), "no other version");
      const check = stamp(db, table.toUpperCase() + "_CHECK");
      S.assert(!!check && S.eq(check.getTime(), NOW), "the check is recorded");
      const last = stamp(db, table.toUpperCase());
      S.assert(n ? !!last && S.eq(last.getTime(), NOW) : !last, "a change is recorded, and only a change");
    },
  },
  failures: {
    bounds: "all kinds with one new, one changed and one deleted item; the version request, the request of one kind (failing or with another status) or one of the first 60 changing statements fails; then the update runs again",
    reach: ["version failed", "request failed", "statement failed", "nothing failed"],
    async run(S) {
      const what = S.choose("failing", ["no", "version", "request", "status", "statement"]);
      const which = what === "request" || what === "status" ? S.choose("which", NAMES) : undefined;
      const at = what === "statement" ? S.int("at", 1, 60) : 0;
      let failing = true, count = 0, hit = false;
      const item = (kind, id, v) => ({ id, rv: 5, ...Object.fromEntries(KINDS[kind][1].map((c) => [c, v])) });
      const rows = Object.fromEntries(NAMES.map((k) => [k, ["b", "d"].map((id) => ({ id, ...Object.fromEntries(KINDS[k][1].map((c) => [c, "old"])), deleted: false }))]));
      const db = sessions(S, database(S, tables({ ...rows, version: NAMES.map((k) => ({ table_name: KINDS[k][0], version: 3, modified: 0 })) })));
      const asked = [];
      setup(S, (url) => {
        if (url === "http://ib/") { if (failing && what === "version") throw new Error("down"); return reply(S, { toRv: 8 }); }
        const m = /^http:\/\/ib\/([a-z-]+)\?from=(-?\d+)&to=8$/.exec(url);
        S.assert(!!m, "only known kinds are asked for");
        asked.push([m[1], Number(m[2])]);
        if (failing && m[1] === which) { if (what === "request") throw new Error("down"); return reply(S, [], 204); }
        return reply(S, [item(m[1], "a", "new"), { id: "d", deleted: true }, item(m[1], "b", "new")]);
      });
      db.failing = ({ kind }) => { if (!failing || kind === "select" || !at || hit) return false; hit = S.decide(S.eq(at, ++count)); return hit; };
      const { handler } = S.load(P + "lambda/update-data/update-data.js");
      const r = await S.settle(() => handler());
      const done = (k) => { const t = db.tables[KINDS[k][0]].rows, get = (id) => t.find((x) => x.id === id); return t.length === 3 && ["a", "b"].every((id) => { const x = get(id); return x && x.deleted === false && KINDS[k][1].every((c) => x[c] === "new"); }) && get("d").deleted === true; };
      if (what === "version") { S.reach("version failed"); S.assert(!!r.error && asked.length === 0, "without a version the update fails and asks nothing"); }
      if (hit) { S.reach("statement failed"); S.assert(!!r.error, "a failing statement makes the update fail"); }
      if (which) { S.reach("request failed"); S.assert(!r.error && version(db, which) === 3, "without changes the version stays"); }
      if (what === "no" || (what === "statement" && !hit)) { S.reach("nothing failed"); S.assert(!r.error && NAMES.every(done), "everything is stored"); }
      for (const k of NAMES) {
        S.assert(version(db, k) === 3 || (version(db, k) === 8 && done(k)), "the version moves on only with all changes stored");
        if (which && k !== which) S.assert(version(db, k) === 8, "the other kinds go on");
      }
      const before = Object.fromEntries(NAMES.map((k) => [k, version(db, k)]));
      failing = false;
      asked.length = 0;
      const again = await S.settle(() => handler());
      S.assert(!again.error && NAMES.every(done) && NAMES.every((k) => version(db, k) === 8), "the next update brings the rest");
      for (const k of NAMES) S.assert(asked.filter(([n, from]) => n === k && from === 3).length === (before[k] === 3 ? 1 : 0) && asked.filter(([n]) => n === k).length <= 1, "and asks only for the rest");
    },
  },
  locations: {
    bounds: "2 locations, 2 restrictions, 2 suspensions and 2 of their locations, each deleted or not, each under either location; all or one of 3 codes; the last update known or not",
    reach: ["all", "one", "unknown", "restriction", "suspension", "deleted location"],
    async run(S) {
      const del = (n) => S.bool("deleted " + n);
      const L = [{ id: "l1", name: "Kemi", type: "PORT", locode_list: "FIKEM,FIAJO", nationality: "FI", latitude: 65.5, longitude: 24.5, winterport: true, deleted: del("l1") }, { id: "l2", name: "Oulu", type: "PORT", locode_list: "FIOUL", nationality: "FI", latitude: null, longitude: null, winterport: false, deleted: del("l2") }];
      const where = S.choose("where", [["l1", "l1"], ["l2", "l1"], ["l2", "l2"]]);
      const R = [1, 2].map((n) => ({ id: "r" + n, location_id: where[n - 1], text_compilation: "text" + n, start_time: "s" + n, end_time: n === 1 ? null : "e" + n, deleted: n === 1 ? del("r1") : false }));
      const PS = [1, 2].map((n) => ({ id: "p" + n, start_time: "ps" + n, end_time: n === 1 ? "pe1" : null, prenotification: n === 1, ports_closed: n === 2, due_to: "due" + n, specifications: n === 1 ? "spec" : null, deleted: n === 1 ? del("p1") : false }));
      const link = S.choose("link", [["p1", "p1"], ["p1", "p2"]]);
      const PSL = [1, 2].map((n) => ({ id: "x" + n, suspension_id: link[n - 1], location_id: "l" + n, deleted: n === 1 ? del("x1") : false }));
      const known = S.choose("known", [true, false]);
      const db = sessions(S, database(S, tables({ location: L, restriction: R, "port-suspension": PS, "port-suspension-location": PSL, updated: known ? [{ updated_name: "WN_LOCATION_CHECK", updated_time: new S.world.Date(NOW - MIN) }] : [] })));
      setup(S, () => { throw new Error("nothing to ask"); });
      const { handler } = S.load(P + "lambda/get-locations/get-locations.js");
      const code = S.choose("code", [undefined, "FIAJO", "FIOUL", "FIXXX"]);
      const r = await S.settle(() => handler(code ? { locode: code } : {}));
      S.assert(!r.error, "the handler answers");
      const there = (x) => S.decide(S.eq(x.deleted, false));
      const want = L.filter((l) => (!code || l.locode_list.split(",").includes(code)) && there(l)).map((l) => ({
        type: "Feature",
        geometry: l.latitude === null ? null : { type: "Point", coordinates: [24.5, 65.5] },
        properties: {
          name: l.name, type: l.type, locodeList: l.locode_list, nationality: l.nationality, winterport: l.winterport,
          restrictions: R.filter((x) => x.location_id === l.id && there(x)).map((x) => (S.reach("restriction"), { startTime: x.start_time, endTime: x.end_time, textCompilation: x.text_compilation })),
          suspensions: PS.filter((p) => there(p) && PSL.some((x) => x.suspension_id === p.id && x.location_id === l.id && there(x))).map((p) => (S.reach("suspension"), { startTime: p.start_time, endTime: p.end_time, prenotification: p.prenotification, portsClosed: p.ports_closed, dueTo: p.due_to, specifications: p.specifications })),
        },
      }));
      if (code && !want.length) { S.reach(code === "FIXXX" ? "unknown" : "deleted location"); S.assert(r.value.status === 404, "an unknown location is answered with 404"); return; }
      S.assert(r.value.status === 200, "a known location is answered");
      S.assert(r.value.timestamp === (known ? new Date(NOW - MIN).toUTCString() : undefined), "with the time of the last check");
      const got = body(r), feature = (f) => ({ type: f.type, geometry: f.geometry, properties: { ...f.properties, restrictions: [...f.properties.restrictions].sort((a, b) => (a.startTime < b.startTime ? -1 : 1)), suspensions: [...f.properties.suspensions].sort((a, b) => (a.startTime < b.startTime ? -1 : 1)) } });
      if (code) { S.reach("one"); S.assert(S.eq(feature(got), want[0]), "the location with its own restrictions and suspensions"); return; }
      S.reach("all");
      S.assert(got.type === "FeatureCollection" && got.lastUpdated === (known ? new Date(NOW - MIN).toISOString() : null), "a collection with its time");
      S.assert(S.eq(got.features.map(feature), want), "all locations with their own restrictions and suspensions");
    },
  },
  dirways: {
    bounds: "2 directions with 3 points in any order, each deleted or not, under either direction",
    reach: ["line", "point", "none", "reordered"],
    async run(S) {
      const D = [1, 2].map((n) => ({ id: "d" + n, name: "way" + n, description: "about" + n, deleted: n === 1 ? S.bool("deleted d1") : false }));
      const W = [1, 2, 3].map((n) => ({ id: "w" + n, dirway_id: S.choose("of" + n, n === 1 ? ["d1"] : ["d1", "d2"]), order_num: S.int("order" + n, -100, 1000), name: "p", latitude: 60 + n, longitude: 20 + n, deleted: S.bool("deleted w" + n) }));
      S.assume(S.and(S.not(S.eq(W[0].order_num, W[1].order_num)), S.not(S.eq(W[0].order_num, W[2].order_num)), S.not(S.eq(W[1].order_num, W[2].order_num))));
      sessions(S, database(S, tables({ dirway: D, dirwaypoint: W, updated: [{ updated_name: "WN_DIRWAY_CHECK", updated_time: new S.world.Date(NOW - MIN) }] })));
      setup(S, () => { throw new Error("nothing to ask"); });
      const { handler } = S.load(P + "lambda/get-dirways/get-dirways.js");
      const r = await S.settle(() => handler({}));
      S.assert(!r.error && r.value.status === 200 && r.value.timestamp === new Date(NOW - MIN).toUTCString(), "the directions are given");
      const got = body(r);
      S.assert(got.lastUpdated === new Date(NOW - MIN).toISOString(), "with the time of the last check");
      const there = (x) => S.decide(S.eq(x.deleted, false));
      const want = [];
      for (const d of D) {
        if (!there(d)) continue;
        const points = [];
        for (const w of W) if (w.dirway_id === d.id && there(w)) { let k = points.length; while (k > 0 && S.decide(w.order_num < points[k - 1].order_num)) k--; if (k < points.length) S.reach("reordered"); points.splice(k, 0, w); }
        if (!points.length) { S.reach("none"); continue; }
        const at = points.map((w) => [w.longitude, w.latitude]);
        S.reach(at.length === 1 ? "point" : "line");
        want.push({ type: "Feature", geometry: at.length === 1 ? { type: "Point", coordinates: at[0] } : { type: "LineString", coordinates: at }, properties: { name: d.name, description: d.description } });
      }
      S.assert(S.eq(got.features, want), "each direction with its points in order");
    },
  },
  "active time": {
    bounds: "one assistance or queue with any start and end (or none) of 30 days to the minute, deleted or not; any asked times or none, all vessels or one",
    reach: ["given", "open", "left out", "default", "one vessel"],
    async run(S) {
      const kind = S.choose("kind", ["queue", "activity"]), open = S.choose("open", [false, true]), one = S.choose("one", [false, true]);
      const minute = (n) => S.int(n, 0, 30 * 1440), date = (m) => new S.world.Date(NOW - 20 * DAY + m * MIN);
      const start = minute("start"), end = open ? undefined : minute("end"), deleted = S.bool("deleted");
      if (!open) S.assume(start <= end);
      const from = S.choose("has from", [true, false]) ? minute("from") : undefined, to = S.choose("has to", [true, false]) ? minute("to") : undefined;
      const common = { id: "q", icebreaker_id: "s1", vessel_id: "v2", start_time: date(start), end_time: open ? null : date(end), deleted };
      const V = [1, 2, 3].map((n) => ({ id: "v" + n, name: "V" + n, callsign: null, shortcode: null, imo: n, mmsi: 100 + n, type: null, deleted: false }));
      const db = sessions(S, database(S, tables({ vessel: V, source: [{ id: "s1", name: "ib", vessel_id: "v1", deleted: false }], [kind]: [kind === "queue" ? { ...common, order_num: 4 } : { ...common, type: "LED", reason: null, public_comment: null }] })));
      db.asJson = (d) => "time";
      setup(S, () => { throw new Error("nothing to ask"); });
      const { getVessel, getVessels } = S.load(P + "service/vessel-service.js");
      const args = [from === undefined ? undefined : date(from), to === undefined ? undefined : date(to)];
      const r = await S.settle(() => (one ? getVessel(101, ...args) : getVessels(...args)));
      S.assert(!r.error, "the vessels are given");
      if (from === undefined && !one) S.reach("default");
      const since = from ?? (one ? -1e9 : 13 * 1440), until = to ?? 1e9;
      const inside = S.decide(S.and(S.not(deleted), start <= until, open ? start >= since : end >= since));
      S.reach(inside ? "given" : "left out");
      if (inside && open) S.reach("open");
      const list = kind === "queue" ? "plannedAssistances" : "activities";
      if (one) { S.reach("one vessel"); S.assert(r.value[0].name === "V1" && r.value[0][list].length === (inside ? 1 : 0), "of a vessel what belongs to the asked time is given"); return; }
      const got = r.value[0].vessels;
      S.assert(inside ? got.length === 2 && ["V1", "V2"].every((n) => got.some((v) => v.name === n && v[list].length === 1)) : got.length === 0, "vessels with something in the asked time are given");
    },
  },
  vessels: {
    bounds: "an icebreaker, an assisted vessel and another one, each with or without either number and deleted or not; one queue and up to 2 assistances of the pair, of the icebreaker alone or of another vessel; all vessels or one by either number",
    reach: ["assisting", "assisted", "alone", "unknown", "deleted", "other"],
    async run(S) {
      const numbers = (n) => S.choose("numbers" + n, n === 3 ? ["both"] : ["both", "imo", "mmsi"]);
      const V = [1, 2, 3].map((n) => { const k = numbers(n); return { id: "v" + n, name: "V" + n, callsign: n === 1 ? "CS" : null, shortcode: n === 1 ? null : "SC", imo: k === "mmsi" ? null : 10 + n, mmsi: k === "imo" ? null : 100 + n, type: n === 1 ? "IB" : null, deleted: n === 3 ? false : S.bool("deleted v" + n) }; });
      const qv = S.choose("queue of", ["v2", "v3"]), av = S.choose("activity of", ["v2", null]);
      const Q = [{ id: "q1", icebreaker_id: "s1", vessel_id: qv, start_time: "qs", end_time: null, order_num: 4, deleted: false }];
      const A = [{ id: "a1", icebreaker_id: "s1", vessel_id: av, type: "LED", reason: "ice", public_comment: null, start_time: "as", end_time: "ae", deleted: false }];
      const who = S.choose("asked", ["all", "imo1", "mmsi1", "imo2", "mmsi2", "none"]);
      const db = sessions(S, database(S, tables({ vessel: V, source: [{ id: "s1", name: "ib", vessel_id: "v1", deleted: false }], queue: Q, activity: A, updated: [{ updated_name: "WN_VESSEL_CHECK", updated_time: new S.world.Date(NOW - MIN) }] })));
      for (const x of [...Q, ...A]) { x.start_time = new S.world.Date(NOW - DAY); if (x.end_time) x.end_time = new S.world.Date(NOW); }
      db.asJson = (d) => d.toISOString();
      setup(S, () => { throw new Error("nothing to ask"); });
      const { handler } = S.load(P + "lambda/get-vessels/get-vessels.js");
      const number = { imo1: 11, mmsi1: 101, imo2: 12, mmsi2: 102, none: 999 }[who];
      const r = await S.settle(() => handler(number ? { vesselId: String(number) } : {}));
      S.assert(!r.error, "the handler answers");
      const there = (x) => S.decide(S.not(x.deleted)), by = (id) => V.find((v) => v.id === id);
      const name = (v) => ({ imo: v.imo, mmsi: v.mmsi, name: v.name });
      const start = new Date(NOW - DAY).toISOString(), now = new Date(NOW).toISOString();
      const show = (v) => {
        const planned = [], active = [];
        if (v.id === "v1") { S.reach("assisted"); planned.push({ assistedVessel: name(by(qv)), queuePosition: 4, startTime: start, endTime: null }); }
        if (v.id === qv) { S.reach("assisting"); planned.push({ assistingVessel: name(by("v1")), queuePosition: 4, startTime: start, endTime: null }); }
        const base = { type: "LED", reason: "ice", publicComment: null, startTime: start, endTime: now };
        if (v.id === "v1") { if (!av) S.reach("alone"); active.push(av ? { ...base, assistedVessel: name(by(av)) } : base); }
        if (v.id === av) active.push({ ...base, assistingVessel: name(by("v1")) });
        if (v.id === "v3" && planned.length) S.reach("other");
        return { name: v.name, callSign: v.callsign, shortcode: v.shortcode, mmsi: v.mmsi, imo: v.imo, type: v.type, activities: active, plannedAssistances: planned };
      };
      if (number) {
        const v = V.find((x) => x.imo === number || x.mmsi === number);
        if (!v || !there(v)) { S.reach(v ? "deleted" : "unknown"); S.assert(r.value.status === 404, "an unknown or deleted vessel is answered with 404"); return; }
        S.assert(r.value.status === 200 && S.eq(body(r), { ...show(v), lastUpdated: new Date(NOW - MIN).toISOString() }), "the vessel with its assistances");
      } else {
        const want = V.filter(there).map(show).filter((v) => v.activities.length || v.plannedAssistances.length);
        S.assert(r.value.status === 200 && S.eq(body(r), { lastUpdated: new Date(NOW - MIN).toISOString(), vessels: want }), "the vessels with their assistances");
      }
      S.assert(r.value.timestamp === new Date(NOW - MIN).toUTCString(), "with the time of the last check");
    },
  },
  requests: {
    bounds: "requests with each parameter missing, empty, good or bad, or with an unknown one; answers just below and above the limit; the credentials or the database failing",
    reach: ["bad", "good", "too large", "just fits", "failed", "unknown parameter"],
    async run(S) {
      const of = S.choose("of", ["vessels", "locations", "dirways"]);
      const trouble = S.choose("trouble", ["no", "credentials", "database"]);
      const size = of === "vessels" && trouble === "no" ? S.choose("size", ["small", "fits", "too large"]) : "small";
      const row = { id: "v", name: "", callsign: null, shortcode: null, imo: 1, mmsi: 2, type: null, deleted: false };
      const V = [row];
      const db = sessions(S, database(S, tables({ vessel: V, source: [{ id: "s1", name: "ib", vessel_id: "v", deleted: false }], activity: [{ id: "a1", icebreaker_id: "s1", vessel_id: null, type: "T", reason: null, public_comment: null, start_time: new S.world.Date(NOW - DAY), end_time: null, deleted: false }] })));
      db.asJson = (d) => d.toISOString();
      const limit = 4.5 * 1024 * 1024;
      if (size !== "small") {
        const base = JSON.stringify({ lastUpdated: null, vessels: [{ name: "", callSign: null, shortcode: null, mmsi: 2, imo: 1, type: null, activities: [{ type: "T", reason: null, publicComment: null, startTime: new Date(NOW - DAY).toISOString(), endTime: null }], plannedAssistances: [] }] }).length;
        // letters of two bytes each
        row.name = "\u00e4".repeat(Math.floor((limit - base) / 2) + (size === "fits" ? 0 : 1));
      }
      setup(S, () => { throw new Error("nothing to ask"); });
      if (trouble === "credentials") S.stub("aws/runtime/secrets/proxy-holder", { ProxyHolder: { create: () => S.mock({ setCredentials: async () => { await null; throw new Error("no secret"); } }, "proxyHolder") } });
      if (trouble === "database") db.failing = () => true;
      const event = {}; let bad = false;
      const put = (name, values) => { const v = S.choose(name, values); if (v !== undefined) event[name] = v.slice(1); if (v?.[0] === "-") bad = true; return v; };
      if (of === "vessels" && size === "small") { put("vesselId", [undefined, "+1", "+", "-x1"]); put("activeFrom", [undefined, "+2024-01-10T00:00:00Z", "-never"]); put("activeTo", [undefined, "+2024-01-30", "+", "-2024-99-99"]); }
      if (of === "locations") put("locode", [undefined, "+FIHEL"]);
      if (of !== "dirways" && size === "small" && S.choose("other", [false, true])) { event.extra = "1"; bad = true; S.reach("unknown parameter"); }
      const { handler } = S.load(P + `lambda/get-${of}/get-${of}.js`);
      const r = await S.settle(() => handler(event));
      S.assert(!r.error, "the handler answers");
      if (bad) { S.reach("bad"); S.assert(r.value.status === 400 && !db.statements.length, "an impossible request is answered with 400"); return; }
      if (trouble !== "no") { S.reach("failed"); S.assert(r.value.status === 500, "a failure is answered with 500"); return; }
      if (size === "too large") { S.reach("too large"); S.assert(r.value.status === 413, "a too large answer is answered with 413"); return; }
      S.reach(size === "fits" ? "just fits" : "good");
      S.assert(r.value.status === (event.locode ? 404 : 200), "a good request is answered");
      if (size === "fits") S.assert(body(r).vessels[0].name === row.name, "in full");
    },
  },
};
