import { quiet, connections, LIB } from "./_util.js";
import { municipal } from "./_municipal.js";
const P = "road/maintenance-tracking-municipality/src/";
export const property = {
  id: "C28",
  title: "Municipal routes are split, joined and stored contract by contract",
  statement: "Routes of a contract are asked for from its last update, but at most 7 minutes back, with a token that is renewed before its last 3 minutes. Their lines are split exactly where neighbouring points are more than 500 m apart, without repeated points, taken in order of start time and stored with their mapped tasks, each on its own; what has no task is left out. One names the machine's open tracking as the one before exactly when it starts within 305 s, 500 m and 80 km/h (50 m at the same moment) of its end with the same tasks; the contract's last update only moves forward and only with what was stored, and a failing route or contract does not stop the others and is counted.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "symbolic distances and times, any tasks and mappings, up to 3 points and 2 routes, 2 contracts, any statement or request failing" },
  why_tests_cant: "The tests need a database, fixed routes and answers that always succeed.",
  anchors: {
    files: [P + "service/autori-utils.ts", P + "service/autori-update.ts", P + "api/autori.ts", P + "dao/data.ts"],
    mechanism: [{ name: "fixApiRouteDatas, isExtendingPreviousTracking, getTasksForOperations, resolveNextStartTimeForDataFromApi, createDbMaintenanceTracking", where: P + "service/autori-utils.ts" }, { name: "AutoriUpdate", where: P + "service/autori-update.ts" }, { name: "AutoriApi.getOAuthToken", where: P + "api/autori.ts" }],
    observe_at: "routes, trackings, requests and the rows of a small database that carries out the statements sent to it",
  },
  assumptions: ["the distance between two positions is any number, the same for the same two positions", "statements that compute geometries are carried out by the harness as inserts and updates of the given points"],
};
const T0 = 1714550000000;
const distances = (S, f) => S.stub(LIB + "utils/geometry", { SRID_WGS84: 4326, distanceBetweenPositionsInM: f, areDistinctPositions: (a, b) => a[0] !== b[0] || a[1] !== b[1] });
const near = (S, d, t) => {
  if (!S.decide(S.and(t >= 0, t <= 305000, d <= 500))) return false;
  if (!S.decide(t > 0)) return S.decide(d <= 50);
  return S.decide(d * 3600 <= 80 * t);
};
const iso = (t) => new Date(t).toISOString();
const route = (start, end, features, more = {}) => ({ vehicleType: "truck", user: "u", geography: features && { type: "FeatureCollection", features }, created: iso(start), id: "r" + start, startTime: iso(start), endTime: iso(end), operations: ["a"], ...more });
const line = (...lons) => ({ type: "Feature", properties: {}, geometry: { type: "LineString", coordinates: lons.map((x) => [x, 60]) } });
const point = (lon) => ({ type: "Feature", properties: {}, geometry: { type: "Point", coordinates: [lon, 60] } });
export const harnesses = {
  "start time": {
    bounds: "last update and start of the contract missing or any second of the last 15 minutes",
    reach: ["last update", "start", "neither", "too old"],
    async run(S) {
      quiet(S);
      S.world.time = T0;
      const { resolveNextStartTimeForDataFromApi } = S.load(P + "service/autori-utils.js");
      const min = T0 - 7 * 60000;
      const contract = { domain: "x", contract: "c", name: "c" };
      const last = S.choose("last", [true, false]) ? S.int("lastAt", T0 - 900000, T0) : undefined, start = S.choose("start", [true, false]) ? S.int("startAt", T0 - 900000, T0) : undefined;
      if (last !== undefined) contract.data_last_updated = new S.world.Date(last);
      if (start !== undefined) contract.start_date = new S.world.Date(start);
      const from = last ?? start;
      S.reach(last !== undefined ? "last update" : start !== undefined ? "start" : "neither");
      const got = resolveNextStartTimeForDataFromApi(contract).getTime();
      if (from === undefined) { S.assert(S.eq(got, min), "data of 7 minutes is asked for"); return; }
      if (S.decide(from < min)) S.reach("too old");
      S.assert(S.eq(got, S.ite(from < min, min, from)), "data since the last update is asked for, at most of 7 minutes");
    },
  },
  joined: {
    bounds: "distances in whole metres 0..700 with 14 times around the limits, and without times",
    reach: ["joined", "apart", "without times"],
    async run(S) {
      quiet(S);
      const d = S.int("d", 0, 700);
      const t = S.choose("t", [undefined, -1000, -1, 0, 1, 1000, 2250, 2251, 9000, 22500, 22501, 144000, 304999, 305000, 305001, 400000]);
      distances(S, () => d);
      const { isExtendingPreviousTracking } = S.load(P + "service/autori-utils.js");
      const got = t === undefined ? isExtendingPreviousTracking([1, 1], [2, 2]) : isExtendingPreviousTracking([1, 1], [2, 2], new S.world.Date(T0), new S.world.Date(T0 + t));
      if (t === undefined) S.reach("without times");
      const want = t === undefined ? S.decide(d <= 500) : near(S, d, t);
      S.reach(want ? "joined" : "apart");
      S.assert(got === want, "trackings are joined exactly when near enough");
    },
  },
  split: {
    bounds: "up to 2 routes in any order with points, lines of up to 3 (maybe equal) points and others, symbolic distances, without shapes",
    reach: ["split", "kept", "repeated", "point", "left out", "sorted"],
    async run(S) {
      quiet(S);
      const n = S.choose("n", [0, 1, 2]);
      const d = [S.int("d01", 0, 700), S.int("d12", 0, 700)];
      distances(S, (a, b) => { const i = a[0] - 20, j = b[0] - 20; return j === i + 1 ? d[i] : 999; });
      const { fixApiRouteDatas } = S.load(P + "service/autori-utils.js");
      const want = [];
      const groups = (xs) => { const out = []; xs.forEach((x, i) => { const prev = xs[i - 1]; if (i && x === prev) { S.reach("repeated"); return; } const d0 = i ? (x === prev + 1 ? d[prev - 20] : 999) : 0; if (!i || S.decide(d0 > 500)) { if (i) S.reach("split"); out.push([x]); } else { S.reach("kept"); out[out.length - 1].push(x); } }); return out; };
      const shapes = { line: () => [line(20, 21, 22)], two: () => [line(20, 21)], equal: () => [line(20, 20, 21)], same: () => [line(20, 20)], back: () => [line(21, 20)], point: () => [point(20)], area: () => [{ type: "Feature", properties: {}, geometry: { type: "Polygon", coordinates: [[[20, 60], [21, 60], [21, 61], [20, 60]]] } }], both: () => [point(25), line(20, 21)], none: () => undefined, empty: () => [] };
      const made = Array.from({ length: n }, (_, i) => { const k = S.choose("shape" + i, i ? ["two", "point", "none"] : Object.keys(shapes)); const f = shapes[k](); if (!f || k === "area") S.reach("left out"); if (k === "point") S.reach("point"); const r = route(T0 + i * 1000, T0 + i * 1000 + 500, f, { operations: ["op" + i] }); for (const x of f ?? []) { if (x.geometry.type === "Point") want.push([i, "Point", [x.geometry.coordinates[0]]]); if (x.geometry.type === "LineString") for (const g of groups(x.geometry.coordinates.map((c) => c[0]))) want.push([i, g.length === 1 ? "Point" : "LineString", g]); } return r; });
      const given = n === 2 && S.choose("order", ["as is", "reversed"]) === "reversed" ? (S.reach("sorted"), [made[1], made[0]]) : made;
      const got = fixApiRouteDatas(given);
      S.assert(S.eq(got.map((r) => { const f = r.geography.features; return [f.length, r.id, r.operations, r.startTime, r.endTime, r.user, r.vehicleType, r.created, f[0].geometry.type, f[0].geometry.type === "Point" ? [f[0].geometry.coordinates[0]] : f[0].geometry.coordinates.map((c) => c[0])]; }), want.map(([i, type, xs]) => [1, made[i].id, made[i].operations, made[i].startTime, made[i].endTime, "u", "truck", made[i].created, type, xs])), "every shape becomes routes of neighbouring points, in order of start time");
    },
  },
  tracking: {
    bounds: "points and lines of 1..2 symbolic places, no shape, an empty line, every mapping of 3 operations",
    reach: ["point", "line", "no tasks", "no shape", "refused"],
    async run(S) {
      quiet(S);
      const { createDbMaintenanceTracking, getTasksForOperations } = S.load(P + "service/autori-utils.js");
      const mappings = [{ original_id: "a", name: S.choose("name a", ["T1", "T2"]), domain: "x", ignore: S.choose("ignore a", [true, false]) }, { original_id: "b", name: "T2", domain: "x", ignore: false }];
      const ops = S.choose("operations", [[], ["a"], ["c"], ["b", "a"], ["a", "b", "c", "a"]]);
      const want = [];
      for (const o of ops) { const m = mappings.find((x) => x.original_id === o && !x.ignore); if (m && !want.includes(m.name)) want.push(m.name); }
      const tasks = getTasksForOperations(ops, mappings);
      S.assert(S.eq(tasks, want), "operations become their mapped tasks, once each, in order");
      const kind = S.choose("shape", ["point", "line", "short", "empty line", "none", "no feature", "area"]);
      const x = S.dec("x", 200, 300, 10), y = S.dec("y", 600, 700, 10);
      const f = { point: [{ geometry: { type: "Point", coordinates: [x, y] } }], line: [{ geometry: { type: "LineString", coordinates: [[1, 2], [x, y]] } }], short: [{ geometry: { type: "LineString", coordinates: [[x, y]] } }], "empty line": [{ geometry: { type: "LineString", coordinates: [] } }], none: undefined, "no feature": [], area: [{ geometry: { type: "Polygon", coordinates: [] } }] }[kind];
      const created = S.choose("created", [true, false]);
      S.world.time = T0 + 5000;
      const r = S.sync(() => createDbMaintenanceTracking(7, route(T0, T0 + 1000, f, created ? {} : { created: undefined }), { domain: "x", contract: "c", name: "n" }, tasks));
      if (!want.length) { S.reach("no tasks"); S.assert(!r.error && r.value === undefined, "what has no task is left out"); return; }
      if (kind === "none") { S.reach("no shape"); S.assert(!r.error && r.value === undefined, "what has no shape is left out"); return; }
      if (kind === "empty line" || kind === "no feature" || kind === "area") { S.reach("refused"); S.assert(r.error !== undefined, "a broken shape is refused"); return; }
      const v = r.value;
      S.reach(kind === "point" ? "point" : "line");
      S.assert(v.geometry.type === (kind === "point" ? "Point" : "LineString") && S.eq(v.geometry.coordinates, f[0].geometry.coordinates), "a tracking has the shape of its route");
      S.assert(S.eq(v.last_point.coordinates, [x, y]), "a tracking ends at the last place");
      S.assert(v.start_time.getTime() === T0 && v.end_time.getTime() === T0 + 1000 && v.sending_time.getTime() >= (created ? T0 : T0 + 5000) && (!created || v.sending_time.getTime() === T0), "a tracking has the times of its route");
      S.assert(v.domain === "x" && v.contract === "c" && v.work_machine_id === 7 && v.finished === false && v.message_original_id === "r" + T0 && v.sending_system === "x" && S.eq(v.tasks, tasks), "a tracking belongs to its machine, contract and domain");
    },
  },
  update: {
    bounds: "two contracts with up to 2 routes, an earlier open tracking with the same or other tasks, symbolic distance, any statement or request failing",
    reach: ["continued", "other tasks", "apart", "no earlier", "request fails", "route fails", "no tasks", "last update kept", "all fail"],
    async run(S) {
      quiet(S); connections(S);
      S.world.time = T0 + 600000;
      const earlier = S.choose("earlier", ["none", "same", "other"]);
      const dist = earlier === "none" ? 0 : S.int("distance", 0, 600);
      distances(S, (a, b) => (a[0] === 19 && b[0] === 20 ? dist : a[0] === 20 && b[0] === 20.5 ? 10 : a[0] === b[0] ? 0 : 100000));
      const { createHarjaId } = S.load(P + "service/utils.js");
      const later = S.choose("last update", [undefined, T0 + 100, T0 + 590000]);
      const date = (t) => (t === undefined ? null : new S.world.Date(t));
      const contract = (c, source) => ({ domain: "x", contract: c, name: c, source, start_date: null, end_date: null, data_last_updated: c === "c1" ? date(later) : null });
      const db = municipal(S, { contracts: [contract("c1", "s"), contract("c2", "s"), contract("c3", null), { ...contract("c1", "s"), domain: "y" }], machines: [{ id: 1, harja_id: createHarjaId("utruck"), harja_urakka_id: createHarjaId("c1"), type: "" }], earlier: earlier === "none" ? [] : [{ id: 500, domain: "x", work_machine_id: 1, finished: false, end_time: new S.world.Date(T0 - 10000), last_point: [19, 60, 0], tasks: [earlier === "same" ? "T1" : "T9"] }] });
      const { AutoriUpdate } = S.load(P + "service/autori-update.js");
      const n = S.choose("n", [0, 1, 2]);
      const ops = n === 2 ? S.choose("operations", ["a", "z"]) : "a";
      const updated = n && S.choose("updated", [true, false]);
      const routes = [route(T0, T0 + 1000, [line(20, 20.5)], { id: "one", operations: [ops], ...(updated && { updated: iso(T0 + 5000) }) }), route(T0 + 100000, T0 + 101000, [point(40)], { id: "two" })].slice(0, n);
      const fault = S.choose("fails", [undefined, "request", "machine", "find", "insert", "task", "contract", "everything"]);
      const cause = new Error("down");
      const asked = [];
      const api = { getNextRouteDataForContract: async (c, from, to) => { asked.push([c.contract, from.getTime(), to.getTime()]); await null; if (fault === "request" && c.contract === "c1") throw cause; return c.contract === "c1" ? routes : c.contract === "c2" ? [route(T0, T0 + 2000, [point(50)], { id: "other", user: "v" })] : [route(T0, T0, [point(60)])]; } };
      db.failing = (s) => (fault === "machine" && s.table === "maintenance_tracking_work_machine" && s.params[0] === createHarjaId("utruck")) || (fault === "find" && s.kind === "select" && s.table === "maintenance_tracking" && s.params[1] === 1) || (fault === "insert" && s.kind === "insert" && s.table === "maintenance_tracking" && s.params[11] === "one") || (fault === "task" && s.table === "maintenance_tracking_task" && db.machineOf(s.params[0]) === 1) || (fault === "contract" && s.kind === "update" && s.table === "maintenance_tracking_domain_contract" && s.params[1] === "c1") || (fault === "everything" && s.kind === "select" && s.table === "maintenance_tracking_domain_task_mapping");
      db.failing.error = cause;
      const r = await S.settle(() => new AutoriUpdate(api).updateTrackingsForDomain("x"));
      S.assert(db.sessions.every((s) => !s.open), "the session is over when the result is given");
      if (fault === "everything") { S.reach("all fail"); S.assert(r.error === cause && db.tables.data_updated.rows.length === 0, "a domain that cannot be read is an error"); return; }
      S.assert(!r.error, "the update gives a result");
      S.assert(db.tables.data_updated.rows.length === 1 && db.tables.data_updated.rows[0].subtype === "x", "the time of checking is kept");
      S.assert(S.eq(asked.map((x) => x[0]).sort(), ["c1", "c2"]), "every contract of the domain with a source is asked for once");
      const from = asked.find((x) => x[0] === "c1");
      S.assert(from[1] === Math.max(later ?? 0, T0 + 600000 - 7 * 60000) && from[2] === T0 + 600000 + 60000, "what is newer than the last update is asked for");
      const all = db.trackings(), row = (id) => all.filter((x) => x.message_original_id === id);
      S.assert(row("other").length === 1 && row("other")[0].contract === "c2" && S.eq(row("other")[0].tasks, ["T1"]), "other contracts are stored whatever happens to one");
      const contracts = db.tables.maintenance_tracking_domain_contract.rows;
      const last = (d, c) => contracts.find((x) => x.domain === d && x.contract === c).data_last_updated?.getTime();
      S.assert(last("x", "c2") === T0 + 2000 && last("y", "c1") === (later === undefined ? undefined : later), "the last update of a contract is its own");
      const oneFails = ["machine", "find", "insert", "task", "contract"].includes(fault);
      const allFail = fault === "request" || ["machine", "task", "contract"].includes(fault) || (fault === "find");
      const stored = { one: n > 0 && ops === "a" && !oneFails && fault !== "request", two: n > 1 && !allFail };
      S.assert(row("one").length === (stored.one ? 1 : 0) && row("two").length === (stored.two ? 1 : 0), "every route that can be stored is stored once");
      // what has no task needs no more than its machine
      const errors = fault === "request" ? 1 : n === 0 ? 0 : (ops === "a" ? (oneFails ? 1 : 0) : fault === "machine" ? 1 : 0) + (n > 1 && allFail ? 1 : 0);
      S.assert(r.value.saved === 1 + (stored.one ? 1 : 0) + (stored.two ? 1 : 0) && r.value.errors === errors, "stored and failed routes are counted");
      if (fault === "request") S.reach("request fails"); else if (oneFails && n) S.reach("route fails");
      if (n && ops === "z") S.reach("no tasks");
      let newest = later;
      if (stored.one) newest = Math.max(newest ?? 0, updated ? T0 + 5000 : T0 + 1000);
      if (stored.two) newest = Math.max(newest ?? 0, T0 + 101000);
      if (newest === later && (stored.one || stored.two)) S.reach("last update kept");
      S.assert(last("x", "c1") === newest, "the last update moves forward with what is stored");
      if (!stored.one) return;
      const one = row("one")[0];
      S.assert(S.eq(one.tasks, ["T1"]) && one.work_machine_id === 1 && one.start_time.getTime() === T0 && one.end_time.getTime() === T0 + 1000 && S.eq(one.geometry, [[20, 60], [20.5, 60]]), "a tracking has the tasks, machine and times of its route");
      if (earlier === "none") { S.reach("no earlier"); S.assert(one.previous_tracking_id === null, "there is no tracking before"); return; }
      const joined = near(S, dist, 10000);
      S.reach(!joined ? "apart" : earlier === "same" ? "continued" : "other tasks");
      S.assert(one.previous_tracking_id === (joined && earlier === "same" ? 500 : null), "the earlier tracking is named exactly when it continues with the same tasks");
      if (joined) S.assert(all.find((x) => x.id === 500).finished === true, "a continued tracking is closed");
    },
  },
  token: {
    bounds: "3 requests at symbolic times up to 2 h apart, a symbolic lifetime, answers without a token, failing requests",
    reach: ["reused", "renewed", "refused", "failed"],
    async run(S) {
      quiet(S);
      const posts = [];
      const kind = S.choose("answer", ["token", "no token", "fails"]);
      const life = S.int("lifetime", 1, 7200);
      const cause = new Error("down");
      class HTTPError extends Error {}
      S.stub("ky", { __esModule: true, HTTPError, default: { post: async (url, o) => { posts.push([url, o]); await null; if (kind === "fails") throw cause; return { json: async () => (kind === "token" ? { token_type: "bearer", expires_in: life, access_token: "t" + posts.length } : { token_type: "bearer" }) }; }, get: async (url, o) => ({ json: async () => [url, o.headers.Authorization] }) } });
      const { AutoriApi } = S.load(P + "api/autori.js");
      const api = new AutoriApi({ url: "https://u", productId: "p", oAuthClientId: "id", oAuthScope: "sc", oAuthClientSecret: "se&c", oAuthTokenEndpoint: "https://t" });
      let now = T0; S.world.time = now;
      const at = [];
      let expected = 0, madeAt;
      for (let i = 0; i < 3; i++) {
        if (i) { now = now + S.int("wait" + i, 0, 7200000); S.world.time = now; }
        const r = await S.settle(() => api.getContracts());
        if (kind !== "token") { S.reach(kind === "fails" ? "failed" : "refused"); S.assert(r.error !== undefined && posts.length === i + 1, "no data is asked for without a token"); continue; }
        S.assert(!r.error, "data is given");
        const fresh = madeAt !== undefined && S.decide(now < madeAt + life * 1000 - 180000);
        if (!fresh) { expected++; madeAt = now; S.reach("renewed"); } else S.reach("reused");
        S.assert(posts.length === expected, "a token is renewed exactly when its last 3 minutes begin");
        S.assert(r.value[0] === "https://u/api/p/contracts" && r.value[1] === "Bearer t" + expected, "the newest token is used");
      }
      S.assert(posts.every(([u, o]) => u === "https://t" && o.body === "client_id=id&scope=sc&client_secret=se%26c&grant_type=client_credentials"), "the token is asked for with the secret, quoted");
    },
  },
};
