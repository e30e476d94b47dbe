import { quiet, connections, LIB } from "./_util.js";
import { database, sessions } from "./_sql.js";
import { municipal } from "./_municipal.js";
const P = "road/maintenance-tracking-municipality/src/";
export const property = {
  id: "C27",
  title: "Municipal machine events become gapless, ordered trackings",
  statement: "The mapped work events of a municipal machine that are later than its latest tracking become trackings in order of time, each event in one of them: neighbours share one exactly when they do the same tasks, are at most 305 s and 520 m apart and, beyond 50 m, move at 5-80 km/h (20-80 beyond 200 m); when only the tasks change the event also ends the earlier one. A tracking has the tasks, times, points and heading of its events, and only the last stays open; the open one from before is closed, is led to the new start when that continues it, and is named as the one before only when the tasks are the same. Per machine this is stored as a whole or not at all, a failing machine does not stop the others, and the numbers of stored and failed ones are true.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "symbolic distances and times, any tasks and mappings, up to 3 events per machine, 2 machines, any statement failing" },
  why_tests_cant: "The tests need a database, fixed events and thresholds hit far from their edges.",
  anchors: {
    files: [P + "service/paikannin-utils.ts", P + "service/paikannin-update.ts", P + "service/utils.ts", P + "service/common-update.ts", P + "dao/data.ts"],
    mechanism: [{ name: "groupEventsToIndividualTrackings, isExtendingPreviousTracking, getTasksForOperations, createLineStringFromEvents, createDbMaintenanceTracking", where: P + "service/paikannin-utils.ts" }, { name: "PaikanninUpdate", where: P + "service/paikannin-update.ts" }, { name: "sumResultsFromPromises, sumResults", where: P + "service/common-update.ts" }],
    observe_at: "groups, trackings and the rows of a small database that carries out the statements sent to it",
  },
  assumptions: ["the distance between two positions is any number, the same for the same two positions", "statements that compute geometries are carried out by the harness as inserts and updates of the given points"],
};
const T0 = 1714550000000;
const ch = (...names) => names.map((name, id) => ({ id, name }));
const event = (S, t, lon, channels, more = {}) => ({ deviceId: 1, deviceName: "d", timest: "", timestamp: new S.world.Date(t), lon, lat: 60, altitude: 5, heading: 90, speed: 1, ioChannels: channels, ...more });
// what the statement says about neighbours; distance d in metres, time t in milliseconds
const near = (S, d, t) => {
  const within = S.and(t >= 0, t <= 305000, d <= 520);
  if (!S.decide(within)) return false;
  if (S.decide(d <= 50)) return true;
  if (!S.decide(t > 0)) return false;
  // km/h = d / t * 3600, with t in milliseconds
  return S.decide(S.and(d * 3600 <= 80 * t, d * 3600 >= (S.decide(d > 200) ? 20 : 5) * t));
};
const distances = (S, f) => S.stub(LIB + "utils/geometry", { SRID_WGS84: 4326, distanceBetweenPositionsInM: f, areDistinctPositions: (a, b) => a[0] !== b[0] || a[1] !== b[1] });
export const harnesses = {
  neighbours: {
    bounds: "distances in whole metres 0..700 with 21 times around the limits",
    reach: ["joined", "apart"],
    async run(S) {
      quiet(S);
      const d = S.int("d", 0, 700);
      const t = S.choose("t", [-1000, -1, 0, 1, 1000, 2250, 2251, 9000, 9001, 23400, 36000, 36001, 37000, 93600, 93601, 144000, 250000, 304999, 305000, 305001, 400000]);
      distances(S, () => d);
      const { isExtendingPreviousTracking } = S.load(P + "service/paikannin-utils.js");
      const got = isExtendingPreviousTracking([1, 1], [2, 2], new S.world.Date(T0), new S.world.Date(T0 + t));
      const want = near(S, d, t);
      S.reach(want ? "joined" : "apart");
      S.assert(got === want, "neighbours are joined exactly when near enough");
    },
  },
  groups: {
    bounds: "up to 3 events in any order, up to 5 gaps around the limit, symbolic distances, tasks of 4 sorts, the earlier tracking ending at any time or missing",
    reach: ["joined", "split", "tasks change", "dropped", "sorted"],
    async run(S) {
      quiet(S);
      const n = S.choose("n", [0, 1, 2, 3]);
      const kinds = [ch("a"), ch("a", "b"), ch("b", "a"), ch("b")];
      const perms = n === 3 ? [[0, 1, 2], [2, 0, 1]] : [[0, 1, 2], [1, 0, 2]];
      // the events in order of time, given in any order
      let t = T0;
      const sorted = Array.from({ length: n }, (_, i) => { if (i) t += S.choose("gap" + i, n === 3 ? [36000, 306000] : [1, 60000, 305000, 305001]); return event(S, t, 20 + i, S.choose("tasks" + i, n === 3 ? [kinds[0], kinds[3]] : kinds)); });
      const d = Array.from({ length: Math.max(0, n - 1) }, (_, i) => S.int("d" + i, 0, 600));
      distances(S, (a, b) => { const i = Math.round(a[0]) - 20, j = Math.round(b[0]) - 20; return j === i + 1 ? d[i] : i === j ? 0 : 999999; });
      const { groupEventsToIndividualTrackings } = S.load(P + "service/paikannin-utils.js");
      const perm = S.choose("order", perms).filter((i) => i < n);
      if (perm.some((x, i) => x !== i)) S.reach("sorted");
      const given = perm.map((i) => sorted[i]), copy = [...given];
      const limit = S.choose("after", n === 3 ? [undefined, T0 + 36000] : [undefined, T0 - 1, T0, T0 + 60000]);
      const got = limit === undefined ? groupEventsToIndividualTrackings(given) : groupEventsToIndividualTrackings(given, new S.world.Date(limit));
      S.assert(given.length === copy.length && given.every((e, i) => e === copy[i]), "the given events are left as they are");
      const want = [];
      const same = (x, y) => x.length === y.length && x.every((c) => y.some((e) => e.name === c.name));
      const kept = sorted.filter((e) => limit === undefined || e.timestamp.getTime() > limit);
      if (kept.length < n) S.reach("dropped");
      kept.forEach((e, i) => {
        const prev = kept[i - 1];
        if (!prev) { want.push([e]); return; }
        const joined = near(S, d[sorted.indexOf(prev)], e.timestamp.getTime() - prev.timestamp.getTime());
        const sameTasks = same(prev.ioChannels, e.ioChannels);
        if (joined && sameTasks) { S.reach("joined"); want[want.length - 1].push(e); return; }
        if (joined) { S.reach("tasks change"); want[want.length - 1].push({ ...e, ioChannels: prev.ioChannels }); } else S.reach("split");
        want.push([e]);
      });
      S.assert(S.eq(got.map((g) => g.map((e) => [e.timestamp.getTime(), e.lon, e.lat, e.altitude, e.heading, e.ioChannels.map((c) => c.name)])), want.map((g) => g.map((e) => [e.timestamp.getTime(), e.lon, e.lat, e.altitude, e.heading, e.ioChannels.map((c) => c.name)]))), "events are split exactly where neighbours are apart or the tasks change");
    },
  },
  tracking: {
    bounds: "0..3 events at two places with symbolic headings and heights, all mappings of 3 operations, ignored and doubled ones, names with spaces",
    reach: ["point", "line", "no tasks", "no events"],
    async run(S) {
      quiet(S);
      const { createDbMaintenanceTracking, filterEventsWithoutTasks } = S.load(P + "service/paikannin-utils.js");
      const n = S.choose("n", [0, 1, 2, 3]);
      const mappings = [{ original_id: "a", name: S.choose("name a", ["T1", "T2"]), domain: "x", ignore: S.choose("ignore a", [true, false]) }, { original_id: "b", name: "T2", domain: "x", ignore: false }];
      const channels = S.choose("channels", [[], ["a"], [" a "], ["c"], ["b", "a"], ["a", "b", "c", "a"]]);
      const places = Array.from({ length: n }, (_, i) => S.choose("place" + i, i ? [20, 21] : [20]));
      const heading = Array.from({ length: n }, (_, i) => S.int("heading" + i, 0, 359)), alt = Array.from({ length: n }, (_, i) => S.int("height" + i, -10, 10));
      const events = places.map((lon, i) => event(S, T0 + i * 1000, lon, ch(...channels), { heading: heading[i], altitude: alt[i] }));
      const tasks = [];
      for (const c of channels) { const m = mappings.find((x) => x.original_id === c.trim() && !x.ignore); if (m && !tasks.includes(m.name)) tasks.push(m.name); }
      const devices = filterEventsWithoutTasks([{ deviceId: 1, deviceName: "d", workEvents: events }], mappings);
      S.assert(tasks.length && n ? devices.length === 1 && S.eq(devices[0].workEvents, events) : devices.length === 0, "only events with mapped tasks are looked at");
      const r = createDbMaintenanceTracking({ domain: "x", contract: "c", name: "x" }, 7, events, mappings);
      if (!n || !tasks.length) { S.reach(n ? "no tasks" : "no events"); S.assert(r === undefined, "no tracking without events or tasks"); return; }
      const coords = [];
      events.forEach((e, i) => { if (!i || places[i] !== places[i - 1]) coords.push([e.lon, e.lat, e.altitude]); });
      S.reach(coords.length === 1 ? "point" : "line");
      const last = events[n - 1];
      S.assert(S.eq(r.tasks, tasks), "a tracking has the mapped tasks once each, in order");
      S.assert(r.geometry.type === (coords.length === 1 ? "Point" : "LineString") && S.eq(r.geometry.coordinates, coords.length === 1 ? coords[0] : coords), "a tracking goes through the places of its events");
      S.assert(S.eq(r.last_point.coordinates, [last.lon, last.lat, last.altitude]), "a tracking ends at the last place");
      S.assert(r.start_time.getTime() === T0 && r.end_time.getTime() === last.timestamp.getTime(), "a tracking has the times of its first and last event");
      S.assert(S.eq(r.direction, heading[n - 1]) && S.eq(r.start_direction, heading[0]), "a tracking has the headings of its first and last event");
      S.assert(r.domain === "x" && r.contract === "c" && r.work_machine_id === 7 && r.finished === true && r.previous_tracking_id === undefined, "a tracking belongs to its machine, contract and domain");
    },
  },
  update: {
    bounds: "two machines with up to 2 events each, an open or finished earlier tracking with the same or other tasks, symbolic distances, any statement failing",
    reach: ["continued", "continued with other tasks", "same place", "closed only", "no earlier", "machine fails", "transaction fails", "nothing new", "no contract"],
    async run(S) {
      quiet(S); connections(S);
      const earlier = S.choose("earlier", ["none", "same", "other"]);
      const { createHarjaId } = S.load(P + "service/utils.js");
      const db = municipal(S, { machines: earlier === "none" ? [] : [{ id: 1, harja_id: 77n, harja_urakka_id: createHarjaId("x"), type: "" }], earlier: earlier === "none" ? [] : [{ id: 500, domain: "x", work_machine_id: 1, finished: false, end_time: new S.world.Date(T0 - 60000), last_point: [19, 60, 0], tasks: [earlier === "same" ? "T1" : "T9"] }], contract: S.choose("contract", [true, false]) });
      const dist = S.int("distance", 0, 600);
      const place = earlier === "none" ? 20 : S.choose("place", [20, 19]);
      distances(S, (a, b) => (a[0] === b[0] ? 0 : a[0] === 19 && place === 20 ? dist : 100000));
      S.world.time = T0 + 600000;
      const { PaikanninUpdate } = S.load(P + "service/paikannin-update.js");
      const n = S.choose("n", [0, 1, 2]);
      const times = [T0, T0 + 200000];
      const mine = times.slice(0, n).map((t, i) => event(S, t, place + i, ch("a"), { heading: 10 + i }));
      const old = earlier !== "none" && S.choose("old event", [false, true]);
      const devices = [{ deviceId: 77, deviceName: "one", workEvents: [...(old ? [event(S, T0 - 60000, 18, ch("a"))] : []), ...mine] }, { deviceId: 78, deviceName: "two", workEvents: [event(S, T0, 30, ch("a"), { deviceId: 78 })] }];
      const api = { getWorkEvents: async (from, to) => { await null; api.asked = [from.getTime(), to.getTime()]; return devices; } };
      const mid = (h) => db.tables.maintenance_tracking_work_machine.rows.find((m) => m.harja_id === BigInt(h))?.id ?? NaN;
      const fault = S.choose("fails", [undefined, "machine", "insert", "task", "finish", "contract"]);
      db.failing = (s) => (fault === "machine" && s.table === "maintenance_tracking_work_machine" && s.params.some((p) => String(p).includes("one"))) || (fault === "insert" && s.kind === "insert" && s.table === "maintenance_tracking" && s.params[4] === mid(77)) || (fault === "task" && s.table === "maintenance_tracking_task" && db.machineOf(s.params[0]) === mid(77)) || (fault === "finish" && s.kind === "update" && s.table === "maintenance_tracking") || (fault === "contract" && s.table === "maintenance_tracking_domain_contract" && s.kind === "update");
      const before = db.trackings().map((x) => ({ ...x }));
      const r = await S.settle(() => new PaikanninUpdate(api).updateTrackingsForDomain("x"));
      S.assert(!r.error, "the update gives a result");
      S.assert(db.sessions.every((s) => !s.open), "the session is over when the result is given");
      const checked = db.tables.data_updated.rows;
      S.assert(checked.length === 1 && checked[0].subtype === "x" && checked[0].updated.getTime() >= T0 + 600000, "the time of checking is kept");
      if (!db.contract) { S.reach("no contract"); S.assert(r.value.saved === 0 && r.value.errors === 0 && db.trackings().length === before.length, "nothing is done without a contract"); return; }
      S.assert(S.eq(api.asked, [T0 + 600000 - 9 * 60000, T0 + 600000 - 2 * 60000]), "events of 9 to 2 minutes ago are asked for");
      const all = db.trackings();
      const of = (m) => all.filter((x) => x.work_machine_id === mid(m) && x.id !== 500);
      const two = of(78), twoFails = fault === "contract";
      S.assert(two.length === (twoFails ? 0 : 1) && two.every((x) => x.finished === false && S.eq(x.tasks, ["T1"]) && x.previous_tracking_id === null), "other machines are stored whatever happens to one");
      const prev = all.find((x) => x.id === 500);
      const moves = earlier !== "none" && n > 0;
      const hit = (fault === "machine" && (n > 0 || old)) || (n > 0 && (fault === "insert" || fault === "task" || fault === "contract" || (fault === "finish" && moves)));
      if (hit) {
        S.reach(fault === "machine" ? "machine fails" : "transaction fails");
        if (n) S.assert(of(77).length === 0 && (!prev || (prev.finished === false && prev.last_point[0] === 19)), "a failing machine is left as it was");
        S.assert(r.value.errors >= 1, "failures are counted");
        S.assert(r.value.saved === two.length, "what is stored is counted");
        return;
      }
      if (!n) { S.reach("nothing new"); S.assert(of(77).length === 0 && (!prev || prev.finished === false), "nothing new changes nothing"); return; }
      // the two events of a machine are far apart, so each is a tracking
      const mineRows = of(77);
      S.assert(mineRows.length === n && mineRows.every((x, i) => x.finished === (i < n - 1) && S.eq(x.tasks, ["T1"]) && x.start_time.getTime() === times[i] && S.eq(x.geometry, [place + i, 60, 5])), "trackings are stored in order, only the last open");
      S.assert(r.value.saved === n + two.length && r.value.errors === (twoFails ? 1 : 0), "stored and failed ones are counted");
      const joined = earlier !== "none" && near(S, place === 19 ? 0 : dist, 60000);
      S.assert(mineRows.every((x, i) => (i === 0 && joined && earlier === "same" ? x.previous_tracking_id === 500 : x.previous_tracking_id === null)), "the earlier tracking is named exactly when it continues with the same tasks");
      if (!prev) { S.reach("no earlier"); return; }
      S.assert(prev.finished === true, "the earlier tracking is closed");
      const led = joined && place !== 19;
      S.reach(!joined ? "closed only" : place === 19 ? "same place" : earlier === "same" ? "continued" : "continued with other tasks");
      S.assert(led ? prev.last_point[0] === place && prev.last_point[1] === 60 && prev.end_time.getTime() === T0 && prev.direction === 10 : prev.last_point[0] === 19 && prev.end_time.getTime() === T0 - 60000, "the earlier tracking is led to the new start exactly when that continues it elsewhere");
    },
  },
  sums: {
    bounds: "0..3 results with symbolic counts, any of them failed",
    reach: ["with failures"],
    async run(S) {
      quiet(S); connections(S);
      municipal(S, {});
      const { sumResultsFromPromises, sumResults } = S.load(P + "service/common-update.js");
      const { TrackingSaveResult } = S.load(P + "model/tracking-save-result.js");
      const n = S.choose("n", [0, 1, 2, 3]);
      const xs = Array.from({ length: n }, (_, i) => ({ ok: S.choose("ok" + i, [true, false]), saved: S.int("saved" + i, 0, 100), errors: S.int("errors" + i, 0, 100), size: S.int("size" + i, 0, 100) }));
      const made = xs.map((x) => new TrackingSaveResult(x.size, x.saved, x.errors));
      const r = sumResultsFromPromises(xs.map((x, i) => (x.ok ? { status: "fulfilled", value: made[i] } : { status: "rejected", reason: new Error() })));
      const sum = (f) => xs.reduce((a, x) => a + f(x), 0);
      if (xs.some((x) => !x.ok)) S.reach("with failures");
      S.assert(S.and(S.eq(r.saved, sum((x) => (x.ok ? x.saved : 0))), S.eq(r.errors, sum((x) => (x.ok ? x.errors : 1))), S.eq(r.sizeBytes, sum((x) => (x.ok ? x.size : 0)))), "counts are the sums, a failure counting as one error");
      const q = sumResults(made);
      S.assert(S.and(S.eq(q.saved, sum((x) => x.saved)), S.eq(q.errors, sum((x) => x.errors)), S.eq(q.sizeBytes, sum((x) => x.size))), "counts are the sums");
    },
  },
};
