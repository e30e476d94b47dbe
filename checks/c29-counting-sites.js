import { quiet } from "./_util.js";
import { database, sessions } from "./_sql.js";
import { kysely } from "./_kysely.js";
const P = "road/counting-site/src/";
export const property = {
  id: "C29",
  title: "Counting sites follow their source, and their data have no gaps or repeats",
  statement: "After a check of the counting sites each site of the source is stored with its properties and not marked as removed, each other stored site is marked as removed since the check that first missed it, and the check is recorded only when all of that was stored. Data of a site are asked for only when it is not removed and its newest data are missing or more than a day old: for the day from the minute after them, or from ten days ago; each point is stored once with its mode, direction, granularity and count, and the newest point's time becomes the site's, or, without points and when more than seven days old, its time moves on by a day. Values are given for exactly the asked day (by default yesterday) or month, site and travel mode, an impossible request is answered with 400, an unknown site with 404 and a failure with 500.",
  quantifier: { over: ["inputs", "fault_sequences", "histories"], text: "any sites of up to 3 in source and database, symbolic newest times, any points, any statement or request failing, all kinds of requests" },
  why_tests_cant: "The tests need a database and use a few fixed sites; the source always answers and no day is without data.",
  anchors: {
    files: [P + "service/update-service.ts", P + "dao/site.ts", P + "dao/data.ts", P + "service/api-service.ts", P + "api/v2/eco-counter.ts"],
    mechanism: [{ name: "updateMetadata, compareSites, updateData, isDataUpdateNeeded", where: P + "service/update-service.ts" }, { name: "findValuesForDate, findCsvValuesForMonth, addSiteData", where: P + "dao/data.ts" }, { name: "GetValuesSchema, GetCsvValuesSchema, GetSitesSchema", where: P + "lambda" }],
    observe_at: "requests to the source, rows of a small database that carries out the statements sent to it, responses of the handlers",
  },
  assumptions: ["the clock runs in UTC, as it does in the cloud", "the query builder is a stand-in that makes the statement asked for", "local times of requests are exact to the minute"],
};
const NOW = Date.UTC(2024, 9, 15, 12, 30);
const DAY = 86400000, MIN = 60000;
const tables = (sites, data = []) => ({
  cs2_site: { cols: ["id", "name", "domain", "description", "custom_id", "latitude", "longitude", "granularity", "directional", "travel_modes", "removed_timestamp", "last_data_timestamp", "modified"], unique: [["id"]], required: ["id", "name", "domain"], rows: sites },
  cs2_data: { cols: ["site_id", "travel_mode", "direction", "data_timestamp", "granularity", "counts", "modified"], required: ["site_id", "travel_mode", "direction", "data_timestamp", "granularity", "counts"], unique: [], rows: data },
  data_updated: { cols: ["id", "data_type", "subtype", "updated"], defaults: { subtype: "-" }, unique: [["data_type", "subtype"]], rows: [] },
});
const site = (S, id, more = {}) => ({ id, name: "old" + id, domain: "Fintraffic", description: "d", custom_id: "c", latitude: 60, longitude: 20, granularity: "PT1H", directional: true, travel_modes: ["bike"], removed_timestamp: null, last_data_timestamp: null, modified: new S.world.Date(NOW - DAY), ...more });
function setup(S, db, answer) {
  const requests = [], times = [];
  const log = quiet(S);
  S.world.time = NOW;
  Object.assign(S.world.process.env, { DOMAIN_NAME: "Fintraffic", SECRET_ID: "s" });
  kysely(S, P + "dao/db");
  S.stub("aws/runtime/secrets/proxy-holder", { ProxyHolder: { create: () => S.mock({ setCredentials: async () => { await null; } }, "proxyHolder") } });
  S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: { create: () => S.mock({ get: async () => { await null; return { url: "http://eco", apiKey: "key" }; } }, "secretHolder") } });
  S.stub("ky", { default: S.mock({ get: async (url, o) => { requests.push({ url, o }); await null; return answer(url, requests.length); } }, "ky") });
  const token = (t) => String(times.push(t) - 1).padStart(3, "0");
  S.stub("@date-fns/tz", { TZDate: class { constructor(d) { const at = typeof d === "number" ? d : d.getTime(); return S.mock({ withTimeZone: (z) => { if (z !== "Europe/Helsinki") S.gap("other time zone"); return S.mock({ toLocaleDateString: (l) => { if (l !== "en-CA") S.gap("other locale"); return "D" + token(at); }, toLocaleTimeString: (l) => { if (l !== "en-GB") S.gap("other locale"); return "T" + token(at) + " :00"; } }, "local time"); } }, "TZDate"); } } });
  S.stub("@std/csv", { stringify: (rows, o) => ({ $csv: rows, columns: o.columns }) });
  const at = (x) => times[Number(x.slice(1))];
  // the site and times of a request for data
  const asked = (url) => { const m = /^http:\/\/eco\/api\/v2\/history\/traffic\/raw\?(.*)$/.exec(url); if (!m) return undefined; const p = Object.fromEntries(m[1].split("&").map((x) => x.split("="))); return { site: Number(p.siteId), from: at(p.startDate), fromTime: at(p.startTime), to: at(p.endDate), toTime: at(p.endTime) }; };
  return { requests, asked, log };
}
const updated = (db, type) => db.tables.data_updated.rows.find((r) => r.data_type === type);
const time = (x) => (typeof x === "string" ? Date.parse(x) : x.getTime());
const reply = (S, body, status = 200) => S.mock({ status, ok: status < 400, json: async () => { await null; return body; } }, "response");
export const harnesses = {
  metadata: {
    bounds: "3 sites (4 thorough), each in the source or not and not in the database, in it, or marked as removed earlier; optional granularity; the source fails or one statement fails",
    reach: ["new", "updated", "removed", "removed before", "back again", "source failed", "statement failed"],
    async run(S) {
      const was = new S.world.Date(NOW - 3 * DAY);
      const ids = S.thorough ? [1, 2, 3, 4] : [1, 2, 3];
      const state = ids.map((id) => ({ id, api: S.choose("api" + id, [true, false]), db: S.choose("db" + id, ["no", "yes", "removed"]) }));
      const granular = S.choose("granularity", [true, false]);
      const failing = S.choose("failing", ["no", "source", "status", "statement"]);
      const rows = state.filter((s) => s.db !== "no").map((s) => site(S, s.id, { removed_timestamp: s.db === "removed" ? was : null, last_data_timestamp: was }));
      rows.push(site(S, 9, { domain: "Other" }));
      const before = rows.map((r) => ({ ...r }));
      const db = sessions(S, database(S, tables(rows)));
      const api = (id) => ({ id, name: "new" + id, description: "e" + id, customId: "k" + id, location: { lat: 61, lon: 21 + id }, ...(granular ? { granularity: "PT15M" } : {}), travelModes: ["car"], directional: false });
      const { requests } = setup(S, db, (url) => { if (failing === "source") throw new Error("down"); return reply(S, state.filter((s) => s.api).map((s) => api(s.id)), failing === "status" ? 204 : 200); });
      const nth = failing === "statement" ? S.choose("nth", [1, 2, 3, 4]) : 0;
      let n = 0, failed = false;
      db.failing = ({ kind }) => { if (kind === "select") return false; n++; if (n === nth) { failed = true; return true; } return false; };
      const { handler } = S.load(P + "lambda/update-metadata/update-metadata.js");
      const r = await S.settle(() => handler());
      S.assert(!r.error, "the check does not fail");
      S.assert(requests.length === 1 && requests[0].url === "http://eco/api/v2/sites?include=domain" && requests[0].o.headers["X-API-KEY"] === "key", "the source is asked once with the key");
      const now = db.tables.cs2_site.rows, find = (id) => now.find((x) => x.id === id);
      const check = updated(db, "COUNTING_SITES_METADATA_CHECK");
      if (failing === "source" || failing === "status" || failed) {
        S.reach(failed ? "statement failed" : "source failed");
        if (!failed) S.assert(now.length === before.length && before.every((b) => Object.keys(b).every((k) => find(b.id)[k] === b[k])), "nothing is stored when the source fails");
        S.assert(!check, "a failed check is not recorded");
        return;
      }
      S.assert(!!check && S.eq(check.updated.getTime(), NOW), "the check is recorded");
      S.assert(now.length === state.filter((s) => s.api || s.db !== "no").length + 1, "no other sites");
      S.assert(Object.keys(before[before.length - 1]).every((k) => find(9)[k] === before[before.length - 1][k]), "sites of others stay");
      for (const s of state) {
        const x = find(s.id), old = before.find((b) => b.id === s.id);
        if (s.api) {
          S.reach(s.db === "no" ? "new" : s.db === "yes" ? "updated" : "back again");
          S.assert(x && x.name === "new" + s.id && x.description === "e" + s.id && x.custom_id === "k" + s.id && x.latitude === 61 && x.longitude === 21 + s.id && x.granularity === (granular ? "PT15M" : null) && x.directional === false && x.travel_modes.length === 1 && x.travel_modes[0] === "car" && x.domain === "Fintraffic", "a listed site has its properties");
          S.assert(x && x.removed_timestamp === null, "a listed site is not removed");
          if (old) S.assert(x.last_data_timestamp === was, "the time of the newest data stays");
        } else if (old) {
          S.reach(s.db === "yes" ? "removed" : "removed before");
          S.assert(x && x.removed_timestamp !== null && S.eq(x.removed_timestamp.getTime(), s.db === "yes" ? NOW : was.getTime()), "a missing site is removed since the check that first missed it");
          S.assert(Object.keys(old).every((k) => k === "removed_timestamp" || x[k] === old[k]), "otherwise a removed site stays as it was");
        } else S.assert(!x, "no site out of nothing");
      }
    },
  },
  "which data": {
    bounds: "one or two sites, each removed or not, newest data missing or any minute of the last 12 days; the source answers nothing, an empty list or points",
    reach: ["first time", "recent", "old", "removed", "no points", "moved on", "points"],
    async run(S) {
      const n = S.choose("n", [1, 2]);
      const sites = [];
      for (let i = 0; i < n; i++) sites.push({ id: 11 + i, removed: S.choose("removed" + i, [false, true]), last: S.choose("last" + i, [true, false]) ? S.int("age" + i, 0, i ? 10 * 1440 : 12 * 1440) : undefined, answer: S.choose("answer" + i, ["none", "empty", "points"]) });
      const rows = sites.map((s) => site(S, s.id, { removed_timestamp: s.removed ? new S.world.Date(NOW - DAY) : null, last_data_timestamp: s.last === undefined ? null : new S.world.Date(NOW - s.last * MIN) }));
      const was = rows.map((r) => r.last_data_timestamp);
      const db = sessions(S, database(S, tables(rows)));
      const t1 = NOW - 5 * DAY, points = [[t1, 3], [t1 + 3600000, 4]].map(([t, counts]) => ({ timestamp: new Date(t).toISOString(), granularity: "PT1H", counts }));
      const { requests, asked } = setup(S, db, (url) => { const id = Number(/siteId=(\d+)/.exec(url)[1]); const a = sites.find((s) => s.id === id).answer; return reply(S, a === "none" ? [] : a === "empty" ? [{ travelMode: "bike", direction: "in", data: [] }] : [{ travelMode: "bike", direction: "in", data: points }]); });
      const { handler } = S.load(P + "lambda/update-data/update-data.js");
      const r = await S.settle(() => handler());
      S.assert(!r.error, "the update does not fail");
      const check = updated(db, "COUNTING_SITES_DATA");
      S.assert(!!check && S.eq(check.updated.getTime(), NOW), "the update is recorded");
      const all = requests.map((q) => asked(q.url));
      S.assert(all.every((a) => a), "only data are asked for");
      sites.forEach((s, i) => {
        const mine = all.filter((a) => a.site === s.id), row = db.tables.cs2_site.rows.find((x) => x.id === s.id);
        const stored = db.tables.cs2_data.rows.filter((x) => x.site_id === s.id);
        const needed = !s.removed && (s.last === undefined || S.decide(s.last > 1440));
        if (!needed) {
          S.reach(s.removed ? "removed" : "recent");
          S.assert(mine.length === 0 && stored.length === 0 && row.last_data_timestamp === was[i], "nothing is asked for a removed or recent site");
          return;
        }
        S.reach(s.last === undefined ? "first time" : "old");
        const from = s.last === undefined ? Date.UTC(2024, 9, 5) : was[i].getTime();
        S.assert(mine.length === 1, "data of a site are asked for once");
        S.assert(mine.every((a) => S.and(S.eq(a.from, from + MIN), S.eq(a.fromTime, from + MIN), S.eq(a.to, from + DAY), S.eq(a.toTime, from + DAY))), "of the day after the newest data");
        if (s.answer === "points") {
          S.reach("points");
          S.assert(stored.length === 2 && S.eq(time(row.last_data_timestamp), t1 + 3600000), "points are stored, the newest is the site's time");
        } else {
          S.reach("no points");
          const moves = s.last !== undefined && S.decide(s.last > 7 * 1440);
          if (moves) S.reach("moved on");
          S.assert(stored.length === 0 && (moves ? S.eq(row.last_data_timestamp.getTime(), from + DAY) : row.last_data_timestamp === was[i]), "without points only an old time moves on");
        }
      });
    },
  },
  points: {
    bounds: "one site, 1..2 series of 0..2 points each with times in any order; no failure, or the source, a statement of any of the first 6 or the recording failing",
    reach: ["all stored", "none", "failed"],
    async run(S) {
      const failing = S.choose("failing", ["no", "source", "status", "statement"]);
      const t0 = NOW - 5 * DAY;
      const series = [0, 1].slice(0, S.choose("series", [1, 2])).map((i) => ({ travelMode: ["bike", "car"][i], direction: S.choose("direction" + i, ["in", "out"]), data: [0, 1].slice(0, S.choose("points" + i, [0, 1, 2])).map((j) => ({ timestamp: new Date(t0 + S.choose("at" + i + j, [0, 60, 1380]) * MIN).toISOString(), granularity: i ? "PT15M" : "PT1H", counts: 10 * i + j })) }));
      const last = new S.world.Date(NOW - 6 * DAY);
      const db = sessions(S, database(S, tables([site(S, 11, { last_data_timestamp: last }), site(S, 12, { last_data_timestamp: new S.world.Date(NOW) })])));
      setup(S, db, () => { if (failing === "source") throw new Error("down"); return reply(S, series, failing === "status" ? 500 : 200); });
      const nth = failing === "statement" ? S.choose("nth", [1, 2, 3, 4, 5, 6]) : 0;
      let n = 0, failed = failing === "source" || failing === "status";
      db.failing = ({ kind, table }) => { if (kind === "select") return false; n++; if (n === nth) { failed = table ?? "?"; return true; } return false; };
      const { handler } = S.load(P + "lambda/update-data/update-data.js");
      const r = await S.settle(() => handler());
      S.assert(!r.error, "the update does not fail");
      const all = series.flatMap((s) => s.data.map((d) => ({ ...d, travelMode: s.travelMode, direction: s.direction })));
      const rows = db.tables.cs2_data.rows, now = db.tables.cs2_site.rows.find((x) => x.id === 11).last_data_timestamp;
      const check = updated(db, "COUNTING_SITES_DATA");
      if (failed) {
        S.reach("failed");
        S.assert(!check, "a failed update is not recorded");
        if (failed !== "data_updated") S.assert(now === last, "after a failure the data are asked for again");
        return;
      }
      S.assert(!!check, "the update is recorded");
      S.reach(all.length ? "all stored" : "none");
      S.assert(rows.length === all.length && all.every((d) => rows.filter((x) => x.site_id === 11 && x.counts === d.counts && x.travel_mode === d.travelMode && x.direction === d.direction && x.granularity === d.granularity && time(x.data_timestamp) === Date.parse(d.timestamp)).length === 1), "each point is stored once, as it is");
      S.assert(all.length ? time(now) === Math.max(...all.map((d) => Date.parse(d.timestamp))) : now === last, "the site's time is that of the newest point");
    },
  },
  values: {
    bounds: "2 values at the ends of days of two sites and modes; the day asked, impossible or left out, site and mode asked or not, unknown parameters or modes, failing statements",
    reach: ["found", "none", "yesterday", "refused", "failure"],
    async run(S) {
      const date = S.choose("date", [undefined, "2024-10-13", "2024-02-30", "yesterday"]);
      const asked = { siteId: S.choose("site", [undefined, "11", "x"]), travelMode: S.choose("mode", [undefined, "bike", "tank"]) };
      const wrong = S.choose("wrong", ["no", "more", "fails"]), more = wrong === "more", fails = wrong === "fails";
      const day = date === undefined ? Date.UTC(2024, 9, 14) : Date.UTC(2024, 9, 13);
      const at = (k) => day + S.choose("at" + k, k ? [0, DAY - 1, DAY] : [-1, 0, DAY - 1, DAY]);
      const data = (wrong === "no" && asked.siteId !== "x" && asked.travelMode !== "tank" && date !== "yesterday" && date !== "2024-02-30" ? [0, 1] : []).map((k) => ({ site_id: S.choose("of" + k, [11, 12]), travel_mode: k ? "bike" : S.choose("by" + k, ["bike", "car"]), direction: "in", data_timestamp: new S.world.Date(at(k)), granularity: "PT1H", counts: k + 1, modified: new S.world.Date(NOW - (2 - k) * DAY) }));
      const db = sessions(S, database(S, tables([], data)));
      db.failing = () => fails;
      setup(S, db, () => S.gap("request"));
      const { handler } = S.load(P + "lambda/get-values/get-values.js");
      const event = Object.fromEntries(Object.entries({ date, ...asked, ...(more ? { extra: "1" } : {}) }).filter(([, v]) => v !== undefined));
      const r = await S.settle(() => handler(event));
      S.assert(!r.error, "every request is answered");
      if (r.error) return;
      if (more || asked.siteId === "x" || asked.travelMode === "tank" || date === "2024-02-30" || date === "yesterday") { S.reach("refused"); S.assert(r.value.status === 400, "an impossible request is answered with 400"); return; }
      if (fails) { S.reach("failure"); S.assert(r.value.status === 500, "a failure is answered with 500"); return; }
      if (date === undefined) S.reach("yesterday");
      const want = data.filter((d) => d.data_timestamp.getTime() >= day && d.data_timestamp.getTime() < day + DAY && (!asked.siteId || d.site_id === 11) && (!asked.travelMode || d.travel_mode === "bike"));
      S.reach(want.length ? "found" : "none");
      const got = JSON.parse(Buffer.from(r.value.body, "base64").toString());
      S.assert(r.value.status === 200 && got.length === want.length && want.every((d) => got.filter((g) => g.count === d.counts && g.siteId === d.site_id && g.travelMode === d.travel_mode && g.direction === "in" && g.granularity === "PT1H" && Date.parse(g.dataTimestamp) === d.data_timestamp.getTime()).length === 1), "exactly the values asked for");
      S.assert(Date.parse(r.value.timestamp) === (want.length ? Math.max(...want.map((d) => d.modified.getTime())) : NOW), "with the time they changed last");
    },
  },
  csv: {
    bounds: "2 values at the ends of months; months 0, 1, 10, 12 and 13, years 2023 and 2024, site missing, known or impossible, mode asked or not, unknown parameters, failing statements",
    reach: ["found", "none", "refused", "failure"],
    async run(S) {
      const event = { year: S.choose("year", ["2024", "2023", undefined, "x"]), month: S.choose("month", ["1", "10", "12", undefined, "0", "13"]), siteId: S.choose("site", ["11", undefined, "x"]), travelMode: S.choose("mode", [undefined, "bike", "tank"]) };
      const more = S.choose("more", [false, true]), fails = !more && S.choose("fails", [false, true]);
      const m = Number(event.month ?? 1) || 1, start = Date.UTC(2024, m - 1, 1), end = Date.UTC(2024, m, 1);
      const good = event.year === "2024" && ["1", "10", "12"].includes(event.month) && event.siteId === "11" && event.travelMode !== "tank" && !more;
      const data = (good && !fails ? [0, 1] : []).map((k) => ({ site_id: S.choose("of" + k, [11, 12]), travel_mode: k ? "bike" : S.choose("by" + k, ["bike", "car"]), direction: "in", data_timestamp: new S.world.Date(S.choose("at" + k, [start - 1, start, end - 1, end])), granularity: "PT1H", counts: k + 1, modified: new S.world.Date(NOW - (2 - k) * DAY) }));
      const db = sessions(S, database(S, tables([site(S, 11), site(S, 12)], data)));
      db.failing = () => fails;
      setup(S, db, () => S.gap("request"));
      // the writer of the table is a stand-in, so the response is looked at before it is encoded
      let given;
      S.stub("aws/types/lambda-response", { LambdaResponse: S.mock({ ok: (body, file) => { given = { body, file }; return S.mock({ withTimestamp: (t) => ({ status: 200, t }) }, "response"); }, badRequest: () => ({ status: 400 }), internalError: () => ({ status: 500 }) }, "LambdaResponse") });
      const h = S.load(P + "lambda/get-values-csv/get-values-csv.js").handler;
      const sent = Object.fromEntries(Object.entries({ ...event, ...(more ? { extra: "1" } : {}) }).filter(([, v]) => v !== undefined));
      const r = await S.settle(() => h(sent));
      S.assert(!r.error, "every request is answered");
      if (r.error) return;
      if (!good) { S.reach("refused"); S.assert(r.value.status === 400, "an impossible request is answered with 400"); return; }
      if (fails) { S.reach("failure"); S.assert(r.value.status === 500, "a failure is answered with 500"); return; }
      const want = data.filter((d) => d.data_timestamp.getTime() >= start && d.data_timestamp.getTime() < end && d.site_id === 11 && (!event.travelMode || d.travel_mode === "bike"));
      S.reach(want.length ? "found" : "none");
      const rows = given.body.$csv;
      S.assert(r.value.status === 200 && given.file === `2024-${event.month}.csv`, "a file named after the month");
      const cell = (row, header) => row[given.body.columns.find((c) => c.header === header).prop];
      S.assert(rows.length === want.length && want.every((d) => rows.filter((x) => cell(x, "COUNT") === d.counts && cell(x, "SITE") === "old11" && cell(x, "TRAVELMODE") === d.travel_mode && cell(x, "DIRECTION") === "in" && cell(x, "GRANULARITY") === "PT1H" && cell(x, "TIMESTAMP") === d.data_timestamp.toISOString()).length === 1), "exactly the values asked for");
      S.assert(S.eq(r.value.t.getTime(), want.length ? Math.max(...want.map((d) => d.modified.getTime())) : NOW), "with the time they changed last");
    },
  },
  sites: {
    bounds: "no, one or two sites found; site and domain asked or not, impossible sites, unknown parameters, failing statements",
    reach: ["found", "unknown", "empty", "refused", "failure"],
    async run(S) {
      const event = { siteId: S.choose("site", [undefined, "11", "x"]), domain: S.choose("domain", [undefined, "Fintraffic"]) };
      const more = S.choose("more", [false, true]), fails = S.choose("fails", [false, true]), n = S.choose("n", [0, 1, 2]);
      const seen = [];
      const db = sessions(S, database(S, tables([]), { answers(text, params, ctx) { if (!/json_build_object/.test(text)) return undefined; ctx.check("select", "cs2_site"); seen.push(params); return [{ collection: { type: "FeatureCollection", dataUpdatedTime: "2024-10-01T00:00:00Z", features: [1, 2].slice(0, n).map((id) => ({ id })) } }]; } }));
      db.failing = () => fails;
      setup(S, db, () => S.gap("request"));
      const { handler } = S.load(P + "lambda/get-sites/get-sites.js");
      const sent = Object.fromEntries(Object.entries({ ...event, ...(more ? { extra: "1" } : {}) }).filter(([, v]) => v !== undefined));
      const r = await S.settle(() => handler(sent));
      S.assert(!r.error, "every request is answered");
      if (r.error) return;
      if (more || event.siteId === "x") { S.reach("refused"); S.assert(r.value.status === 400, "an impossible request is answered with 400"); return; }
      if (fails) { S.reach("failure"); S.assert(r.value.status === 500, "a failure is answered with 500"); return; }
      S.assert(seen.length === 1 && (seen[0][0] ?? undefined) === (event.siteId ? 11 : undefined) && (seen[0][1] ?? undefined) === event.domain, "exactly what was asked for is looked up");
      if (event.siteId && n === 0) { S.reach("unknown"); S.assert(r.value.status === 404, "an unknown site is answered with 404"); return; }
      S.reach(n ? "found" : "empty");
      const got = JSON.parse(Buffer.from(r.value.body, "base64").toString());
      S.assert(r.value.status === 200 && got.features.length === n && Date.parse(r.value.timestamp) === Date.UTC(2024, 9, 1), "all sites found, with the time they changed last");
    },
  },
};
