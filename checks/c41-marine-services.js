import { quiet } from "./_util.js";
import { database, sessions } from "./_sql.js";
const M = "marine/";
export const property = {
  id: "C41",
  title: "Faults, fairway lights, sea states, schedules and port calls are true to sources",
  statement: "Faults, sea state reports and port calls that are received are stored whole or not at all, newest content under their own numbers, and every question about them is answered with exactly the ones it asks for, in the order asked, a bad question with 400 and a failure with 500. Fairway lights are brightened for every area with traffic that is not lit for another minute, whatever happens to other areas, and are noted as lit only when they are. Schedules are given only to those who know the token, for exactly the ship asked about.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "up to 2 sources of up to 2 faults, up to 3 areas lit until any time, up to 3 reports, two days of up to 2 port calls, symbolic times, texts and limits, any request or statement failing" },
  why_tests_cant: "The tests need a database, ask one question at a time and let nothing fail.",
  anchors: {
    files: ["aton-faults/src/service/update-faults.ts", "aton-faults/src/service/faults.ts", "aton-faults/src/db/faults.ts", "aton-faults/src/api/faults.ts", "aton-faults/src/lambda/get-faults/get-faults.ts", "aton-faults/src/lambda/update-faults/update-faults.ts", "shiplight/src/service/areatraffic.ts", "shiplight/src/service/arealights.ts", "shiplight/src/service/areavisibility.ts", "shiplight/src/api/arealights.ts", "shiplight/src/api/areavisibility.ts", "shiplight/src/db/areatraffic.ts", "shiplight/src/lambda/update-lights/update-lights.ts", "sea-state-estimate/src/service/sse-update-service.ts", "sea-state-estimate/src/db/sse-db.ts", "sea-state-estimate/src/lambda/update-sse-data/update-sse-data.ts", "voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts", "port-call/src/service/visit-service.ts", "port-call/src/api/nemo-api.ts", "port-call/src/db/visits.ts", "port-call/src/lambda/get-visit/get-visit.ts", "port-call/src/lambda/get-visits/get-visits.ts", "port-call/src/lambda/update-visits/update-visits.ts", "port-call/src/model/get-visits-schema.ts"].map((f) => M + f),
    mechanism: [{ name: "updateFaults, findAllFaults", where: M + "aton-faults/src/service" }, { name: "handlerFn, needToBrighten", where: M + "shiplight/src" }, { name: "saveSseData", where: M + "sea-state-estimate/src/service/sse-update-service.ts" }, { name: "handler", where: M + "voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts" }, { name: "updateVisits, getAllVisits", where: M + "port-call/src/service/visit-service.ts" }],
    observe_at: "answers, requests made and rows of a small database that carries out the statements sent to it",
  },
  assumptions: ["what sources send is of the form they describe", "positions of sea state sites are not on the equator or the prime meridian", "which areas have traffic, which is decided by geometry in the database, is given", "names looked for have no wildcard characters"],
};
const NOW = Date.UTC(2025, 4, 15, 12, 30);
const iso = (ms) => new Date(ms).toISOString();
const ms = (S, t) => (t instanceof S.world.Date || t instanceof Date ? t.getTime() : t);
const DU = () => ({ cols: ["id", "data_type", "subtype", "updated"], defaults: { subtype: "-" }, unique: [["data_type", "subtype"]], required: ["data_type", "updated"], rows: [] });
const UT = () => ({ cols: ["updated_name", "updated_time", "updated_by"], unique: [["updated_name"]], required: ["updated_name"], rows: [] });
function setup(S, w) {
  w.log = quiet(S);
  S.world.time = w.now ?? NOW;
  S.stub("aws/runtime/secrets/proxy-holder", { ProxyHolder: { create: () => S.mock({ setCredentials: async () => { await null; if (w.noCredentials) throw new Error("no credentials"); } }, "proxyHolder") } });
  S.stub("aws/runtime/secrets/rds-holder", { RdsHolder: { create: () => S.mock({ setCredentials: async () => { await null; } }, "rdsHolder") } });
  S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: { create: () => ({ get: async () => { await null; return w.secret; } }) } });
  class HTTPError extends Error { constructor(status) { super("status " + status); this.response = { status }; } }
  Object.assign(w, { asked: [], posted: [] });
  const reply = (a) => { if (a instanceof Error) throw a; if (a && a.fail) throw new HTTPError(a.fail); return { status: a?.status ?? 200, statusText: "x", json: async () => a.body, text: async () => a.body }; };
  S.stub("ky", { __esModule: true, HTTPError, default: {
    get: (url, o) => { const p = (async () => { await null; w.asked.push([url, o]); return reply(w.get(url, o)); })(); return Object.assign(p, { json: () => p.then((r) => r.json()), text: () => p.then((r) => r.text()) }); },
    post: (url, o) => { const p = (async () => { await null; w.posted.push([url, o]); return reply(w.post(url, o)); })(); return Object.assign(p, { json: () => p.then((r) => r.json()) }); },
  } });
  answersOf(S);
  return w.tables ? sessions(S, database(S, w.tables, { answers: w.answers })) : undefined;
}
// stand-in of the answers, which are judged elsewhere: what is answered stays as it is
function answersOf(S) {
  const answer = (status, json, timestamp) => ({ status, json, timestamp: timestamp && timestamp.toUTCString(), withTimestamp: (t) => answer(status, json, t) });
  const plain = { badRequest: (t) => answer(400, t), notFound: (t) => answer(404, t), internalError: (t) => answer(500, t), unauthorized: (t) => answer(401, t), notImplemented: (t) => answer(501, t) };
  const builder = (json, t) => S.mock({ withTimestamp: (x) => builder(json, x), build: () => answer(200, json, t) }, "builder");
  S.stub("aws/types/lambda-response", { LambdaResponse: S.mock({ ...plain, okJson: (json) => answer(200, json), ok: (text) => answer(200, JSON.parse(text)) }, "LambdaResponse"), LambdaResponseBuilder: S.mock({ ...plain, create: (json) => builder(json) }, "LambdaResponseBuilder") });
}
const body = (r) => r.value.json;
const FCOLS = ["id", "entry_timestamp", "fixed_timestamp", "state", "type", "domain", "fixed", "aton_id", "aton_name_fi", "aton_name_sv", "aton_type_fi", "fairway_number", "fairway_name_fi", "fairway_name_sv", "area_number", "geometry"];
const VCOLS = ["visit_id", "vessel_id", "vessel_name", "port_locode", "eta", "etd", "ata", "atd", "status", "update_time"];
export const harnesses = {
  faults_received: {
    bounds: "1..2 sources of 0..2 faults of 4 states with symbolic contents, one possibly stored earlier or by the other source; any request or statement failing",
    reach: ["stored", "replaced", "left out", "nothing stored", "source lost"],
    budgetMs: 200000,
    async run(S) {
      const w = { tables: { aton_fault: { cols: FCOLS, unique: [["id"]], required: ["id", "state", "type", "domain"], rows: [] }, updated_timestamp: UT() } };
      const old = S.bool("stored earlier");
      if (old) w.tables.aton_fault.rows.push(Object.fromEntries(FCOLS.map((c) => [c, c === "id" ? 1 : c === "fixed" ? false : "old " + c])));
      const n = S.choose("sources", [1, 2]);
      const sources = ["a", "b"].slice(0, n);
      const ok = sources.map((s, i) => S.choose("answer " + s, i ? ["ok", "lost"] : ["ok", "status", "lost"]));
      const faults = sources.map((s, i) => {
        if (ok[i] !== "ok") return [];
        const k = S.choose("faults " + s, i ? [1] : [0, 1, 2]);
        return Array.from({ length: k }, (_, j) => {
          const tag = s + j, first = !i && !j;
          const p = { ID: j === 1 ? 2 : 1, FAULT_TYPE: "t" + tag, FAULT_ENTRY_TIMESTAMP: first ? S.choose("entry " + tag, ["2022-03-10 02:53:21", null]) : "2022-03-11 00:00:00", FAULT_FIXED_TIMESTAMP: j ? "2022-04-10 02:53:21" : null, FAULT_STATE: S.choose("state " + tag, first ? ["Avoin", "Kirjattu", "Aiheeton", "Korjattu"] : ["Avoin", "Kirjattu"]), FAULT_FIXED: first ? S.int("fixed", 0, 1) : 0, TL_NUMERO: first ? S.int("number", 0, 9) : 3, TL_NIMI_SE: "sv" + tag, TL_NIMI_FI: "fi" + tag, TL_TYYPPI_FI: "tt" + tag, VAYLA_JNRO: 7 + j, VAYLA_NIMI_FI: "vf" + tag, VAYLA_NIMI_SE: "vs" + tag, MERIALUE_NRO: 8 + j };
          return { type: "Feature", properties: p, geometry: { type: "Point", coordinates: [20 + i, 60 + j] } };
        });
      });
      const db = setup(S, w);
      class TZDate { constructor(text, zone) { this.text = text; this.zone = zone; } }
      S.stub("@date-fns/tz", { TZDate });
      w.get = (url) => { const i = url === "http://a" ? 0 : url === "http://b" ? 1 : -1; if (i < 0) return new Error("unknown host"); return ok[i] === "ok" ? { body: { features: faults[i] } } : ok[i] === "status" ? { status: 204 } : new Error("no answer"); };
      S.world.process.env.INTEGRATIONS = JSON.stringify(sources.map((s) => ({ url: "http://" + s, domain: "D" + s })));
      const fail = S.choose("failing", ["nothing", 0, 1, 2]);
      let count = 0, failed = false;
      if (fail !== "nothing") db.failing = () => { const hit = count++ === fail; if (hit) failed = true; return hit; };
      const before = w.tables.aton_fault.rows.map((r) => ({ ...r }));
      const { handler } = S.load(M + "aton-faults/src/lambda/update-faults/update-faults.ts");
      const r = await S.settle(() => handler());
      if (failed) S.assert(r.error, "a failure is told of"); else S.assert(!r.error, "faults are taken in");
      // what each whole source would leave
      const rows = before;
      const apply = (i) => { for (const f of faults[i]) { const p = f.properties; if (p.FAULT_STATE === "Kirjattu") { S.reach("left out"); continue; }
        const t = (x) => (x === null ? null : { text: x, zone: "Europe/Helsinki" });
        const now = rows.find((x) => x.id === p.ID);
        if (now) { S.reach("replaced"); Object.assign(now, { entry_timestamp: t(p.FAULT_ENTRY_TIMESTAMP), fixed_timestamp: t(p.FAULT_FIXED_TIMESTAMP), state: p.FAULT_STATE, fixed: S.eq(p.FAULT_FIXED, 1) }); continue; }
        rows.push({ id: p.ID, entry_timestamp: t(p.FAULT_ENTRY_TIMESTAMP), fixed_timestamp: t(p.FAULT_FIXED_TIMESTAMP), state: p.FAULT_STATE, type: p.FAULT_TYPE, domain: "D" + sources[i], fixed: S.eq(p.FAULT_FIXED, 1), aton_id: p.TL_NUMERO, aton_name_fi: p.TL_NIMI_FI, aton_name_sv: p.TL_NIMI_SE, aton_type_fi: p.TL_TYYPPI_FI, fairway_number: p.VAYLA_JNRO, fairway_name_fi: p.VAYLA_NIMI_FI, fairway_name_sv: p.VAYLA_NIMI_SE, area_number: p.MERIALUE_NRO, geometry: `POINT(${f.geometry.coordinates[0]} ${f.geometry.coordinates[1]})` }); S.reach("stored"); } };
      const alike = () => { const now = w.tables.aton_fault.rows; return now.length === rows.length && rows.every((x) => { const y = now.find((z) => z.id === x.id); return y && S.decide(S.and(...FCOLS.map((c) => (x[c] && x[c].zone ? !!y[c] && y[c].text === x[c].text && y[c].zone === x[c].zone : S.eq(x[c], y[c]))))); }); };
      // a failure ends the run: whole sources before it are kept, nothing of the one that failed
      let matched = false;
      if (failed && alike()) matched = true;
      sources.forEach((s, i) => { apply(i); if (ok[i] !== "ok") S.reach("source lost"); if (failed && i < n - 1 && alike()) matched = true; });
      if (!failed) { S.assert(alike(), "exactly the faults received are stored"); S.assert(w.tables.updated_timestamp.rows.some((x) => x.updated_name === "ATON_FAULTS_CHECK" && S.decide(S.eq(ms(S, x.updated_time), NOW))), "the time of the check is kept"); } else { S.reach("nothing stored"); S.assert(matched, "a source is stored whole or not at all"); }
    },
  },
  faults_asked: {
    bounds: "3 stored faults fixed at symbolic times or not at all; any of 8 languages, any limit of 1..4 digits or other text; the statements failing",
    reach: ["answered", "bad", "failed", "unfixed", "fixed within", "fixed before", "default"],
    budgetMs: 200000,
    async run(S) {
      const w = {};
      const at = S.int("fixed at", NOW - 2401 * 3600000, NOW);
      const three = (i) => ({ name_fi: "fi" + i, name_en: "en" + i, name_sv: "sv" + i });
      const row = (id, fixed) => ({ id, entry_timestamp: new S.world.Date(NOW - id), fixed_timestamp: fixed === null ? null : new S.world.Date(fixed), state: "fi2", type: "fi1", domain: "C_NA", fixed: fixed !== null, aton_id: 10 + id, aton_name_fi: "a" + id, aton_name_sv: "b" + id, aton_type_fi: "fi3", fairway_number: 20 + id, fairway_name_fi: "c" + id, fairway_name_sv: "d" + id, area_number: 5, geometry: "G" + id });
      const rows = [row(1, null), row(2, at), row(3, NOW - 3600000 * 24 * 365)];
      w.tables = { aton_fault: { cols: FCOLS, rows }, area: { rows: [{ area_number: 5, description_fi: "fi4", description_en: "en4", description_sv: "sv4" }, { area_number: 6 }] }, aton_fault_type: { rows: [three(1), three(8)] }, aton_fault_state: { rows: [three(2)] }, aton_type: { rows: [three(3)] }, updated_timestamp: UT() };
      const stamped = S.bool("checked");
      if (stamped) w.tables.updated_timestamp.rows.push({ updated_name: "ATON_FAULTS_CHECK", updated_time: new S.world.Date(NOW - 7000) });
      const db = setup(S, w);
      S.stub("@date-fns/tz", { TZDate: class {} });
      S.stub("wkx", { Geometry: { parse: (buf) => ({ toGeoJSON: () => ({ type: "Point", from: buf }) }) } });
      const hoursKind = S.choose("limit", ["none", "", "number", "text", "fraction", "zero", "most", "long"]);
      const language = S.choose("language", hoursKind === "none" ? [undefined, "", "FI", "fi", "Sv", "en", "de", "name"] : ["sv"]);
      const num = hoursKind === "number" ? S.str("hours", [1, 4], "0123456789") : undefined;
      const hours = { none: undefined, "": "", number: num, text: "soon", fraction: "0.5", zero: "0", most: "2400", long: "2399" }[hoursKind];
      const more = hoursKind === "none" && !language ? S.bool("more") : false;
      const failing = hoursKind === "none" ? S.choose("failing", ["nothing", "select", "credentials"]) : "nothing";
      if (failing === "select") db.failing = () => true;
      if (failing === "credentials") w.noCredentials = true;
      const { handler } = S.load(M + "aton-faults/src/lambda/get-faults/get-faults.ts");
      const r = await S.settle(() => handler({ ...(language !== undefined && { language }), ...(hours !== undefined && { fixed_in_hours: hours }), ...(more && { other: "x" }) }));
      if (r.error || !r.value) S.fail("a question is answered");
      const h = hoursKind === "none" || hoursKind === "" ? 168 : hoursKind === "number" ? Number(num) : { fraction: 0.5, zero: 0, most: 2400, long: 2399 }[hoursKind];
      if (more || hoursKind === "text" || !S.decide(S.and(h > 0, h < 2400))) { S.reach("bad"); S.assert(r.value.status === 400, "a bad question is refused"); return; }
      if (failing !== "nothing") { S.reach("failed"); S.assert(r.value.status === 500, "a failure is answered with 500"); return; }
      S.assert(r.value.status === 200, "a good question is answered");
      if (hoursKind === "none" || hoursKind === "") S.reach("default");
      S.reach("answered");
      const stmt = db.statements.find((s) => s.kind === "select" && s.table === "aton_fault");
      if (!stmt) S.fail("faults are looked for");
      const limit = (stmt.params ?? [])[0];
      // fractions of hours: the library's own rounding is not judged
      if (hoursKind !== "fraction") S.assert(S.eq(ms(S, limit), NOW - h * 3600000), "fixed within the hours asked for");
      const doc = body(r);
      const ids = (doc.features ?? []).map((f) => f.properties.id);
      S.assert(ids.includes(1) && !ids.includes(3), "the unfixed ones and not those fixed long ago");
      S.reach("unfixed");
      if (hoursKind !== "fraction") { const within = S.decide(at >= NOW - h * 3600000); S.reach(within ? "fixed within" : "fixed before"); S.assert(ids.includes(2) === within && ids.length === (within ? 2 : 1), "exactly the ones asked for"); }
      const lang = language === "FI" || language === "fi" ? "fi" : language === "Sv" || language === "sv" ? "sv" : "en";
      const f = doc.features.find((x) => x.properties.id === 1);
      const want = { id: 1, entry_timestamp: NOW - 1, fixed_timestamp: null, type: lang + "1", domain: "C_NA", state: lang + "2", fixed: false, aton_id: 11, aton_name_fi: "a1", aton_name_sv: "b1", aton_type: lang + "3", fairway_number: 21, fairway_name_fi: "c1", fairway_name_sv: "d1", area_number: 5, area_description: lang + "4" };
      S.assert(Object.keys(want).every((k) => ms(S, f.properties[k]) === want[k]) && f.type === "Feature" && f.geometry.type === "Point", "with their contents in the language asked for");
      S.assert(doc.type === "FeatureCollection" && r.value.timestamp === (stamped ? new Date(NOW - 7000).toUTCString() : undefined), "and when they were checked");
    },
  },
  lights: {
    bounds: "1..3 areas lit until symbolic times or never; the visibility or lights service or storing failing for any of them, once or for good",
    reach: ["lit", "still lit", "not lit", "lit after another try", "visibility unknown", "not noted", "zero visibility"],
    budgetMs: 200000,
    async run(S) {
      const w = { secret: { visibilityEndpointUrl: "http://vis", visibilityApiKey: "VK", lightsControlEndpointUrl: "http://lights", lightsControlApiKey: "LK" } };
      const n = S.choose("areas", [1, 2, 3]);
      const rows = Array.from({ length: n }, (_, i) => ({ id: i + 1, name: "n" + i, brighten_duration_min: 10 + i, brighten_sent: null, brighten_end: S.bool("lit" + i) ? S.date("end" + i, NOW - 120000, NOW + 120000) : null }));
      const before = rows.map((r) => r.brighten_end);
      w.tables = { areatraffic: { cols: ["id", "name", "brighten_duration_min", "brighten_sent", "brighten_end"], unique: [["id"]], rows } };
      w.answers = (text, params, o) => { if (!/distinct on/i.test(text)) return undefined; o.check("select", "areatraffic"); return rows.map((r, i) => ({ ...r, ship_mmsi: 230000000 + i, ship_name: "s" + i })); };
      const vis = S.choose("visibility", ["ok", "zero", "lost", "status"]);
      const bad = S.choose("failing area", n === 1 ? [1] : n === 2 ? [1, 2] : [2]);
      const how = S.choose("lights", ["ok", "once", "twice", "for good", "not noted", "refused by lights"]);
      const db = setup(S, w);
      if (how === "not noted") db.failing = ({ kind, params }) => kind === "update" && (params ?? [])[0] === bad;
      w.get = () => ({ ok: { body: { visibilityInMeters: 900 } }, zero: { body: { visibilityInMeters: 0 } }, lost: new Error("no answer"), status: { status: 202, body: {} } })[vis];
      const tries = {};
      w.post = (url, o) => { const b = JSON.parse(o.body); const t = (tries[b.routeId] = (tries[b.routeId] ?? 0) + 1); if (b.routeId === bad && (how === "for good" || (how === "once" && t <= 1) || (how === "twice" && t <= 2))) return how === "once" ? { fail: 503 } : new Error("no answer"); return { body: { LightsSetSentSuccessfully: [1], LightsSetSentFailed: how === "refused by lights" ? [2] : [] } }; };
      const { handler } = S.load(M + "shiplight/src/lambda/update-lights/update-lights.ts");
      const r = await S.settle(() => handler());
      S.assert(!r.error, "areas are gone through");
      rows.forEach((row, i) => {
        const id = i + 1, due = before[i] === null || S.decide(ms(S, before[i]) < NOW + 60000);
        const mine = w.posted.filter(([, o]) => JSON.parse(o.body).routeId === id);
        if (!due) { S.reach("still lit"); S.assert(mine.length === 0, "what is lit is left alone"); return; }
        const fails = id === bad;
        S.assert(mine.length === (fails && how === "for good" ? 3 : fails && how === "once" ? 2 : fails && how === "twice" ? 3 : 1), "lights are asked for, again when they fail");
        if (!mine.length) return;
        const [url, o] = mine[0], b = JSON.parse(o.body);
        S.assert(url === "http://lights" && o.headers && o.headers["x-api-key"] === "LK", "from the service of the lights");
        S.assert(b.time === 10 + i && b.MMSI === String(230000000 + i) && b.shipName === "s" + i && b.visibility === (vis === "ok" ? 900 : vis === "zero" ? 0 : null) && "visibility" in b, "for this ship, time and visibility");
        if (vis === "lost" || vis === "status") S.reach("visibility unknown");
        if (vis === "zero") S.reach("zero visibility");
        const lit = !(fails && (how === "for good" || how === "not noted"));
        if (!lit) { S.reach(how === "for good" ? "not lit" : "not noted"); S.assert(S.eq(ms(S, row.brighten_end), ms(S, before[i])), "what is not lit is not noted as lit"); return; }
        S.reach(fails && how === "twice" ? "lit after another try" : "lit");
        S.assert(S.and(S.eq(ms(S, row.brighten_end), NOW + (10 + i) * 60000), S.eq(ms(S, row.brighten_sent), NOW)), "what is lit is noted until when");
      });
      S.assert(w.asked.every(([url, o]) => url.startsWith("http://vis/") && o.headers && o.headers.token === "VK"), "visibility is asked with the key");
    },
  },
  sea_states: {
    bounds: "0..3 reports of two sites with symbolic values, any part missing, one stored earlier; any of the first 6 statements failing; other messages",
    reach: ["stored", "not usable", "not stored", "refused", "newest of a site"],
    async run(S) {
      const COLS = ["sse_report_id", "created", "latest", "site_number", "site_name", "last_update", "sea_state", "trend", "wind_wave_dir", "confidence", "heel_angle", "light_status", "temperature", "longitude", "latitude", "site_type"];
      const w = { tables: { sse_report: { cols: COLS, unique: [], required: ["sse_report_id", "site_number", "site_name", "last_update", "sea_state", "trend", "wind_wave_dir", "confidence", "longitude", "latitude"], rows: [1, 2].map((n) => ({ sse_report_id: -n, latest: true, site_number: n, site_name: "old" })) }, updated_timestamp: UT() } };
      const db = setup(S, w);
      const kind = S.choose("message", ["reports", "nothing", "without reports", "none"]);
      const n = kind === "reports" ? S.choose("n", [1, 2, 3]) : 0;
      const reports = Array.from({ length: n }, (_, i) => {
        const extra = S.choose("extra" + i, i < 2 ? ["all", "place only", "no latitude", "no longitude", "none"] : ["all"]);
        const lat = i ? 60 + i : S.real("lat", 58, 66), lon = i ? 20 + i : S.real("lon", 19, 30), dir = i ? 10 + i : S.int("dir", 0, 359);
        return { extra, site: i === 2 ? 1 : S.choose("site" + i, [1, 2]), r: { Site: { SiteName: "s" + i, SiteNumber: 0, SiteType: i ? "FIXED" : "FLOATING" }, SSE_Fields: { Last_Update: iso(NOW - i), Confidence: "GOOD", SeaState: i ? "CALM" : "STORM", Trend: "NO_CHANGE", WindWaveDir: dir }, ...(extra !== "none" && { Extra_Fields: { ...(extra === "all" && { Temperature: i - 1, Heel_Angle: i, Light_Status: "ON" }), ...(extra !== "no latitude" && { Coord_Latitude: lat }), ...(extra !== "no longitude" && { Coord_Longitude: lon }) } }) } };
      });
      reports.forEach((x) => { x.r.Site.SiteNumber = x.site; });
      const fail = n ? S.choose("failing", ["nothing", 0, 1, 2, 3, 4]) : "nothing";
      let count = 0;
      const hits = [];
      db.failing = (s) => { const hit = count++ === fail; hits.push([s, hit]); return hit; };
      const { handler } = S.load(M + "sea-state-estimate/src/lambda/update-sse-data/update-sse-data.ts");
      const r = await S.settle(() => handler(kind === "nothing" ? undefined : kind === "without reports" ? {} : { SSE_Reports: reports.map((x) => x.r) }));
      if (kind === "nothing" || kind === "without reports") { S.reach("refused"); S.assert(typeof r.error === "string" && JSON.parse(r.error).error === "BadRequest" || (typeof r.error === "string" && /bad ?request/i.test(JSON.parse(r.error).error)), "an empty message is refused"); return; }
      if (r.error || !r.value) S.fail("reports are gone through");
      // three statements for each usable report, fewer when one fails
      const rows = w.tables.sse_report.rows;
      let at = 0, saved = 0;
      const last = { 1: -1, 2: -2 };
      reports.forEach((x, i) => {
        const usable = x.extra === "all" || x.extra === "place only";
        const row = rows.filter((y) => y.site_name === "s" + i);
        if (!usable) { S.reach("not usable"); S.assert(row.length === 0, "an unusable report is left out"); return; }
        const broken = typeof fail === "number" && fail >= at && fail < at + 3;
        at += broken ? fail - at + 1 : 3;
        if (broken) { S.reach("not stored"); S.assert(row.length === 0, "a report is stored whole or not at all"); return; }
        saved++; S.reach("stored");
        if (row.length !== 1) S.fail("a report is stored once");
        const y = row[0], e = x.r.Extra_Fields, f = x.r.SSE_Fields, nul = (v) => v ?? null;
        S.assert(S.and(S.eq(y.latitude, e.Coord_Latitude), S.eq(y.longitude, e.Coord_Longitude), S.eq(y.wind_wave_dir, f.WindWaveDir), nul(y.temperature) === nul(e.Temperature), nul(y.heel_angle) === nul(e.Heel_Angle), nul(y.light_status) === nul(e.Light_Status), y.site_number === x.site, y.site_type === x.r.Site.SiteType, y.last_update === f.Last_Update, y.confidence === f.Confidence, y.sea_state === f.SeaState, y.trend === f.Trend), "with its contents");
        last[x.site] = y.sse_report_id;
      });
      for (const s of [1, 2]) { const latest = rows.filter((y) => y.site_number === s && y.latest === true); S.assert(latest.length === 1 && latest[0].sse_report_id === last[s], "the last report of a site is its latest"); if (last[s] > 0) S.reach("newest of a site"); }
      S.assert(r.value.saved === saved && r.value.errors === n - saved, "and it is told how many were stored");
      if (saved) S.assert(w.tables.updated_timestamp.rows.some((x) => x.updated_name === "SSE_DATA"), "with the time");
    },
  },
  schedules: {
    bounds: "any token given or none, any of 5 directions, calculated or not, none to all of 7 parameters with symbolic values of up to 2 characters, the service failing",
    reach: ["given", "denied", "unknown direction", "no answer", "encoded"],
    async run(S) {
      const w = { secret: { "vpgw.schedulesAccessToken": "ab", "vpgw.schedulesUrl": "https://vis/schedules" } };
      setup(S, w);
      const kind = S.choose("token", ["given", "none", "no parameters"]);
      const auth = kind === "given" ? S.str("auth", [0, 2], "abA") : undefined;
      const direction = S.choose("direction", [undefined, "", "east", "west", "north"]);
      const calculated = direction === "north" ? undefined : S.choose("calculated", [undefined, "true", "false"]);
      const NAMES = ["name", "callsign", "imo", "mmsi", "uuid", "locode", "externalID"];
      const which = direction === undefined || direction === "east" ? S.choose("parameter", ["none", ...NAMES, "other", "all"]) : "none";
      const params = {};
      if (which === "all") NAMES.forEach((k, i) => { params[k] = "v" + i; });
      else if (which !== "none") params[which] = S.str("value", [0, 2], "aB&= #%é");
      const lost = S.bool("lost");
      w.get = () => (lost ? new Error("no answer") : { body: "[schedules]" });
      const q = kind === "no parameters" ? null : { ...(auth !== undefined && { auth }), ...(direction !== undefined && { direction }), ...(calculated !== undefined && { calculated }), ...params };
      const { handler } = S.load(M + "voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts");
      const r = await S.settle(() => handler({ queryStringParameters: q }));
      const allowed = kind === "given" && S.decide(S.eq(auth, "ab"));
      if (!allowed) { S.reach("denied"); S.assert(!r.error && r.value && r.value.statusCode === 403 && w.asked.length === 0 && !/schedules/.test(r.value.body), "others are denied"); return; }
      if (direction === "north") { S.reach("unknown direction"); S.assert(!r.error && r.value && r.value.statusCode === 400 && w.asked.length === 0, "an unknown direction is refused"); return; }
      S.assert(w.asked.length === 1, "the service is asked once");
      if (w.asked.length !== 1) return;
      const url = new URL(S.concrete(w.asked[0][0]));
      S.assert(url.origin + url.pathname === "https://vis/schedules" + (direction ? "/" + direction : "") + (calculated === "true" ? "/calculated" : ""), "about the direction asked for");
      const got = [...url.searchParams.keys()].sort().join(), want = Object.keys(params).filter((k) => k !== "other").sort().join();
      S.assert(got === want && url.hash === "", "with the parameters given and no others");
      for (const k of Object.keys(params)) if (k !== "other") { S.assert(S.eq(url.searchParams.get(k), params[k]), "each with its own value"); S.reach("encoded"); }
      if (lost) { S.reach("no answer"); S.assert(r.error || r.value.statusCode >= 500, "no answer is not an answer"); return; }
      S.reach("given");
      S.assert(r.value && r.value.statusCode === 200 && r.value.body === "[schedules]", "the answer is given as it is");
    },
  },
  visits_received: {
    bounds: "two or three days of 0..2 port calls with symbolic times, one stored earlier with the same or other contents; any day's answer or any statement failing; the scheduled run of all its days",
    reach: ["inserted", "updated", "unchanged", "day lost", "not stored", "all days"],
    budgetMs: 200000,
    async run(S) {
      const w = { secret: { url: "https://nemo", privateKey: Buffer.from("K").toString("base64"), certificate: Buffer.from("C").toString("base64") } };
      w.tables = { pc2_visit: { cols: VCOLS, unique: [["visit_id"]], required: ["visit_id", "port_locode", "eta", "status"], rows: [] }, updated_timestamp: UT() };
      const whole = S.bool("scheduled run");
      const visit = (id, eta, o = {}) => ({ visitId: id, portCall: { vesselInformation: { identification: "1234567", name: "N" }, voyageInformation: { portIdentification: o.port ?? "FIHEL", estimatedArrivalDateTime: eta, estimatedDepartureDateTime: o.etd ?? null }, arrivalNotification: { actualArrivalDateTime: o.ata ?? null }, departureNotification: { actualDepartureDateTime: o.atd ?? null }, portCallStatus: { status: o.status ?? "Expected to Arrive" } }, latestUpdateTime: NOW });
      const eta = S.int("eta", NOW, NOW + 3), old = S.choose("stored", ["no", "yes", "left later"]);
      const first = { visit_id: "V1", vessel_id: "1234567", vessel_name: "N", port_locode: "FIHEL", eta: NOW, etd: null, ata: null, atd: null, status: "Expected to Arrive", update_time: 1 };
      if (old !== "no") w.tables.pc2_visit.rows.push({ ...first, ...(old === "left later" && { atd: NOW }) });
      const k = S.choose("n", [0, 1, 2]);
      const change = k ? S.choose("change", ["none", "port", "etd", "ata", "atd", "status"]) : "none";
      const v1 = visit("V1", eta, { [change]: { port: "FIKTK", etd: NOW + 9, ata: NOW + 8, atd: NOW + 7, status: "Arrived" }[change] });
      const days = [[], k === 0 ? [] : k === 1 ? [v1] : [v1, visit("V2", NOW + 50)]];
      const lost = whole ? S.choose("lost", ["none", 1, 40]) : S.choose("lost", ["none", 0, 1, 2]);
      const db = setup(S, w);
      const asked = [];
      const request = async (url, o) => { await null; const i = asked.length; asked.push([String(url.href ?? url), o]); if (i === lost) { if (i === 1) return { statusCode: 500, body: { json: async () => [] } }; throw new Error("no answer"); } return { statusCode: 200, body: { json: async () => days[i] ?? [] } }; };
      S.stub("undici", { Agent: class { constructor(o) { this.o = o; } }, request });
      const fail = whole ? "nothing" : S.choose("failing", ["nothing", 0, 1, 2]);
      let count = 0, failed = false;
      if (fail !== "nothing") db.failing = () => { const hit = count++ === fail; if (hit) failed = true; return hit; };
      let r;
      const n = whole ? 101 : 3;
      if (whole) r = await S.settle(() => S.load(M + "port-call/src/lambda/update-visits/update-visits.ts").handler());
      else r = await S.settle(() => S.load(M + "port-call/src/service/visit-service.ts").updateVisits("https://nemo", "K", "C", 2));
      const ok = !failed && lost === "none";
      if (whole) S.assert(!r.error, "a scheduled run ends"); else S.assert(("value" in r) === ok, "a failure is told of");
      const seen = lost === "none" ? n : lost + 1;
      if (!failed) S.assert(asked.length === seen, "every day is asked about");
      // days follow each other from yesterday's beginning
      const start = new Date(NOW); start.setHours(0, 0, 0, 0); start.setDate(start.getDate() - 1);
      const z = (d) => d.toISOString().slice(0, 19) + "Z";
      asked.forEach(([url, o], i) => { const from = new Date(start); from.setDate(from.getDate() + i); const to = new Date(from); to.setDate(to.getDate() + 1); S.assert(url === `https://nemo/${z(from)}/${z(to)}`, "each for one day"); const c = o.dispatcher && o.dispatcher.o && o.dispatcher.o.connect; S.assert(c && c.cert === "C" && c.key === "K", "with the certificate"); });
      const rows = w.tables.pc2_visit.rows, row = rows.filter((x) => x.visit_id === "V1");
      const same = S.and(S.eq(eta, NOW), old === "yes" ? change === "none" : change === "atd" ? false : false);
      const stored = k > 0 && (lost === "none" || lost > 1) && !(failed && (fail < k));
      const stamp = w.tables.updated_timestamp.rows.some((x) => x.updated_name === "PC2_VISITS");
      S.assert(stamp === ok, "the time of the update is kept when all days are in");
      if (lost !== "none") S.reach("day lost");
      if (whole && ok) S.reach("all days");
      if (!stored) { if (failed) S.reach("not stored"); S.assert(rows.length === (old !== "no" ? 1 : 0) && row.every((x) => x.update_time === 1 && S.decide(S.eq(x.eta, NOW))), "what is not received is left"); return; }
      S.assert(row.length === 1 && rows.length === k, "one row for each port call");
      if (row.length !== 1) return;
      const x = row[0], p = v1.portCall;
      S.assert(S.and(S.eq(x.eta, eta), x.port_locode === p.voyageInformation.portIdentification, S.eq(x.etd, p.voyageInformation.estimatedDepartureDateTime), S.eq(x.ata, p.arrivalNotification.actualArrivalDateTime), S.eq(x.atd, p.departureNotification.actualDepartureDateTime), x.status === p.portCallStatus.status, x.vessel_id === "1234567", x.vessel_name === "N"), "with the newest contents");
      const unchanged = old === "yes" && S.decide(same);
      if (old === "no") S.reach("inserted"); else S.reach(unchanged ? "unchanged" : "updated");
      const sameLeft = old === "left later" && change === "none" && false;
      S.assert(unchanged || sameLeft ? x.update_time === 1 : x.update_time === NOW, "with the time it changed");
      if (k === 2) { const y = rows.find((q) => q.visit_id === "V2"); S.assert(y && y.eta === NOW + 50 && y.etd === null, "the other too"); }
      if (!whole && ok) S.assert(r.value && r.value.items === k && r.value.inserted === (old === "no" ? k : k - 1) && r.value.updated === (old !== "no" && !unchanged ? 1 : 0), "and it is told how many");
    },
  },
  visits_asked: {
    bounds: "3 stored port calls with symbolic arrival times; any one or two of the limits, names, numbers, statuses and orders, good or bad; the statements failing",
    reach: ["answered", "bad", "failed", "sorted", "one", "none such", "within times"],
    budgetMs: 300000,
    async run(S) {
      const w = {};
      const H = 3600000, at = S.int("arrives", -5, 5), gone = S.int("departs", -5, 5);
      const row = (i, o) => ({ visit_id: "V" + i, vessel_id: "000000" + i, vessel_name: "Name" + i, port_locode: "FIHEL", eta: new S.world.Date(NOW + i * H), etd: null, ata: null, atd: null, status: "Expected to Arrive", update_time: new S.world.Date(NOW - i * 1000), ...o });
      const rows = [
        row(1, { vessel_name: "Aurora", eta: new S.world.Date(NOW + at * H), status: "Arrived", ata: new S.world.Date(NOW + 2 * H) }),
        row(2, { vessel_name: "aurelia", port_locode: "FIKTK", etd: new S.world.Date(NOW + gone * H), atd: new S.world.Date(NOW + 40 * H), status: "Departed" }),
        row(3, { vessel_name: "Boren", eta: new S.world.Date(NOW - H * 24 * 200) }),
        row(4, { vessel_name: "Cargo", eta: new S.world.Date(NOW - 30 * H), port_locode: "SESTO", status: "Cancelled" }),
      ];
      w.tables = { pc2_visit: { cols: VCOLS, unique: [["visit_id"]], rows } };
      const db = setup(S, w);
      const asks = S.choose("asks", ["one", "from", "to", "both times", "port", "name", "imo", "status", "sort", "nothing", "other", "failing"]);
      const fail = asks === "failing" ? S.choose("failing", ["select", "credentials"]) : "nothing";
      if (fail === "select") db.failing = () => true;
      if (fail === "credentials") w.noCredentials = true;
      if (asks === "one") {
        const id = S.str("id", 2, "V015");
        if (S.bool("fails")) db.failing = () => true;
        const { handler } = S.load(M + "port-call/src/lambda/get-visit/get-visit.ts");
        const r = await S.settle(() => handler({ visitId: id }));
        if (r.error || !r.value) S.fail("a question is answered");
        if (db.failing) { S.reach("failed"); S.assert(r.value.status === 500, "a failure is answered with 500"); return; }
        if (!S.decide(S.eq(id, "V1"))) { S.reach("none such"); S.assert(r.value.status === 404, "an unknown one is not found"); return; }
        S.reach("one");
        const x = body(r);
        S.assert(r.value.status === 200 && x.visitId === "V1" && x.vesselName === "Aurora" && x.status === "Arrived" && x.ata === iso(NOW + 2 * H) && x.atd === undefined && x.updateTime === iso(NOW - 1000), "the one asked for");
        S.assert(r.value.timestamp === new Date(NOW - 1000).toUTCString(), "with its time");
        return;
      }
      const e = {};
      let bad = false, keep = () => true, order;
      const time = S.choose("limit", [-6, -2, 0, 3]), later = asks === "both times" ? S.choose("length", [0, 4]) : 0;
      const within = (lo, hi) => (x) => [x.eta, x.etd, x.ata, x.atd].some((t) => t !== null && (lo === null || S.decide(t.getTime() >= lo)) && (hi === null || S.decide(t.getTime() < hi)));
      const text = (h) => iso(NOW + h * H);
      if (asks === "from" || asks === "both times") e.fromDateTime = text(time);
      if (asks === "to") e.toDateTime = text(time);
      if (asks === "both times") e.toDateTime = text(time + later);
      if (asks === "from") keep = within(NOW + time * H, null);
      if (asks === "to") keep = within(null, NOW + time * H);
      if (asks === "both times") keep = within(NOW + time * H, NOW + (time + later) * H);
      if (asks === "nothing" && S.bool("empty")) { e.fromDateTime = ""; e.toDateTime = ""; e.imo = ""; }
      if (asks === "port") { const p = S.choose("port", ["FIHEL", "fiktk", "XX", ""]); e.portOfCall = p; bad = p === ""; keep = (x) => x.port_locode === p.toUpperCase(); }
      if (asks === "name") { const p = S.str("name", [0, 3], "aurN"); e.vesselName = p; bad = S.decide(S.eq(p.length, 0)); keep = (x) => S.decide(x.vessel_name.toLowerCase().includes(p.toLowerCase())); }
      if (asks === "imo") { const p = S.choose("imo", ["x", "1000001", "9"]); e.imo = p; bad = p === "x"; rows[0].vessel_id = "1000001"; keep = (x) => x.vessel_id === p; }
      if (asks === "status") { const p = S.choose("status", ["arrived", "Departed", "CANCELLED", "expected-to-arrive", "gone", "", "Expected to Arrive"]); e.status = p; const s = { arrived: "Arrived", departed: "Departed", cancelled: "Cancelled", "expected-to-arrive": "Expected to Arrive" }[p.toLowerCase()]; bad = s === undefined; keep = (x) => x.status === s; }
      if (asks === "sort") { const f = S.choose("field", ["eta", "etd", "ata", "atd", "vesselName", "portOfCall", "status", "imo", ""]), d = S.choose("direction", ["asc", "desc", "ASC", "none", "more"]); e.sort = d === "none" ? f : d === "more" ? f + ":asc:asc" : f + ":" + d; bad = !["eta", "etd", "ata", "atd", "vesselName", "portOfCall", "status"].includes(f) || !["asc", "desc"].includes(d); order = { c: { vesselName: "vessel_name", portOfCall: "port_locode" }[f] ?? f, d }; }
      if (asks === "other") { const p = S.choose("what", ["unknown", "bad from", "bad to"]); Object.assign(e, { unknown: { x: "1" }, "bad from": { fromDateTime: "then" }, "bad to": { toDateTime: "then" } }[p]); bad = true; }
      const { handler } = S.load(M + "port-call/src/lambda/get-visits/get-visits.ts");
      const r = await S.settle(() => handler(e));
      if (r.error || !r.value) S.fail("a question is answered");
      if (bad) { S.reach("bad"); S.assert(r.value.status === 400, "a bad question is refused"); return; }
      if (fail !== "nothing") { S.reach("failed"); S.assert(r.value.status === 500, "a failure is answered with 500"); return; }
      S.assert(r.value.status === 200, "a good question is answered");
      const got = body(r);
      if (!Array.isArray(got)) S.fail("with a list");
      const want = rows.filter((x) => x.visit_id !== "V3" && keep(x));
      S.assert(got.length === want.length && want.every((x) => got.some((y) => y.visitId === x.visit_id)), "exactly the ones asked for");
      S.reach("answered");
      if (asks === "both times" && want.length) S.reach("within times");
      for (const y of got) { const x = rows.find((q) => q.visit_id === y.visitId); const t = (v) => (v === null ? undefined : v.toISOString()); S.assert(y.vesselId === x.vessel_id && y.vesselName === x.vessel_name && y.portOfCall === x.port_locode && y.status === x.status && S.decide(S.and(S.eq(y.eta, t(x.eta)), S.eq(y.etd, t(x.etd)), S.eq(y.ata, t(x.ata)), S.eq(y.atd, t(x.atd)), S.eq(y.updateTime, t(x.update_time)))), "each with its contents"); }
      // in order: what has no value is last
      const key = order ? (x) => x[order.c] : (x) => x.ata ?? x.eta;
      for (let i = 1; i < got.length; i++) {
        const a = key(rows.find((q) => q.visit_id === got[i - 1].visitId)), b = key(rows.find((q) => q.visit_id === got[i].visitId));
        if (a === null) { S.assert(b === null, "what has no value is last"); continue; }
        if (b === null) continue;
        const p = ms(S, a), q = ms(S, b);
        S.assert(order && order.d === "desc" ? S.decide(p >= q) : S.decide(p <= q), "in the order asked for");
        if (order) S.reach("sorted");
      }
    },
  },
};
