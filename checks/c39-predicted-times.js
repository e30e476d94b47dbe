import { quiet, connections } from "./_util.js";
import { database, sessions } from "./_sql.js";
const P = "marine/portactivity/src/";
export const property = {
  id: "C39",
  title: "Predictions, schedules and pilotages become times of the right port calls",
  statement: "Every usable prediction, traffic centre schedule, observed visit and pilotage that is received becomes exactly one time of the right kind, ship, port and port call, berth arrivals of the ports that need them as well, and nothing else does: what is missing, too near, past, elsewhere or our own echo is left out without losing what came with it. A ship, port or service that cannot be asked leaves the others' times, a token is reused only while it is safely valid, and a pilotage is told when it is new or changed and its times are withdrawn when it is gone, a failed run being made up for by the next.",
  quantifier: { over: ["inputs", "fault_sequences", "histories"], text: "any time of asking within hours of the limits, any combination of the sorts of predictions, places and sources, any numbers of port calls and ships, any request or statement failing in a history of two runs" },
  why_tests_cant: "The tests replace every service by one good answer, need a database for pilotages, and never ask at the limits or fail in the middle.",
  anchors: {
    files: [P + "service/awake-ai-eta-ship.ts", P + "service/awake-ai-eta-port.ts", P + "service/awake-ai-etd-port.ts", P + "service/awake-ai-etx-helper.ts", P + "service/awake-ai-atx.ts", P + "service/schedules.ts", P + "service/pilotweb.ts", P + "api", P + "lambda"],
    mechanism: [{ name: "AwakeAiETAShipService.getAwakeAiTimestamps", where: P + "service/awake-ai-eta-ship.ts" }, { name: "AwakeAiETAPortService.getAwakeAiTimestamps", where: P + "service/awake-ai-eta-port.ts" }, { name: "AwakeAiETDPortService.getAwakeAiTimestamps", where: P + "service/awake-ai-etd-port.ts" }, { name: "SchedulesService", where: P + "service/schedules.ts" }, { name: "getMessagesFromPilotweb", where: P + "service/pilotweb.ts" }, { name: "AwakeAiATXService.getATXs", where: P + "service/awake-ai-atx.ts" }, { name: "OAuthTokenApi.getOAuthToken", where: P + "api/oauth-token-api.ts" }],
    observe_at: "requests made, times returned, messages sent and rows of a small database",
  },
  assumptions: ["times and port call names that are given are well-formed", "a prediction for another domestic port than the ship's within a day of its arrival is not decided", "sending to the queue succeeds"],
};
const SECRET = { oAuthTokenEndpoint: "https://auth", oAuthClientId: "me", oAuthClientSecret: "hush", voyagesurl: "https://voyages", atxurl: "wss://atx", url: "https://schedules", auth: "AUTH" };
const copy = (x) => (Array.isArray(x) ? x.map(copy) : x && typeof x === "object" && Object.getPrototypeOf(x) === Object.prototype ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, copy(v)])) : x);
function services(S, w) {
  quiet(S);
  connections(S);
  Object.assign(w, { asked: [], sent: [], posted: [] });
  class HTTPError extends Error { constructor(status) { super("status " + status); if (status !== "none") this.response = { status }; } }
  w.HTTPError = HTTPError;
  const get = async (url, o) => { await null; w.asked.push([url, o]); const a = w.get(url, o); if (a instanceof Error) throw a; return a; };
  S.stub("ky", { __esModule: true, HTTPError, default: {
    get: (url, o) => { const p = get(url, o); return Object.assign(p.then((a) => ({ json: async () => a })), { json: () => p, text: () => p }); },
    post: async (url, o) => { await null; w.posted.push([url, o]); const a = w.post ? w.post() : { token_type: "Bearer", expires_in: 3600, access_token: "T" }; if (a instanceof Error) throw a; return { json: async () => a }; },
  } });
  S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: { create: () => ({ get: async () => { await null; return SECRET; } }) } });
  S.stub("@aws-sdk/client-sqs", { SQSClient: class { async send(c) { await null; w.sent.push(c.input); } }, SendMessageCommand: class { constructor(input) { this.input = input; } } });
  Object.assign(S.world.process.env, { SQS_QUEUE_URL: "queue", ENABLE_ETB: "false", PUBLISH_TOPIC_ARN: "topic", SECRET_ID: "sid" });
  return w;
}
// one of the times has exactly these fields
const FIELDS = ["eventType", "eventTime", "recordTime", "source", "sourceId", "portcallId", "eventTimeConfidenceLowerDiff", "eventTimeConfidenceUpperDiff"];
const PLACE = ["port", "portArea", "from", "berth", "terminal", "berthPosition"];
const isTime = (S, t, x) => !!t && typeof t === "object" && !!t.ship && !!t.location && S.and(...FIELDS.map((f) => S.eq(t[f], x[f])), S.eq(t.ship.mmsi, x.ship.mmsi), S.eq(t.ship.imo, x.ship.imo), ...PLACE.map((f) => S.eq(t.location[f], x.location[f])));
function sameTimes(S, got, want, tag) {
  if (!Array.isArray(got)) S.fail("times are given: " + tag);
  S.assert(got.length === want.length, "as many times as there should be: " + tag);
  const left = [...got];
  for (const x of want) {
    const at = left.findIndex((t) => S.decide(isTime(S, t, x)));
    if (at < 0) S.fail(`a time is right: ${tag} (${x.eventType})`);
    left.splice(at, 1);
  }
}
const T0 = 1714550400000, H = 3600000;
const iso = (ms) => new Date(ms).toISOString();
const DT = "urn:awake:digitraffic-portcall:1234567", OWN = "urn:awake:model:12";
const bearer = (S, o) => S.assert(o && o.headers && o.headers.Authorization === "Bearer T", "asked with the token");
const ETP = ["FIRAU", "FIKOK", "FIKAS", "FIPOR", "FIUKI", "FIHKO", "FIRAA", "FIKEM", "FIPRS"];
const OVERRIDDEN = ["FIHEL", "FIPOR", "FIHKO"];
export const harnesses = {
  ships: {
    bounds: "two ships to 5 ports, asked at any time from 30 hours before to 1 hour after the first's arrival; predictions of any sort, zone, port and source, any part missing; answers refused, failing once or twice",
    reach: ["arrival", "boarding", "berth copy", "destination told", "destination not told", "elsewhere", "echo", "not usable", "answer lost", "asked again", "overridden", "refused"],
    budgetMs: 300000,
    async run(S) {
      const w = services(S, {});
      const aspect = S.choose("aspect", ["place", "contents", "voyage", "answer"]);
      const locode = S.choose("locode", aspect === "place" ? ["FIRAU", "FIHEL", "FIPOR", "FIKTK", "FIKOK"] : ["FIRAU", "FIKTK"]);
      const all = aspect === "place" ? S.bool("everywhere") : false;
      const predicted = aspect === "place" ? S.choose("predicted", ["same", "FIHKO", "SEGOT", "EEFIX"]) : "same";
      const zone = aspect === "place" || aspect === "contents" ? S.choose("zone", ["berth", "pbp", "portarea"]) : "berth";
      const lacking = aspect === "contents" ? S.choose("lacking", ["nothing", "arrival", "record", "metadata", "quantiles", "locode"]) : "nothing";
      const source = aspect === "contents" ? S.choose("source", [OWN, DT]) : OWN;
      const voyage = aspect === "voyage" ? S.choose("voyage", ["underway", "none", "stopped", "not-started", "not-predictable", "ship-data-not-updated", "second only", "no schedule"]) : "underway";
      const answer = aspect === "answer" ? S.choose("answer", [404, 422, 500, 503, "none", "once", "twice"]) : "ok";
      const eta = T0 + 48 * H;
      const now = S.int("now", eta - 30 * H, eta + H);
      S.world.time = now;
      const mmsi = S.int("mmsi", 1, 9), portcall = S.int("portcall", 1, 9), q10 = S.int("q10", -900, 0), q90 = S.int("q90", 0, 900);
      const arrivalTime = "2024-05-03T01:02:03Z", recordTime = "2024-05-01T00:00:00Z";
      const at = predicted === "same" ? locode : predicted;
      const metadata = lacking === "metadata" ? undefined : { source, ...(lacking !== "quantiles" && { errorQuantiles: { q10, q25: -1, q75: 1, q90 } }) };
      const main = { predictionType: "eta", zoneType: zone, ...(lacking !== "locode" && { locode: at }), ...(lacking !== "arrival" && { arrivalTime }), ...(lacking !== "record" && { recordTime }), ...(metadata && { metadata }) };
      const other = (predictionType) => ({ predictionType, zoneType: "berth", locode, arrivalTime, departureTime: arrivalTime, recordTime, metadata: { source: OWN } });
      const status = ["none", "not-predictable", "ship-data-not-updated", "second only", "no schedule"].includes(voyage) ? "underway" : voyage;
      const first = { voyageStatus: status, sequenceNo: 0, predictions: [other("etd"), main, other("travel-time"), other("destination")] };
      const later = { voyageStatus: "underway", sequenceNo: 1, predictions: [other("eta")] };
      const schedule = { ship: { mmsi, imo: 1001 }, predictability: voyage.includes("-") && voyage !== "not-started" ? voyage : "predictable", predictedVoyages: voyage === "none" ? [] : voyage === "second only" ? [{ ...first, voyageStatus: "stopped" }, later] : [first, later] };
      const plain = { ship: { mmsi: 52, imo: 1002 }, predictability: "predictable", predictedVoyages: [{ voyageStatus: "underway", sequenceNo: 0, predictions: [{ predictionType: "eta", zoneType: "berth", locode: "FIKTK", arrivalTime, recordTime, metadata: { source: OWN } }] }] };
      let tries = 0;
      w.get = (url, o) => {
        bearer(S, o);
        if (S.decide(url.startsWith("https://voyages/ship/1002"))) return plain;
        tries++;
        if (answer === "twice" || (answer === "once" && tries === 1)) return new Error("no answer");
        if (answer !== "ok" && answer !== "once") return new w.HTTPError(answer);
        return voyage === "no schedule" ? undefined : schedule;
      };
      const { AwakeAiETAShipService } = S.load(P + "service/awake-ai-eta-ship.ts");
      const { AwakeAiETAShipApi } = S.load(P + "api/awake-ai-ship.ts");
      const { OAuthTokenApi } = S.load(P + "api/oauth-token-api.ts");
      const service = new AwakeAiETAShipService(new AwakeAiETAShipApi("https://voyages"), new OAuthTokenApi(SECRET), all);
      const r = await S.settle(() => service.getAwakeAiTimestamps([
        { imo: 1001, locode, port_area_code: "AREA1", portcall_id: portcall, eta: new S.world.Date(eta) },
        { imo: 1002, locode: "FIKTK", port_area_code: "AREA2", portcall_id: 88, eta: new S.world.Date(T0 + 480 * H) },
      ]));
      if (r.error) S.fail("the ships are asked about");
      const near = S.decide(eta - now < 24 * H);
      S.reach(near ? "destination told" : "destination not told");
      const about = w.asked.filter(([u]) => u.startsWith("https://voyages/ship/1001"));
      S.assert(about.every(([u]) => u === "https://voyages/ship/1001?predictionMetadata=true" + (near ? "&destination=" + locode : "")), "the destination is told within a day of arrival");
      S.assert(w.asked.some(([u]) => u === "https://voyages/ship/1002?predictionMetadata=true"), "the other ship is asked about");
      const time = (ship, imo, port, portArea, portcallId, eventType, record, lo, hi) => ({ eventType, eventTime: arrivalTime, recordTime: record, source: "Awake.AI", portcallId, ship: { mmsi: ship, imo }, location: { port, portArea }, eventTimeConfidenceLowerDiff: lo, eventTimeConfidenceUpperDiff: hi });
      const want = [time(52, 1002, "FIKTK", "AREA2", 88, "ETA", recordTime)];
      if (all) want.push({ ...want[0], eventType: "ETB" });
      const undecided = predicted !== "same" && near && at.startsWith("FI") && !OVERRIDDEN.includes(locode);
      if (undecided) return;
      const heard = answer === "ok" || answer === "once";
      if (answer === "once") { S.reach("asked again"); S.assert(about.length === 2, "it is asked once again"); }
      if (answer === "twice") { S.reach("answer lost"); S.assert(about.length === 2, "it is asked twice"); }
      if (typeof answer === "number" || answer === "none") { S.reach("refused"); S.assert(about.length === 1, "a refusal is an answer"); }
      const usable = heard && lacking !== "arrival" && lacking !== "locode" && (source === OWN || lacking === "metadata") && ["underway"].includes(voyage);
      if (heard && !usable) S.reach(source === DT ? "echo" : "not usable");
      let kept = usable;
      if (usable && predicted !== "same" && (!near || !at.startsWith("FI"))) { kept = false; S.reach("elsewhere"); }
      if (kept && predicted !== "same") S.reach("overridden");
      if (kept && zone === "pbp" && !ETP.includes(locode)) kept = false;
      if (kept) {
        S.reach(zone === "pbp" ? "boarding" : "arrival");
        const q = lacking !== "metadata" && lacking !== "quantiles";
        const t = time(mmsi, 1001, locode, "AREA1", portcall, zone === "pbp" ? "ETP" : "ETA", lacking === "record" ? new S.world.Date(now).toISOString() : recordTime, q ? q10 : undefined, q ? q90 : undefined);
        want.push(t);
        if (zone !== "pbp" && (all || locode === "FIRAU")) { want.push({ ...t, eventType: "ETB" }); S.reach("berth copy"); }
      }
      sameTimes(S, r.value, want, "ships");
    },
  },
  ports: {
    bounds: "arrivals and departures of a port, two voyages, asked at any time within 2 hours of the limit; predictions of any sort, zone, country and source, any part missing; refused answers",
    reach: ["arrival", "departure", "too near", "past", "not usable", "refused", "port call named"],
    budgetMs: 200000,
    async run(S) {
      const w = services(S, {});
      const arriving = S.bool("arriving"), what = arriving ? "eta" : "etd";
      const time = T0 + 60 * H, limit = arriving ? time - 24 * H : time;
      const now = S.int("now", limit - 2 * H, limit + 2 * H);
      S.world.time = now;
      const answer = S.choose("answer", ["ok", 404, 422, 500, 502, "none"]);
      const fault = answer === "ok" ? S.choose("fault", ["nothing", "time", "record", "metadata", "locode", "abroad", "stopped", "other sort", "other zone", "echo", "not-started"]) : "nothing";
      const named = arriving && answer === "ok" ? S.bool("port call named") : false;
      const mmsi = S.int("mmsi", 1, 9), q10 = S.int("q10", -900, 0), q90 = S.int("q90", 0, 900);
      const key = arriving ? "arrivalTime" : "departureTime", eventTime = iso(time), recordTime = "2024-05-01T00:00:00Z";
      const main = { predictionType: fault === "other sort" ? (arriving ? "etd" : "eta") : what, zoneType: fault === "other zone" ? S.choose("zone", ["pbp", "anchorage", "vts", "portarea"]) : "berth", ...(fault !== "locode" && { locode: fault === "abroad" ? "SEGOT" : "FIOUL" }), ...(fault !== "time" && { [key]: eventTime }), ...(fault !== "record" && { recordTime }), ...(fault !== "metadata" && { metadata: { source: fault === "echo" ? DT : OWN, errorQuantiles: { q10, q90 } } }) };
      const call = { predictionType: "arrival-port-call", portCallId: "x", portCallUrn: DT, portCallLocode: "FIOUL", recordTime };
      const far = iso(T0 + 600 * H);
      const plain = { ship: { mmsi: 52, imo: 1002 }, voyage: { voyageStatus: "underway", sequenceNo: 0, predictions: [{ predictionType: what, zoneType: "berth", locode: "FIOUL", [key]: far, recordTime, metadata: { source: OWN } }] } };
      w.get = (url, o) => {
        bearer(S, o);
        const [, path, query] = /^https:\/\/voyages\/(.*)\?(.*)$/.exec(url) ?? [];
        S.assert(path === `port/FIOUL/${arriving ? "arrivals" : "departures"}`, "the right port is asked about");
        const parts = query.split("&");
        S.assert(parts.includes("predictionType=" + what) && parts.includes("predictionType=arrival-port-call") && parts.includes("predictionMetadata=true"), "the right predictions are asked for");
        if (answer !== "ok") return new w.HTTPError(answer);
        return [{ ship: { mmsi, imo: 1001 }, voyage: { voyageStatus: fault === "stopped" ? "stopped" : fault === "not-started" ? "not-started" : "underway", sequenceNo: 0, predictions: [...(named ? [call] : []), main] } }, plain];
      };
      const { AwakeAiPortApi } = S.load(P + "api/awake-ai-port.ts");
      const { OAuthTokenApi } = S.load(P + "api/oauth-token-api.ts");
      const { [arriving ? "AwakeAiETAPortService" : "AwakeAiETDPortService"]: Service } = S.load(P + `service/awake-ai-${what}-port.ts`);
      const r = await S.settle(() => new Service(new AwakeAiPortApi("https://voyages"), new OAuthTokenApi(SECRET)).getAwakeAiTimestamps("FIOUL"));
      if (r.error) S.fail("the port's predictions are gone through");
      const t = (ship, imo, eventTime, record, portcallId, lo, hi) => ({ eventType: arriving ? "ETA" : "ETD", eventTime, recordTime: record, source: "Awake.AI Pred", portcallId, ship: { mmsi: ship, imo }, location: { port: "FIOUL" }, eventTimeConfidenceLowerDiff: lo, eventTimeConfidenceUpperDiff: hi });
      const want = [];
      if (answer !== "ok") S.reach("refused");
      else {
        want.push(t(52, 1002, far, recordTime));
        let kept = ["nothing", "record", "metadata", "not-started"].includes(fault);
        if (!kept) S.reach("not usable");
        if (kept && S.decide(now > limit)) { kept = false; S.reach(arriving ? "too near" : "past"); }
        if (kept) {
          S.reach(arriving ? "arrival" : "departure");
          if (named) S.reach("port call named");
          want.push(t(mmsi, 1001, eventTime, fault === "record" ? new S.world.Date(now).toISOString() : recordTime, named ? 1234567 : undefined, fault === "metadata" ? undefined : q10, fault === "metadata" ? undefined : q90));
        }
      }
      sameTimes(S, r.value, want, "ports");
    },
  },
  token: {
    bounds: "three uses at any times within 2.5 hours, tokens valid for 0..7200 seconds, any part missing, any request failing",
    reach: ["reused", "renewed", "refused", "incomplete"],
    async run(S) {
      const w = services(S, {});
      const { OAuthTokenApi } = S.load(P + "api/oauth-token-api.ts");
      const api = new OAuthTokenApi(SECRET);
      let n = 0, held, now = T0;
      const kind = [0, 1, 2].map((i) => S.choose("answer" + i, i === 2 ? ["ok"] : ["ok", "fails", "no token", "no type"]));
      const valid = [0, 1, 2].map((i) => S.int("valid" + i, 0, 7200));
      w.post = () => {
        const i = n++;
        if (kind[i] === "fails") return i ? new w.HTTPError(401) : new Error("no answer");
        return { expires_in: valid[i], ...(kind[i] !== "no type" && { token_type: "Bearer" }), ...(kind[i] !== "no token" && { access_token: "T" + i }) };
      };
      for (let use = 0; use < 3; use++) {
        if (use) now = now + S.int("pause" + use, 0, 9000000);
        S.world.time = now;
        const before = n;
        const r = await S.settle(() => api.getOAuthToken());
        if (held && S.decide(now < held.until)) {
          S.assert(n === before && r.value?.access_token === held.token, "a valid token is used");
          S.reach("reused");
          continue;
        }
        S.assert(n === before + 1, "a token that may run out is not used");
        const i = before;
        const [url, o] = w.posted[i];
        S.assert(url === "https://auth" && o.body === "client_id=me&client_secret=hush&grant_type=client_credentials", "a token is asked for as the service itself");
        const ok = kind[i] === "ok" && S.decide(valid[i] > 0);
        S.assert((r.error === undefined) === ok, "a token or a failure");
        held = undefined;
        if (!ok) { S.reach(kind[i] === "fails" ? "refused" : "incomplete"); continue; }
        S.assert(r.value.access_token === "T" + i, "the new token is used");
        held = { token: "T" + i, until: now + valid[i] * 1000 - 180000 };
        if (use) S.reach("renewed");
      }
    },
  },
  schedules: {
    bounds: "one or two schedules from one direction and one or none from the other, controlled and calculated, any part missing, asked within 10 minutes of a departure's limit",
    reach: ["arrival", "departure", "berth copy", "other port", "gone", "empty", "no destination"],
    budgetMs: 200000,
    async run(S) {
      const w = services(S, {});
      const flag = S.choose("everywhere", ["false", "TRUE"]);
      S.world.process.env.ENABLE_ETB = flag;
      const time = T0 + 5 * H, limit = time + 300000;
      const now = S.int("now", limit - 600000, limit + 600000);
      S.world.time = now;
      const where = S.choose("in", ["east", "west/calculated", "east/calculated"]);
      const kind = S.choose("kind", ["eta", "etd", "both", "neither", "no destination", "no timetable"]);
      const port = S.choose("port", ["FIRAU", "FIKTK", "FIXXX"]);
      const beside = S.choose("beside", ["nothing", "empty elsewhere", "another after", "another before"]);
      const stamp = (ms, uts) => [{ $: { time: iso(ms), uts: iso(uts) } }];
      const one = { $: { UUID: "u" }, vessel: [{ $: { vesselName: "A", callsign: "B", mmsi: "230001", imo: "9001" } }], timetable: kind === "no timetable" ? [] : [{ ...(kind !== "no destination" && { destination: [{ $: { locode: port, destination: "P" } }] }), ...(["eta", "both", "no destination"].includes(kind) && { eta: stamp(time, T0) }), ...(["etd", "both"].includes(kind) && { etd: stamp(time, T0 + 1000) }) }] };
      const another = { $: { UUID: "v" }, vessel: [{ $: { vesselName: "C", callsign: "D", mmsi: "230002", imo: "9002" } }], timetable: [{ destination: [{ $: { locode: "FIHKO" } }], eta: stamp(time + H, T0) }] };
      const elsewhere = beside === "empty elsewhere" ? "" : { schedule: [another] };
      const docs = Object.fromEntries(["east", "west", "east/calculated", "west/calculated"].map((d) => ["https://schedules/" + d, { schedules: d === where ? { schedule: beside === "another after" ? [one, another] : beside === "another before" ? [another, one] : [one] } : elsewhere }]));
      w.get = (url) => { if (!Object.hasOwn(docs, url)) S.fail("only the schedules are asked for"); return url; };
      S.stub("xml2js", { parseString: (text, done) => { done(null, docs[text]); } });
      S.stub("node:util", { promisify: (f) => (x) => new Promise((ok, no) => f(x, (e, v) => (e ? no(e) : ok(v)))) });
      const { handler } = S.load(P + "lambda/update-timestamps-from-schedules/lambda-update-timestamps-from-schedules.ts");
      const r = await S.settle(() => handler());
      if (r.error) S.fail("the schedules are gone through");
      const t = (v, eventType, ms, uts, calc, p) => ({ eventType, eventTime: iso(ms), recordTime: iso(uts), source: calc ? "SCHEDULES_CALCULATED" : "SCHEDULES_VTS_CONTROLLED", ship: { mmsi: 230000 + v, imo: 9000 + v }, location: { port: p } });
      const want = [];
      const all = flag === "TRUE";
      const arrival = (v, ms, calc, p) => { if (p === "FIXXX") { S.reach("other port"); return; } S.reach("arrival"); want.push(t(v, "ETA", ms, T0, calc, p)); if (calc && (all || p === "FIRAU")) { S.reach("berth copy"); want.push(t(v, "ETB", ms, T0, calc, p)); } };
      for (const d of ["east", "west", "east/calculated", "west/calculated"]) {
        const calc = d.endsWith("calculated");
        if (d !== where) { if (beside !== "empty elsewhere") arrival(2, time + H, calc, "FIHKO"); else S.reach("empty"); continue; }
        if (kind === "eta" || kind === "both") arrival(1, time, calc, port);
        if ((kind === "etd" || kind === "both") && port !== "FIXXX") {
          if (S.decide(now <= limit)) { S.reach("departure"); want.push(t(1, "ETD", time, T0 + 1000, calc, port)); } else S.reach("gone");
        }
        if (kind === "no destination" || kind === "no timetable") S.reach("no destination");
        if (beside.startsWith("another")) arrival(2, time + H, calc, "FIHKO");
      }
      S.assert(w.asked.length === 4, "each list is asked for once");
      S.assert(w.sent.every((m) => m.QueueUrl === "queue"), "times are sent on");
      sameTimes(S, w.sent.map((m) => JSON.parse(m.MessageBody)), want, "schedules");
    },
  },
  pilotages: {
    bounds: "two pilotages of any state, known and unchanged, known and changed, or new, one gone; symbolic port calls given, found at either end or not; any boarding time; any statement failing, then run again",
    reach: ["told", "unchanged", "withdrawn", "no port call", "failed", "made up for", "finished before known"],
    budgetMs: 300000,
    async run(S) {
      const w = services(S, {});
      const aspect = S.choose("aspect", ["times", "port calls", "failures"]);
      const ETA1 = "2024-05-02T10:00:00.000Z", LATER = "2024-05-02T11:00:00.000Z", EARLIER = "2024-05-02T09:00:00.000Z", END = "2024-05-02T13:00:00.000Z", U1 = "2024-05-01T08:00:00.000Z", U2 = "2024-05-01T09:00:00.000Z";
      const state = S.choose("state", aspect === "times" ? ["ESTIMATE", "NOTICE", "ORDER", "ACTIVE", "FINISHED", "CANCELLED"] : aspect === "failures" ? ["ORDER", "FINISHED"] : ["ACTIVE"]);
      const known = S.choose("known", aspect === "port calls" ? ["new"] : ["new", "same", "changed"]);
      const boarding = aspect === "times" ? S.choose("boarding", [undefined, EARLIER, LATER]) : LATER;
      const given = aspect === "port calls" ? S.bool("port call given") : aspect === "times";
      const route = aspect === "port calls" ? S.choose("route", [["FIHEL", "FIHKO"], ["FIHKO", "FIHKO"], ["FIKHA", "FILPP"], ["FIVUH", "FIOUL"]]) : ["FIHEL", "FIKEA"];
      const MAP = { FIKHA: "FIKTK", FILPP: "FINUI", FIVUH: "FIHEL", FIKEA: "FIKEM" };
      const [from, to] = route.map((c) => MAP[c] ?? c);
      const berth = aspect === "times" ? S.choose("berth", [undefined, "B1"]) : undefined;
      const found = { [to]: given ? undefined : aspect === "failures" || S.bool("found at the end") ? S.int("end call", 1, 99) : undefined };
      if (from !== to) found[from] = given || aspect === "failures" ? undefined : S.bool("found at the start") ? S.int("start call", 1, 99) : undefined;
      const gone = aspect === "failures" ? S.bool("one gone") : false;
      const pilotage = { id: 1, state, vessel: { name: "A", ...(aspect === "port calls" && S.bool("no mmsi") ? {} : { mmsi: 230001 }), imo: 9001 }, route: { start: { code: route[0] }, end: { code: route[1], ...(berth && { berth: { code: berth } }) } }, vesselEta: ETA1, ...(boarding && { pilotBoardingTime: boarding }), endTime: END, scheduleSource: "x", scheduleUpdated: U2, ...(given && { portnetPortCallId: 4711 }) };
      const second = { id: 2, state: "NOTICE", vessel: { name: "B", mmsi: 230002, imo: 9002 }, route: { start: { code: "FIOUL" }, end: { code: "FIKEM" } }, vesselEta: ETA1, endTime: END, scheduleSource: "x", scheduleUpdated: U2, portnetPortCallId: 4712 };
      const PCOLS = ["id", "vessel_imo", "vessel_mmsi", "vessel_eta", "pilot_boarding_time", "pilotage_end_time", "schedule_updated", "schedule_source", "state", "vessel_name", "start_code", "start_berth", "end_code", "end_berth"];
      const old = (id, state, updated) => ({ ...Object.fromEntries(PCOLS.map((c) => [c, null])), id, state, schedule_updated: new S.world.Date(updated) });
      const tables = {
        pilotage: { cols: PCOLS, unique: [["id"]], rows: [...(known !== "new" ? [old(1, "ESTIMATE", known === "same" ? U2 : U1)] : []), ...(gone ? [old(3, "ORDER", U1)] : []), old(9, "FINISHED", U1)] },
        port_call_timestamp: { cols: ["id", "event_source", "source_id"], unique: [], rows: [{ id: 1, event_source: "Pilotweb", source_id: "3" }, { id: 2, event_source: "Pilotweb", source_id: "1" }, { id: 3, event_source: "Other", source_id: "3" }, { id: 4, event_source: "Pilotweb", source_id: "9" }] },
      };
      const asked = [];
      const answers = (text, params) => {
        if (/imo_lloyds/.test(text) && /port_to_visit/.test(text)) { asked.push(params); if (params[1] !== 9001) return []; const v = found[params[2]]; return v === undefined ? [] : [{ port_call_id: v }]; }
      };
      const db = sessions(S, database(S, tables, { answers }));
      const feed = JSON.stringify([pilotage, second]);
      let unreachable = false;
      S.stub("node:https", { request: (o, cb) => {
        const on = {};
        const request = { on: (e, f) => { on[e] = f; return request; }, end: () => {
          S.assert(o.host === "host" && o.path === "/digitraffic/pilotages/active" && o.method === "GET" && o.headers.Authorization === "Basic AUTH", "pilotages are asked for");
          setTimeout(() => {
            if (unreachable) { if (!on.error) S.fail("a connection that fails is dealt with"); on.error(new Error("no connection")); return; }
            const res = {};
            cb({ on: (e, f) => { res[e] = f; } });
            const cut = 40;
            res.data(feed.slice(0, cut)); res.data(feed.slice(cut)); res.end();
          }, 1);
          return request;
        } };
        return request;
      } });
      const { getMessagesFromPilotweb } = S.load(P + "service/pilotweb.ts");
      const run = () => S.settle(() => getMessagesFromPilotweb("host", "AUTH"));
      const time = (p, eventType, eventTime, pid, location) => ({ eventType, eventTime, recordTime: U2, source: "Pilotweb", sourceId: String(p.id), ship: { mmsi: p.vessel.mmsi, imo: p.vessel.imo }, location, portcallId: pid });
      const want = [time(second, "RPS", ETA1, 4712, { port: "FIKEM", from: "FIOUL" })];
      const tells = known === "changed" || (known === "new" && state !== "FINISHED");
      const latest = boarding === LATER ? LATER : ETA1;
      const [type, at] = { ESTIMATE: ["RPS", latest], NOTICE: ["RPS", latest], ORDER: ["PPS", latest], ACTIVE: ["APS", ETA1], FINISHED: ["APC", END], CANCELLED: [] }[state];
      const pid = given ? 4711 : from !== to && found[from] !== undefined ? found[from] : found[to];
      if (tells && type && pid !== undefined) { want.push(time(pilotage, type, at, pid, { port: to, from, berth })); S.reach("told"); }
      else if (tells && type) S.reach("no port call");
      if (known === "same") S.reach("unchanged");
      if (known === "new" && state === "FINISHED") S.reach("finished before known");
      const goneNow = () => {
        const p = db.tables.pilotage.rows, t = db.tables.port_call_timestamp.rows;
        const ids = p.map((r) => r.id).sort().join();
        S.assert(ids === [...(known === "new" && state === "FINISHED" ? [] : [1]), 2, 9].join(), "the known pilotages are the reported ones");
        S.assert(t.map((r) => r.id).sort().join() === (gone ? "2,3,4" : "1,2,3,4"), "the times of those that are gone, and only theirs, are withdrawn");
        if (gone) S.reach("withdrawn");
        const row = p.find((r) => r.id === 1);
        if (row && known !== "same") S.assert(row.state === state && row.vessel_name === "A" && S.eq(row.vessel_imo, 9001) && row.start_code === route[0] && row.end_code === route[1] && (row.schedule_updated instanceof S.world.Date ? row.schedule_updated.toISOString() : row.schedule_updated) === U2 && row.vessel_eta === ETA1 && row.pilotage_end_time === END && (row.pilot_boarding_time ?? undefined) === boarding && (row.end_berth ?? undefined) === berth, "what is known is what was reported");
      };
      if (aspect !== "failures") {
        const r = await run();
        if (r.error) S.fail("the pilotages are gone through");
        sameTimes(S, r.value, want, "pilotages");
        goneNow();
        if (!given) S.assert(asked.every((a) => S.decide(S.eq(a[0], pilotage.vessel.mmsi)) && a[1] === 9001), "the port call of the ship is looked for");
        return;
      }
      const fail = S.choose("failing", ["connection", ...Array.from({ length: 11 }, (_, i) => i)]);
      if (fail === "connection") unreachable = true; else { let n = 0; db.failing = () => n++ === fail; }
      const first = await run();
      if (first.error) {
        S.reach("failed");
        unreachable = false;
        db.failing = undefined;
        const again = await run();
        if (again.error) S.fail("the next run goes through");
        sameTimes(S, again.value, want, "the next run");
        S.reach("made up for");
      } else sameTimes(S, first.value, want, "one run");
      goneNow();
    },
  },
  visits: {
    bounds: "a new, kept, refused or replaced subscription; two events of any zone and direction, symbolic ships, with no, one or two ports, port call found or not; the parameter store failing; the connection failing",
    reach: ["resumed", "new subscription", "refused", "arrived", "departed", "no port call", "connection failed"],
    async run(S) {
      const w = services(S, {});
      let stored = S.choose("stored", [undefined, "NONE", "s1", "unreadable"]);
      const puts = [];
      const putFails = S.bool("storing fails");
      S.stub("@aws-sdk/client-ssm", { SSMClient: class { async send(c) { await null; if (c.put) { puts.push(c.input); if (putFails) throw new Error("no parameters"); return {}; } if (c.input.Name !== "AWAKE_ATX_SUBSCRIPTION_ID") S.fail("the right parameter"); if (stored === "unreadable") throw new Error("no parameters"); return stored === undefined ? {} : { Parameter: { Value: stored } }; } }, GetParameterCommand: class { constructor(i) { this.input = i; } }, PutParameterCommand: class { constructor(i) { this.input = i; this.put = true; } } });
      S.stub("@date-fns/tz", { TZDate: S.world.Date });
      const status = S.choose("status", ["s1", "s2", "failed"]);
      const zone = S.choose("zone", ["berth", "portarea", "pbp"]), dir = S.choose("direction", ["arrival", "departure"]);
      const ports = S.choose("ports", [["FIHKO"], ["FIHKO", "FIHEL"], []]);
      const call = S.bool("found") ? S.int("call", 1, 99) : undefined;
      const broken = S.bool("connection fails");
      const asked = [];
      const answers = (text, params) => { if (/port_to_visit/.test(text)) { asked.push(params); return call === undefined || !params[2] ? [] : [{ port_call_id: call }]; } };
      sessions(S, database(S, {}, { answers }));
      const TIME = "2024-05-01T10:00:00.000Z";
      const event = { msgType: "event", eventType: "zone-event", eventTimestamp: TIME, eventId: "e", mmsi: 230001, imo: 9001, shipName: "A", location: [1, 2], zoneId: "z", zoneType: zone, zoneEventType: dir, zoneName: "Z", locodes: ports };
      const other = { ...event, mmsi: 230002, imo: 9002, zoneType: "berth", zoneEventType: "arrival", locodes: ["FIOUL"] };
      const sent = [];
      let closed = 0, opened;
      class WS {
        constructor(url, o) { opened = [url, o]; this.on_ = {}; setTimeout(() => { this.on_.open?.(); const m = (x) => this.on_.message?.(JSON.stringify(x)); if (broken) { this.on_.error?.(new Error("broken")); return; } m(status === "failed" ? { msgType: "subscription-status", status: "failed" } : { msgType: "subscription-status", status: "active", subscriptionId: status }); m(event); m({ msgType: "other" }); m(other); }, 5); }
        on(e, f) { this.on_[e] = f; return this; }
        send(x) { sent.push(JSON.parse(x)); }
        close() { closed++; }
      }
      const { AwakeAiATXApi } = S.load(P + "api/awake-ai-atx.ts");
      const { OAuthTokenApi } = S.load(P + "api/oauth-token-api.ts");
      const { AwakeAiATXService } = S.load(P + "service/awake-ai-atx.ts");
      const r = await S.settle(() => new AwakeAiATXService(new AwakeAiATXApi("wss://atx", WS), new OAuthTokenApi(SECRET)).getATXs(1000));
      S.assert(opened[0] === "wss://atx" && opened[1].headers.Authorization === "Bearer T", "connected to with the token");
      const kept = stored === "s1" ? "s1" : undefined;
      S.assert(sent.length === 1 && sent[0].msgType === "subscribe", "subscribed to once");
      if (kept) { S.assert(sent[0].resume === "s1" && sent[0].parameters === undefined, "the subscription is resumed"); S.reach("resumed"); }
      else { S.assert(sent[0].resume === undefined && JSON.stringify(sent[0].parameters) === '[{"eventType":"zone-event","countries":["FI"]}]', "a new subscription is asked for"); S.reach("new subscription"); }
      if (broken) { S.assert(r.error !== undefined, "a failed connection is a failure"); S.reach("connection failed"); return; }
      const store = status === "failed" ? "NONE" : status !== kept ? status : undefined;
      if (status === "failed") S.reach("refused");
      S.assert(store === undefined ? puts.length === 0 : puts.length === 1 && puts[0].Name === "AWAKE_ATX_SUBSCRIPTION_ID" && puts[0].Value === store && puts[0].Overwrite === true, "the next run knows what to resume");
      if (r.error) S.fail("visits are gone through");
      S.assert(closed === 1, "the connection is closed");
      const t = (x, eventType, port) => ({ eventType, eventTime: TIME, recordTime: TIME, source: "Awake.AI", ship: { mmsi: x.mmsi, imo: x.imo }, location: { port }, portcallId: call });
      const want = [];
      if (call === undefined) S.reach("no port call");
      else {
        want.push(t(other, "ATA", "FIOUL"));
        if (zone === "berth" && ports.length) { want.push(t(event, dir === "arrival" ? "ATA" : "ATD", ports[0])); S.reach(dir === "arrival" ? "arrived" : "departed"); }
      }
      sameTimes(S, r.value, want, "visits");
      for (const a of asked) { const x = a[1] === 9001 ? event : other; S.assert(a[0] === x.mmsi && a[1] === x.imo && (a[2] === x.locodes[0]) && a[3] === (x.zoneEventType === "arrival" ? "ATA" : "ATD") && a[4].getTime() === Date.parse(TIME), "the visit's port call is looked for"); }
    },
  },
  started: {
    bounds: "0..21 ships; the ports of arrivals and departures",
    reach: ["ships", "no ships", "ports"],
    async run(S) {
      const w = services(S, {});
      const published = [];
      S.stub("@aws-sdk/client-sns", { SNSClient: class { async send(c) { await null; published.push(c.input); } }, PublishCommand: class { constructor(i) { this.input = i; } } });
      const which = S.choose("which", ["ships", "arrivals", "departures"]);
      if (which === "ships") {
        const n = S.choose("ships", [0, 1, 9, 10, 11, 20, 21]);
        const ships = Array.from({ length: n }, (_, i) => ({ imo: 9000 + i, locode: "FIHKO", port_area_code: "A", portcall_id: i, eta: new S.world.Date(T0 + i * 1000) }));
        const asked = [];
        S.stub(P + "service/timestamps", { findETAShipsByLocode: async (p) => { await null; asked.push([...p]); return ships; } });
        const { handlerFn } = S.load(P + "lambda/trigger-awake-ai-eta-ship-timestamps-update/trigger-awake-ai-eta-ship-timestamps-update.ts");
        const r = await S.settle(() => handlerFn({ send: async (c) => { await null; published.push(c.input); } })());
        if (r.error) S.fail("the ships are gone through");
        S.assert(published.every((m) => m.TopicArn === "topic"), "each is told of");
        const lists = published.map((m) => JSON.parse(m.Message));
        S.assert(lists.every((l) => Array.isArray(l) && l.length > 0 && l.length <= 10), "a few at a time");
        S.assert(JSON.stringify(lists.flat()) === JSON.stringify(ships.map((s) => ({ ...s, eta: s.eta.toISOString() }))), "every ship once");
        S.reach(n ? "ships" : "no ships");
        // and what is told is what the update asks about
        w.get = () => ({ ship: { mmsi: 1, imo: 2 }, predictability: "not-predictable", predictedVoyages: [] });
        S.world.time = T0;
        const { handler } = S.load(P + "lambda/update-awake-ai-eta-ship-timestamps/update-awake-ai-eta-ship-timestamps.ts");
        for (const m of published) { const u = await S.settle(() => handler({ Records: [{ Sns: { Message: m.Message } }] })); if (u.error) S.fail("what was told is understood"); }
        S.assert(w.asked.map(([u]) => u).sort().join() === ships.map((s) => `https://voyages/ship/${s.imo}?predictionMetadata=true&destination=FIHKO`).sort().join(), "every ship is asked about once");
        return;
      }
      const arrivals = which === "arrivals";
      const { handlerFn } = S.load(P + `lambda/trigger-awake-ai-${arrivals ? "eta" : "etd"}-port-timestamps-update/trigger-awake-ai-${arrivals ? "eta" : "etd"}-port-timestamps-update.ts`);
      const r = await S.settle(() => handlerFn({ send: async (c) => { await null; published.push(c.input); } })());
      if (r.error) S.fail("the ports are gone through");
      const want = arrivals ? ["FIKOK", "FIRAU", "FIOUL", "FIKEM", "FIKJO", "FIUKI", "FIPOR"] : ["FIHEL", "FIHKO", "FIKEM", "FIKOK", "FIKTK", "FIMHQ", "FINLI", "FIOUL", "FIPRS", "FIRAU", "FISKV", "FITKU", "FITOR", "FIUKI", "FIVSS"];
      const told = published.map((m) => m.Message);
      S.assert(published.every((m) => m.TopicArn === "topic") && new Set(told).size === told.length && want.every((p) => told.includes(p)), "every port once");
      S.world.time = T0;
      const what = arrivals ? "eta" : "etd", key = arrivals ? "arrivalTime" : "departureTime";
      w.get = (url) => (url.includes("FIRAU") ? [{ ship: { mmsi: 5, imo: 6 }, voyage: { voyageStatus: "underway", sequenceNo: 0, predictions: [{ predictionType: what, zoneType: "berth", locode: "FIRAU", [key]: iso(T0 + 100 * H), recordTime: iso(T0) }] } }] : []);
      const { handler } = S.load(P + `lambda/update-awake-ai-${what}-port-timestamps/update-awake-ai-${what}-port-timestamps.ts`);
      for (const m of published) { const u = await S.settle(() => handler({ Records: [{ Sns: { Message: m.Message } }] })); if (u.error) S.fail("what was told is understood"); }
      S.assert(told.every((p) => w.asked.filter(([u]) => u.startsWith(`https://voyages/port/${p}/`)).length === 1), "every port is asked about once");
      S.assert(w.posted.length === 1, "one token for all");
      S.assert(w.sent.length === 1 && w.sent[0].QueueUrl === "queue", "what is learned is sent on");
      sameTimes(S, w.sent.map((m) => JSON.parse(m.MessageBody)), [{ eventType: arrivals ? "ETA" : "ETD", eventTime: iso(T0 + 100 * H), recordTime: iso(T0), source: "Awake.AI Pred", ship: { mmsi: 5, imo: 6 }, location: { port: "FIRAU" } }], "ports' times");
      S.reach("ports");
    },
  },
};
