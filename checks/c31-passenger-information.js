import { quiet } from "./_util.js";
import { database, mysqlPool } from "./_sql.js";
const P = "rail/rami/src/";
export const property = {
  id: "C31",
  title: "Passenger information is stored whole and published as it came",
  statement: "An accepted message is stored completely or not at all, the newest version of each message that is not deleted is published with its validity, train, stations, texts and delivery rules as they came, and only when it matches the asked train, date, station, kind and time. A message that cannot be stored is kept aside word for word and reported as failed without affecting others of its batch, and no database connection is ever kept. A message refused at the door is put aside readably together with the reasons.",
  quantifier: { over: ["inputs", "fault_sequences", "histories"], text: "messages of both kinds with any texts, numbers and times, histories of up to 3 messages of 2 ids, any statement failing" },
  why_tests_cant: "The tests need a database, use one or two fixed messages, and no statement of theirs fails.",
  anchors: {
    files: [P + "service/process-rosm-message.ts", P + "service/get-message.ts", P + "dao/message.ts", P + "util/database.ts", P + "util/weekdays.ts", P + "lambda/process-rosm-queue/process-rosm-queue.ts", P + "lambda/upload-rosm-message/upload-rosm-message.ts", P + "lambda/process-dlq/process-dlq.ts"],
    mechanism: [{ name: "parseRosmMessage, processRosmMessage", where: P + "service/process-rosm-message.ts" }, { name: "insertMessage, setMessageDeleted, findActiveMessages, findMessagesUpdatedAfter", where: P + "dao/message.ts" }, { name: "inTransaction, inDatabase", where: P + "util/database.ts" }],
    observe_at: "rows of a small database that carries out the statements sent to it, responses of the handlers, messages sent to queues and files written",
  },
  assumptions: ["times are exact to the minute, the precision they are stored with", "messages have at least one station, as the database needs", "a database server formats times as its manual says"],
};
const NOW = Date.UTC(2024, 5, 12, 10, 0), MIN = 60000;
const WEEKDAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"];
const content = ["rami_message_id", "rami_message_version", "text_fi", "text_sv", "text_en", "delivery_type", "start_date_time", "end_date_time", "start_time", "end_time", "days_of_week"];
const tables = () => ({
  rami_message: { cols: ["id", "version", "message_type", "created_source", "start_validity", "end_validity", "train_number", "train_departure_date", "journey_ref", "deleted"], unique: [["id", "version"]], required: ["id", "version", "message_type", "created_source", "start_validity", "end_validity"], rows: [] },
  rami_message_station: { cols: ["rami_message_id", "rami_message_version", "station_short_code"], unique: [], rows: [] },
  rami_message_video: { cols: content, unique: [["rami_message_id", "rami_message_version"]], rows: [] },
  rami_message_audio: { cols: [...content, "event_type", "delivery_at", "repetitions", "repeat_every"], unique: [["rami_message_id", "rami_message_version"]], rows: [] },
});
function setup(S) {
  const sent = [], files = [];
  quiet(S);
  S.world.time = NOW;
  Object.assign(S.world.process.env, { SECRET_ID: "s", DB_USER: "u", DB_PASS: "p", DB_URI: "h", DB_APPLICATION: "d", ROSM_SQS_URL: "rosm", DLQ_URL: "dlq", UDOT_SQS_URL: "udot", SQS_DLQ_BUCKET_NAME: "bucket" });
  S.stub("lib/digitraffic-common/src/utils/date-utils", { MYSQL_DATETIME_FORMAT: "yyyy-MM-dd HH:mm", dateToUTCString: (d, f) => { if (f !== "yyyy-MM-dd HH:mm" && f !== "yyyy-MM-dd HH:mm:ss") S.gap("other format of times"); const t = d.getTime(); if (S.decide(t !== t)) throw new RangeError("Invalid time value"); return new S.world.Date(t); } });
  const moment = (v) => (v === null ? null : typeof v === "string" ? v : v.toISOString());
  const fns = {
    date_format: (v, f) => { if (v === null) return null; if (f === "%Y-%m-%dT%TZ") return moment(v); if (f === "%Y-%m-%d" || f === "%k:%i" || f === "%H:%i") return v; S.gap("format " + f); },
    export_set: (v, on, off, sep, n) => { if (on !== "1" || off !== "0" || sep !== "" || n !== 7) S.gap("other export_set"); const b = v.bits ?? v; return [...S.concrete(b)].reverse().join(""); },
    reverse: (v) => (v === null ? null : [...S.concrete(v)].reverse().join("")),
  };
  const db = database(S, tables(), { mysql: true, fns });
  const pool = mysqlPool(S, db);
  const command = class { constructor(o) { this.o = o; } };
  S.stub("@aws-sdk/client-sqs", { SendMessageCommand: command, SQSClient: class { async send(c) { await null; sent.push({ to: c.o.QueueUrl, body: c.o.MessageBody }); } } });
  S.stub("@aws-sdk/client-s3", { PutObjectCommand: command, S3: class { async send(c) { await null; files.push(c.o); if (S.uploadsFail?.(files.length)) throw new Error("upload failed"); return {}; } } });
  S.stub("@middy/core", { default: (h) => S.mock({ use: () => h }, "middy") });
  S.stub("@middy/sqs-partial-batch-failure", { default: () => ({}) });
  S.stub("aws/types/lambda-response", { LambdaResponse: S.mock({ badRequest: (b) => ({ status: 400, body: b }), ok: (b) => ({ status: 200, body: b }), okJson: (json) => ({ status: 200, json }) }, "LambdaResponse") });
  return { db, pool, sent, files };
}
const headers = { e2eId: "e", source: "s", eventType: null, recordedAtTime: "2024-01-01T00:00:00Z" };
const iso = (S, t) => new S.world.Date(t).toISOString();
function monitored(more = {}, journey = {}) {
  return { vehicleJourney: { datedVehicleJourneyRef: "r", dataFrameRef: "2024-06-12", vehicleJourneyName: "274", ...journey }, messageContentType: "AUDIO_VIDEO", deliveryPoints: [{ id: "HKI" }], ...more };
}
const message = (S, more) => ({ headers, payload: { messageId: "m1", messageVersion: 1, title: "t", messageType: "SCHEDULED_MESSAGE", operation: "INSERT", creationDateTime: iso(S, NOW - 10 * MIN), startValidity: iso(S, NOW - 10 * MIN), endValidity: iso(S, NOW + 60 * MIN), scheduledMessage: null, monitoredJourneyScheduledMessage: null, ...more } });
const scheduled = (more = {}) => ({ situations: null, deliveryChannels: null, onGroundRecipient: { messageContentType: "AUDIO_VIDEO", deliveryPoints: [{ id: "HKI" }], ...more } });
async function take(S, bodies) {
  const { handlerFn } = S.load(P + "lambda/process-rosm-queue/process-rosm-queue.js");
  await S.ready();
  return S.settle(() => handlerFn()({ Records: bodies.map((body, i) => ({ body, messageId: "q" + i })) }));
}
async function ask(S, event, after) {
  const { handler } = S.load(P + (after ? "lambda/get-messages-updated-after/get-messages-updated-after.js" : "lambda/get-active-messages/get-active-messages.js"));
  await S.ready();
  return S.settle(() => handler(event));
}
const NONE = { train_number: "", train_departure_date: "", station: "", only_general: "" };
const at = (v) => (v === undefined || v === null ? v : typeof v === "string" ? Date.parse(v) : v.getTime());
const LANG = { fi: "fi_FI", sv: "sv_SE", en: "en_GB" };
const letters = "abcdefghijklmnopqrstuvwxyz";
// texts as they come and as they are published
function texts(S, name, field) {
  const langs = S.choose(name + " languages", [["fi"], ["en", "sv", "fi"], ["sv", "xx"]]);
  const padded = S.choose(name + " padded", [false, true]);
  const said = {}, list = [];
  for (const l of langs) { const t = S.str(name + l, 3, letters); if (l in LANG) said[l] = t; list.push({ language: LANG[l] ?? "de_DE", [field]: padded ? ` ${t} ` : t }); }
  return { list, said };
}
function sameTexts(S, got, said) {
  return S.and(...["fi", "sv", "en"].map((l) => (said[l] === undefined ? got[l] === undefined : got[l] !== undefined && S.eq(got[l], said[l]))));
}
const absent = (o, keys) => keys.every((k) => o[k] === undefined);
export const harnesses = {
  "of a journey": {
    bounds: "one message of a train: audio and video or not, texts of any 3 letters in 3 sets of languages, delivery rules or not with any repetitions, 1..3 stations, any train number of 1 to 3 digits",
    reach: ["audio", "no audio", "video", "no video", "rules", "no rules"],
    async run(S) {
      const { db, pool } = setup(S);
      const audio = S.choose("audio", [true, false]) ? texts(S, "audio", "audioText") : undefined;
      const video = S.choose("video", audio ? [true, false] : [true]) && !(audio && audio.list.length === 2) ? texts(S, "video", "videoText") : undefined;
      const rules = audio ? S.choose("rules", ["no", "event", "schedule"]) : "no";
      const stations = ["HKI", "TPE", "OL"].slice(0, S.choose("stations", [1, 3]));
      const reps = S.int("repetitions", 1, 100), every = S.int("every", 0, 1000), version = S.int("version", 1, 1000);
      const number = S.str("train", S.choose("digits", [1, 3]), "0123456789");
      S.assume(S.not(number.startsWith("0")));
      const created = NOW - S.int("created", 1, 5000) * MIN, from = NOW - S.int("from", 0, 5000) * MIN, to = NOW + S.int("to", 1, 5000) * MIN;
      const m = message(S, { messageVersion: version, messageType: "MONITORED_JOURNEY_SCHEDULED_MESSAGE", creationDateTime: iso(S, created), startValidity: iso(S, from), endValidity: iso(S, to), monitoredJourneyScheduledMessage: monitored({ deliveryPoints: stations.map((id) => ({ id })), ...(audio && { audioMessageContents: { audioTexts: audio.list, deliveryRules: rules === "no" ? null : { repetitions: reps, repeatEvery: rules === "event" ? null : every, eventType: rules === "event" ? "ARRIVING" : null }, deliveryType: rules === "no" ? null : rules === "event" ? "ON_EVENT" : "ON_SCHEDULE" } }), ...(video && { videoTexts: video.list }) }, { vehicleJourneyName: number, dataFrameRef: "2024-06-11" }) });
      const r = await take(S, [JSON.stringify(m)]);
      S.assert(!r.error && r.value.length === 1 && r.value[0].status === "fulfilled", "an accepted message is stored");
      const after = S.choose("asked", ["active", "updated"]) === "updated";
      const q = await ask(S, after ? { ...NONE, date: new Date(NOW - 6000 * MIN).toISOString(), only_active: "" } : NONE, after);
      S.assert(!q.error && q.value.status === 200 && q.value.json.length === 1, "it is published");
      const [p] = q.value.json;
      S.assert(S.and(p.id === "m1", S.eq(p.version, version)), "its id and version");
      S.assert(S.and(S.eq(at(p.creationDateTime), created), S.eq(at(p.startValidity), from), S.eq(at(p.endValidity), to)), "its times");
      S.assert(S.and(S.eq(p.trainNumber, Number(number)), p.trainDepartureDate === "2024-06-11"), "its train");
      S.assert(p.stations.length === stations.length && stations.every((s) => p.stations.some((x) => x === s)), "its stations");
      S.reach(audio ? "audio" : "no audio");
      S.assert(audio ? !!p.audio && sameTexts(S, p.audio.text, audio.said) : !p.audio, "its spoken texts");
      S.reach(video ? "video" : "no video");
      S.assert(video ? !!p.video && sameTexts(S, p.video.text, video.said) && !p.video.deliveryRules : !p.video, "its shown texts");
      if (audio) {
        const d = p.audio.deliveryRules;
        S.reach(rules === "no" ? "no rules" : "rules");
        S.assert(rules === "no" ? !d : !!d && S.and(S.eq(d.repetitions, reps), rules === "event" ? d.repeatEvery === undefined && d.eventType === "ARRIVING" && d.deliveryType === "ON_EVENT" : S.and(S.eq(d.repeatEvery, every), d.eventType === undefined, d.deliveryType === "ON_SCHEDULE")) && absent(d, ["startDateTime", "endDateTime", "startTime", "endTime", "weekDays", "deliveryAt"]), "its delivery rules");
      }
      S.assert(pool.open() === 0, "no connection is kept");
    },
  },
  "at stations": {
    bounds: "one message at stations: audio now, at any time or repeated between any times with any repetitions, video at times or always, some weekdays",
    reach: ["now", "at a time", "repeated", "shown at times", "always shown", "recorded speech"],
    async run(S) {
      const { db, pool } = setup(S);
      const a = S.choose("audio", ["NOW", "DELIVERY_AT", "REPEAT_EVERY", "AUDIO_FILE", "no"]);
      const v = S.choose("video", ["WHEN", "CONTINUOS_VISUALIZATION", "plain", "no"]);
      const days = S.choose("days", [undefined, [], ["SUNDAY", "MONDAY"], ["FRIDAY"], WEEKDAYS]);
      const reps = S.int("repetitions", 0, 100), every = S.int("every", 1, 1000);
      const t1 = NOW + S.int("t1", -5000, 5000) * MIN, t2 = NOW + S.int("t2", -5000, 5000) * MIN, t3 = NOW + S.int("t3", -5000, 5000) * MIN;
      const said = S.str("said", 3, letters), shown = S.str("shown", 3, letters);
      const audio = a === "no" ? undefined : { audioContentType: a === "AUDIO_FILE" ? a : "AUDIO_TEXT", audioText: a === "AUDIO_FILE" ? null : [{ language: "fi_FI", text: said }], scheduledAudioDeliveryRules: a === "NOW" || a === "AUDIO_FILE" ? { audioSchedulationType: "NOW" } : a === "DELIVERY_AT" ? { audioSchedulationType: a, deliveryAtDateTime: iso(S, t1) } : { audioSchedulationType: a, startDateTime: iso(S, t1), endDateTime: iso(S, t2), startTime: "08:00", endTime: "17:30", repetitions: reps, repeatEvery: every, ...(days && { daysOfWeek: days }) } };
      const video = v === "no" ? undefined : { videoTexts: [{ language: "en_GB", text: "x" }, { language: "sv_SE", text: shown }], deliveryRules: v === "plain" ? null : { videoSchedulationType: v, startDateTime: v === "WHEN" ? iso(S, t3) : null, endDateTime: iso(S, t2), ...(v === "WHEN" && { startTime: "05:00", endTime: "23:59" }), ...(days && { daysOfWeek: days }) } };
      const m = message(S, { scheduledMessage: scheduled({ recipientAudioMessagesToDeliver: audio ?? null, recipientVideoMessagesToDeliver: video ?? null }) });
      const r = await take(S, [JSON.stringify(m)]);
      S.assert(!r.error && r.value[0].status === "fulfilled", "an accepted message is stored");
      const q = await ask(S, NONE);
      S.assert(!q.error && q.value.status === 200, "messages are published");
      S.assert(q.value.json.length === 1, "an accepted message is published");
      const [p] = q.value.json;
      S.assert(p.trainNumber === undefined && p.trainDepartureDate === undefined && p.stations.length === 1 && p.stations[0] === "HKI", "its stations, no train");
      const same = (x, y) => (x === undefined ? y === undefined : y === undefined ? false : S.eq(x, at(y)));
      const week = (got, list) => (list === undefined || list.length === 0 ? got === undefined : got !== undefined && got.length === list.length && list.every((d) => got.some((x) => x === d)));
      if (a === "no" || a === "AUDIO_FILE") { if (a === "AUDIO_FILE") S.reach("recorded speech"); S.assert(!p.audio, "no spoken texts"); }
      else {
        S.assert(!!p.audio && sameTexts(S, p.audio.text, { fi: said }), "its spoken texts");
        const d = p.audio.deliveryRules;
        S.assert(!!d && d.deliveryType === a, "its type of delivery");
        S.reach({ NOW: "now", DELIVERY_AT: "at a time", REPEAT_EVERY: "repeated" }[a]);
        S.assert(same(a === "DELIVERY_AT" ? t1 : undefined, d.deliveryAt), "the time of its delivery");
        if (a === "REPEAT_EVERY") S.assert(S.and(same(t1, d.startDateTime), same(t2, d.endDateTime), d.startTime === "08:00", d.endTime === "17:30", S.eq(d.repetitions, reps), S.eq(d.repeatEvery, every), week(d.weekDays, days)), "its repetition");
        else S.assert(absent(d, ["startDateTime", "endDateTime", "startTime", "endTime", "weekDays", "repetitions", "repeatEvery", "eventType"]), "no other rules");
      }
      if (v === "no") S.assert(!p.video, "no shown texts");
      else {
        S.assert(!!p.video && sameTexts(S, p.video.text, { en: "x", sv: shown }), "its shown texts");
        const d = p.video.deliveryRules;
        if (v === "plain") S.assert(!d, "no rules");
        else {
          S.reach(v === "WHEN" ? "shown at times" : "always shown");
          S.assert(!!d && d.deliveryType === v && S.and(same(v === "WHEN" ? t3 : undefined, d.startDateTime), same(t2, d.endDateTime)) && week(d.weekDays, days), "its times of showing");
          S.assert(v === "WHEN" ? d.startTime === "05:00" && d.endTime === "23:59" : absent(d, ["startTime", "endTime"]), "its hours of showing");
        }
      }
    },
  },
  weekdays: {
    bounds: "any set of weekdays in any of two orders",
    reach: ["days", "none"],
    async run(S) {
      const days = WEEKDAYS.filter((d) => S.decide(S.bool(d)));
      if (S.choose("order", [false, true])) days.reverse();
      setup(S);
      await take(S, [JSON.stringify(message(S, { scheduledMessage: scheduled({ recipientVideoMessagesToDeliver: { videoTexts: [{ language: "fi_FI", text: "x" }], deliveryRules: { videoSchedulationType: "WHEN", startDateTime: null, endDateTime: null, daysOfWeek: days } } }) }))]);
      const q = await ask(S, NONE);
      S.assert(!q.error && q.value.json.length === 1, "it is published");
      const got = q.value.json[0].video.deliveryRules.weekDays;
      S.reach(days.length ? "days" : "none");
      S.assert(days.length ? got.length === days.length && days.every((d) => got.some((x) => x === d)) : got === undefined, "the weekdays are those of the message");
    },
  },
  history: {
    bounds: "histories of up to 3 messages of 2 ids with any validity, all kinds of requests",
    reach: ["published", "nothing", "deleted", "newest version", "not valid", "other train", "other station", "not general", "not updated"],
    async run(S) {
      const { db, pool } = setup(S);
      const A = (v, op = "INSERT") => ["m1", v, op], B = (v, op = "INSERT") => ["m2", v, op];
      const steps = S.choose("history", [[A(1)], [A(1), A(2, "UPDATE")], [A(2, "UPDATE"), A(1)], [A(1), A(1, "DELETE")], [A(1), B(1), A(1, "DELETE")], [A(1), A(2, "UPDATE"), B(1)], [A(1), A(1, "DELETE"), A(2, "UPDATE")], [A(1), A(2, "UPDATE"), A(2, "DELETE")], [A(1, "DELETE")]]);
      const ask1 = S.choose("asked", ["active", "updated", "updated active", "updated all"]);
      const filter = S.choose("filter", ["no", "train", "date", "station", "general", "both"]);
      const facts = [];
      let n = 0;
      for (const [id, version, op] of steps) {
        n++;
        const last = n === steps.length || (n === steps.length - 1 && steps[n][2] === "DELETE");
        const f = { id, version, op, created: NOW - (last ? S.int("created" + n, 0, 10) : 5) * MIN, from: NOW + (last ? S.int("from" + n, -5, 5) : -5) * MIN, to: NOW + (last ? S.int("to" + n, -4, 6) : 5) * MIN, train: id === "m1" && version === 1 || id === "m2" ? 10 * n : undefined, stations: version === 2 ? ["TPE"] : ["HKI", "OL"], n };
        const common = { messageId: id, messageVersion: version, operation: op, creationDateTime: iso(S, f.created), startValidity: iso(S, f.from), endValidity: iso(S, f.to) };
        const points = { deliveryPoints: f.stations.map((s) => ({ id: s })) };
        const m = f.train ? message(S, { ...common, messageType: "MONITORED_JOURNEY_SCHEDULED_MESSAGE", monitoredJourneyScheduledMessage: monitored(points, { vehicleJourneyName: String(f.train), dataFrameRef: "2024-06-1" + n }) }) : message(S, { ...common, scheduledMessage: scheduled(points) });
        const r = await take(S, [JSON.stringify(m)]);
        S.assert(!r.error && r.value[0].status === "fulfilled", "the message is taken");
        if (op === "DELETE") facts.forEach((x) => { if (x.id === id) x.deleted = true; });
        else facts.push(f);
      }
      const since = NOW - 5 * MIN;
      const event = { ...NONE, ...(filter === "train" || filter === "both" ? { train_number: "10" } : {}), ...(filter === "date" ? { train_departure_date: "2024-06-11" } : {}), ...(filter === "station" || filter === "both" ? { station: "HKI" } : {}), ...(filter === "general" ? { only_general: "true" } : {}) };
      if (ask1 !== "active") Object.assign(event, { date: new Date(since).toISOString(), only_active: { updated: "", "updated active": "true", "updated all": "false" }[ask1] });
      const q = await ask(S, event, ask1 !== "active");
      S.assert(!q.error && q.value.status === 200, "the messages are given");
      const got = q.value.json;
      let count = 0;
      for (const id of ["m1", "m2"]) {
        const mine = facts.filter((f) => f.id === id);
        const newest = mine.reduce((b, f) => (!b || f.version > b.version ? f : b), undefined);
        const p = got.filter((x) => x.id === id);
        let why;
        if (!newest) why = "nothing";
        else if (newest.deleted) why = "deleted";
        else if (ask1 !== "updated all" && S.decide(S.or(newest.from > NOW, newest.to <= NOW))) why = "not valid";
        else if (ask1 !== "active" && S.decide(newest.created < since)) why = "not updated";
        else if ((filter === "train" || filter === "both") && newest.train !== 10) why = "other train";
        else if (filter === "date" && !(newest.train && newest.n === 1)) why = "other train";
        else if ((filter === "station" || filter === "both") && !newest.stations.includes("HKI")) why = "other station";
        else if (filter === "general" && newest.train) why = "not general";
        if (why) { S.reach(why); S.assert(p.length === 0, "not published: " + why); continue; }
        S.reach(newest.version === 2 ? "newest version" : "published");
        S.assert(p.length === 1, "published once");
        S.assert(p.every((x) => x.version === newest.version && x.stations.length === newest.stations.length && newest.stations.every((s) => x.stations.some((y) => y === s))), "its newest version with its stations");
        count++;
      }
      S.assert(got.length === count, "nothing else is published");
    },
  },
  failures: {
    bounds: "batches of 1..2 messages: good, unreadable, refused, with an impossible time or failing to be stored at any statement, at the beginning, the end or the taking back of the transaction; reading failing",
    reach: ["stored", "unreadable", "refused", "impossible", "failed", "reading failed", "no connection"],
    async run(S) {
      const { db, pool, sent } = setup(S);
      const kinds = [0, 1].slice(0, S.choose("n", [1, 2])).map((i) => S.choose("kind" + i, ["good", "unreadable", "refused", "impossible", "fails"]));
      if (kinds.length === 2 && kinds[0] === "fails" && kinds[1] === "fails") return;
      const nth = kinds.includes("fails") ? S.choose("nth", [1, 2, 3, 4]) : 0;
      const body = (k, i) => (k === "unreadable" ? "{" : JSON.stringify(message(S, { messageId: k === "fails" ? "fails" : "m" + i, ...(k === "refused" && { operation: "OTHER" }), ...(k === "impossible" && { creationDateTime: "yesterday" }), scheduledMessage: scheduled({ recipientVideoMessagesToDeliver: { videoTexts: [{ language: "fi_FI", text: "a" }] } }) })));
      const bodies = kinds.map(body);
      const whole = kinds.length === 1 && kinds[0] === "good" ? S.choose("transaction", ["ok", "begin", "commit", "connect", "rollback"]) : "ok";
      if (whole !== "ok") pool.failing = whole;
      const order = ["rami_message", "rami_message_station", "rami_message_audio", "rami_message_video"];
      const failing = order[nth - 1];
      db.failing = (s) => { if (whole === "rollback") return s.table === "rami_message_station"; if (!failing || s.table !== failing) return false; const p = s.params; const id = Array.isArray(p) ? p[0][0][0] : p.id; return id === "fails"; };
      const r = await take(S, bodies);
      S.assert(!r.error && r.value.length === kinds.length, "every message has its result");
      S.assert(pool.open() === 0, "no connection is kept");
      const stored = (id) => order.every((t) => db.tables[t].rows.filter((x) => (x.id ?? x.rami_message_id) === id).length === 1);
      const traces = (id) => order.some((t) => db.tables[t].rows.some((x) => (x.id ?? x.rami_message_id) === id));
      kinds.forEach((k, i) => {
        const bad = k === "fails" || k === "impossible" || whole !== "ok";
        const res = r.value[i], id = k === "fails" ? "fails" : "m" + i;
        const aside = sent.filter((s) => s.to === "dlq" && JSON.parse(s.body).message === bodies[i]);
        if (bad) {
          S.reach(k === "impossible" ? "impossible" : whole === "connect" ? "no connection" : "failed");
          S.assert(res.status === "rejected", "a message that is not stored is reported as failed");
          S.assert(aside.length === 1 && JSON.parse(aside[0].body).messageType === "ROSM", "and kept aside word for word");
          S.assert(!traces(id), "nothing of it is stored");
        } else if (k === "good") { S.reach("stored"); S.assert(res.status === "fulfilled" && stored(id) && aside.length === 0, "others are stored"); }
        else { S.reach(k); S.assert(!traces(id), "what cannot be read is not stored"); }
      });
      pool.failing = undefined;
      // reading
      if (kinds.length === 1 && kinds[0] === "good" && whole === "ok") {
        db.failing = (s) => s.kind === "select";
        const after = S.choose("reading", [false, true]);
        for (let i = 0; i < 2; i++) {
          const q = await ask(S, after ? { ...NONE, date: "2024-01-01T00:00:00Z", only_active: "" } : NONE, after);
          S.reach("reading failed");
          S.assert(!!q.error, "a failure to read is reported");
          S.assert(pool.open() === 0, "no connection is kept after a failure to read");
        }
      }
    },
  },
  requests: {
    bounds: "requests with one argument of each kind right, missing or wrong",
    reach: ["right", "wrong"],
    async run(S) {
      const { db } = setup(S);
      const what = S.choose("argument", ["train_number", "train_departure_date", "station", "only_general", "date", "only_active"]);
      const [value, ok] = S.choose("value", { train_number: [["7", true], [undefined, true], ["0", false], ["x", false], ["-3", false]], train_departure_date: [["2024-01-01", true], [undefined, true], ["20240101", false], ["2024-1-1", false], ["x2024-01-01", false]], station: [["HKI", true], [undefined, true], ["H", false]], only_general: [["true", true], ["false", true], [undefined, true], ["yes", false]], date: [["2024-01-01T00:00:00Z", true], ["x", false], ["", false], [undefined, false]], only_active: [["true", true], ["false", true], ["", true], ["1", false]] }[what]);
      const after = what === "date" || what === "only_active" || S.choose("after", [false, true]);
      const event = { ...NONE, ...(after ? { date: "2024-01-01T00:00:00Z", only_active: "" } : {}) };
      if (value === undefined) delete event[what]; else event[what] = value;
      const q = await ask(S, event, after);
      S.reach(ok ? "right" : "wrong");
      S.assert(!q.error && q.value.status === (ok ? 200 : 400), "a right request is answered, a wrong one refused");
      if (!ok) S.assert(db.statements.length === 0, "nothing is asked for a wrong request");
    },
  },
  upload: {
    bounds: "a message that is empty, right or wrong with reasons of any 3 characters, then put aside; writing works, fails once or always",
    reach: ["empty", "right", "wrong", "written", "written at the second try"],
    async run(S) {
      const { sent, files } = setup(S);
      const kind = S.choose("message", ["empty", "right", "wrong"]);
      const text = S.str("text", 2, letters + '"\\'), errors = S.str("errors", 3, letters + "\"'\\/");
      const message = { payload: { text } };
      S.stub("service/validate-message", { validateIncomingRosmMessage: (m) => (kind === "right" ? { valid: true, value: m } : { valid: false, errors }) });
      const { handler } = S.load(P + "lambda/upload-rosm-message/upload-rosm-message.js");
      const r = await S.settle(() => handler(kind === "empty" ? undefined : message));
      S.reach(kind);
      S.assert(!r.error && r.value.status === (kind === "empty" ? 400 : 200), "the sender gets an answer");
      S.assert(sent.length === (kind === "empty" ? 0 : 1), "it is passed on once");
      if (kind === "empty") return;
      const [{ to, body }] = sent;
      if (kind === "right") { S.assert(to === "rosm" && S.eq(JSON.parse(body), message), "a right message goes to its queue as it came"); return; }
      S.assert(to === "dlq" && S.eq(JSON.parse(body), { messageType: "ROSM", errors, message }), "a wrong message is put aside with the reasons");
      const fails = S.choose("writing", [0, 1, 2]);
      S.uploadsFail = (n) => n <= fails;
      const other = JSON.stringify({ messageType: "SM", errors: "e", message: { a: 1 } });
      const bodies = S.choose("batch", [["this"], ["{", "this"], ["this", "other"]]);
      const { handler: write } = S.load(P + "lambda/process-dlq/process-dlq.js");
      const w = await S.settle(() => write({ Records: bodies.map((b) => ({ body: b === "this" ? body : b === "other" ? other : b })) }));
      S.assert(!w.error, "writing does not fail");
      const ok = files.filter((f, n) => n + 1 > fails);
      if (fails === 0 || (fails === 1 && bodies.length === 1)) {
        S.reach(fails ? "written at the second try" : "written");
        const mine = ok.filter((f) => /^ROSM\/2024-06-12\/message-[0-9]+-[0-9]+\.json$/.test(f.Key));
        S.assert(mine.length === 1 && mine[0].Bucket === "bucket", "it is written to a file of its day");
        let read; const p = S.sync(() => { read = JSON.parse(mine[0].Body); });
        S.assert(!p.error, "the file can be read");
        S.assert(Array.isArray(read) && read.length === 2 && S.and(S.eq(read[0].errors, errors), S.eq(read[1], message)), "it has the reasons and the message");
        const names = ok.map((f) => f.Key);
        S.assert(new Set(names).size === names.length, "no file is written over");
        if (bodies.includes("other")) S.assert(ok.some((f) => f.Key.startsWith("SM/2024-06-12/")), "others are written too");
      }
    },
  },
};
