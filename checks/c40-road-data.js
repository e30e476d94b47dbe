import { quiet } from "./_util.js";
import { database, sessions } from "./_sql.js";
const P = "road/data-upload/src/";
export const property = {
  id: "C40",
  title: "Uploaded road data are kept, told apart, stored and passed on unaltered",
  statement: "An upload is answered with 200 exactly when it is complete and has been kept and announced, with 400 when it is not, and a received message is kept whatever happens to the others that came with it. Every kept message is then handled once, in the order it came, whether or not others can be: each situation, sign or sign status in it is stored under its own number, kind and time with its own content, instead of the earlier one, and it is marked as done, or as failed when it cannot be understood. Each stored traffic message is told of and published to the subscribers of its class word for word, and a connection is closed in any case.",
  quantifier: { over: ["inputs", "fault_sequences", "histories"], text: "any kind of upload, batches of up to 3 messages each readable or not, symbolic messages of up to 2 situations, complete or cut off, up to 3 kept messages of any kind, version and state, any statement, parsing or publishing failing" },
  why_tests_cant: "The tests need a database and one fixed document each, and nothing fails in them.",
  anchors: {
    files: [P + "lambda", P + "service", P + "dao"],
    mechanism: [{ name: "handler, updateDatex2", where: P + "lambda/upload-datex2/upload-datex2.ts" }, { name: "handler, updateRtti", where: P + "lambda/handle-rtti/handle-rtti.ts" }, { name: "handleVariableSignMessages, handleRttiMessages", where: P + "service/variable-signs.ts" }, { name: "parseSituations223, parseDatex35, parseDatex37, parseRtti35", where: P + "service" }, { name: "sendMqttUpdates", where: P + "service/mqtt-sending-service.ts" }],
    observe_at: "answers, rows of a small database that carries out the statements sent to it, messages sent and published",
  },
  assumptions: ["situations of the oldest version start with their number and version, as the sending system writes them", "the XML parser and writer, which are outside the repository, are stand-ins", "marking a message as done succeeds"],
};
const NOW = Date.UTC(2025, 9, 15, 12, 30);
const iso = (ms) => new Date(ms).toISOString();
const IN = ["data_id", "message_id", "source", "version", "type", "data", "status", "created_at"];
function setup(S, w) {
  w.log = quiet(S);
  S.world.time = NOW;
  Object.assign(w, { sent: [], tables: {
    data_incoming: { cols: IN, defaults: {}, unique: [["data_id"]], required: ["message_id", "source", "version", "type", "data", "status"], rows: w.incoming ?? [] },
    device_data_datex2: { cols: ["device_id", "version", "type", "datex2", "effect_date"], unique: [["device_id", "version", "type"]], required: ["device_id", "datex2", "effect_date"], rows: w.devices ?? [] },
    datex2_rtti: { cols: ["situation_id", "type", "publication_time", "geometry", "start_time", "end_time", "is_srti", "message"], unique: [], required: ["situation_id", "message"], rows: [] },
  } });
  let n = 1;
  w.tables.data_incoming.rows.forEach((r) => { n = Math.max(n, r.data_id + 1); });
  S.stub("@aws-sdk/client-sqs", { SQS: class { async sendMessage(m) { await null; if (w.queueFails) throw new Error("no queue"); w.sent.push(m); } } });
  S.stub("aws/runtime/secrets/proxy-holder", { ProxyHolder: { create: () => S.mock({ setCredentials: async () => { await null; } }, "proxyHolder") } });
  S.stub("uuid", { v4: () => "made-up" });
  const db = sessions(S, database(S, w.tables, { answers: w.answers }));
  return db;
}
const stub = (S, docs) => {
  class Builder { constructor(o) { this.o = o; } buildObject(x) { if (this.o.headless !== true) return "<?xml?>"; return `<${this.o.rootName}>` + (x.mark ?? "?"); } }
  S.stub("xml2js", { __esModule: true, Builder, parseStringPromise: async (text) => { const d = docs.find(([t]) => S.decide(S.eq(t, text))); if (!d || d[1] === "unreadable") throw new Error("not well-formed"); return d[1]; } });
};
const REC = (start, end) => [{ "sit:validity": [{ "com:validityTimeSpecification": [{ ...(start && { "com:overallStartTime": [start] }), ...(end && { "com:overallEndTime": [end] }) }] }] }];
const VERSIONS = ["DATEXII_3_5", "DATEXII_3_7"];
const VMS = "VARIABLE_MESSAGE_SIGN_DATEX_XML", META = "VARIABLE_MESSAGE_SIGN_METADATA_XML", RTTI = "RTTI_DATEX_XML";
const time = (S, t) => (t instanceof S.world.Date ? t.getTime() : typeof t === "string" ? Date.parse(t) : t);
export const harnesses = {
  upload: {
    bounds: "11 kinds of upload of up to 2 messages, request numbered or not, with or without a queue, any of the statements failing at once or late, or the queue",
    reach: ["kept", "refused", "not kept", "no queue"],
    async run(S) {
      const w = {};
      const db = setup(S, w);
      const queue = S.bool("queue");
      Object.assign(S.world.process.env, queue ? { QUEUE_URL: "data" } : {});
      const m = (i) => ({ type: i ? META : VMS, version: "DATEXII_3_" + (5 + 2 * i), message: `<m ${i}>$&` });
      const bodies = { one: [m(0)], two: [m(0), m(1)], empty: [], "wrong type": [{ ...m(0), message: 1 }], lacking: [m(1), { type: VMS, message: "x" }], extra: [{ ...m(0), more: 1 }] };
      const kind = S.choose("kind", [...Object.keys(bodies), "no body", "empty text", "not json", "array", "extra outside", "other"]);
      const text = bodies[kind] ? JSON.stringify({ datexIIVersions: bodies[kind] }) : { "no body": null, "empty text": "", "not json": "{", array: "[]", "extra outside": JSON.stringify({ datexIIVersions: [m(0)], x: 1 }), other: '{"datexIIVersions":"x"}' }[kind];
      const numbered = S.bool("numbered");
      const good = kind === "one" || kind === "two";
      const fail = good ? S.choose("failing", ["nothing", 0, 1, "queue"]) : "nothing";
      if (fail === "queue") w.queueFails = true;
      let n = 0, failed = fail === "queue" && queue;
      if (typeof fail === "number" && S.choose("late", [false, true])) db.late = 20;
      if (typeof fail === "number") db.failing = () => { const hit = n++ === fail; if (hit) failed = true; return hit; };
      const { handler } = S.load(P + "lambda/upload-datex2/upload-datex2.ts");
      const r = await S.settle(() => handler({ body: text, headers: numbered ? { "X-Request-ID": "r1" } : {} }));
      if (r.error || !r.value) S.fail("an upload is answered");
      const rows = w.tables.data_incoming.rows;
      if (!good) { S.reach("refused"); S.assert(r.value.statusCode === 400 && rows.length === 0 && w.sent.length === 0, "what is incomplete is refused as a whole"); return; }
      if (failed) { S.reach("not kept"); S.assert(r.value.statusCode >= 500, "what is not kept is not said to be"); return; }
      S.assert(r.value.statusCode === 200, "it is accepted");
      S.assert(rows.length === bodies[kind].length && bodies[kind].every((b) => rows.some((x) => x.type === b.type && x.version === b.version && x.data === b.message && x.source === "API" && x.status === "NEW" && x.message_id === (numbered ? "r1" : "made-up"))), "each message is kept");
      S.assert(w.sent.length === (queue ? 1 : 0) && w.sent.every((x) => x.QueueUrl === "data"), "and announced once");
      S.reach(queue ? "kept" : "no queue");
    },
  },
  received: {
    bounds: "batches of up to 3 records, each one of 5 kinds, either of the first 2 statements failing at once or late",
    reach: ["kept", "not understood", "failed beside others"],
    async run(S) {
      const w = {};
      const db = setup(S, w);
      Object.assign(S.world.process.env, { QUEUE_URL: "data" });
      const n = S.choose("records", [1, 2, 3]);
      const KINDS = ["good", "two versions", "not json", "other", "inner not json"];
      const kinds = Array.from({ length: n }, (_, i) => S.choose("kind" + i, i === 2 ? ["good", "not json"] : KINDS));
      const message = (i, two) => ({ messageId: "m" + i, date: "2025-10-15T12:00:00Z", messageVersions: [{ messageContent: "<x" + i, messageType: "DATEX2", typeVersion: "3.5" }, ...(two ? [{ messageContent: "<y" + i, messageType: "DATEX2", typeVersion: "3.7" }] : [])] });
      const body = (k, i) => ({ good: JSON.stringify({ Message: JSON.stringify(message(i)) }), "two versions": JSON.stringify({ Message: JSON.stringify(message(i, true)) }), "not json": "<", other: JSON.stringify({ Message: JSON.stringify({ ...message(i), messageVersions: [{ messageContent: 1 }] }) }), "inner not json": JSON.stringify({ Message: "<" }) }[k]);
      const fail = S.choose("failing", ["nothing", 0, 1]);
      let count = 0;
      const lost = [];
      if (fail !== "nothing" && kinds[0] === "two versions" && S.choose("late", [false, true])) db.late = 20;
      if (fail !== "nothing") db.failing = ({ params }) => { const hit = count++ === fail; if (hit) lost.push(params?.[4]); return hit; };
      const { handler } = S.load(P + "lambda/handle-rtti/handle-rtti.ts");
      let rows, sent;
      const r = await S.settle(() => handler({ Records: kinds.map((k, i) => ({ messageId: "r" + i, body: body(k, i) })) }).then(() => { rows = w.tables.data_incoming.rows.map((x) => ({ ...x })); sent = w.sent.length; }));
      S.assert(!r.error && Array.isArray(rows), "a batch is gone through");
      if (!rows) return;
      const want = [];
      kinds.forEach((k, i) => { if (k === "good" || k === "two versions") { want.push(["m" + i, "3.5", "<x" + i]); if (k === "two versions") want.push(["m" + i, "3.7", "<y" + i]); } else S.reach("not understood"); });
      const kept = want.filter(([, , text]) => !lost.includes(text));
      S.assert(rows.length === kept.length && kept.every(([id, version, text]) => rows.some((x) => x.message_id === id && x.version === version && x.data === text && x.source === "TOPIC" && x.type === RTTI && x.status === "NEW")), "each that can be kept has been kept when the batch is done");
      const whole = kinds.filter((k, i) => (k === "good" || k === "two versions") && !lost.some((x) => x === "<x" + i || x === "<y" + i)).length;
      S.assert(sent === whole, "each message is announced");
      if (whole) S.reach("kept");
      if (whole && whole < n) S.reach("failed beside others");
    },
  },
  oldest: {
    bounds: "documents of 0..2 situations (thorough: 3) with symbolic numbers of 1..2 characters and symbolic contents of 0..1 characters, with text between them, complete or cut off",
    reach: ["understood", "cut off", "none"],
    async run(S) {
      quiet(S);
      const n = S.choose("n", S.thorough ? [0, 1, 2, 3] : [0, 1, 2]), cut = n ? S.bool("cut") : false;
      const sits = [];
      for (let i = 0; i < n; i++) {
        const id = S.str("id" + i, [1, 2], "K1$"), body = S.str("body" + i, [0, 1], "$x &");
        const day = `2024-10-0${i + 1}T10:00:00.000Z`;
        sits.push({ id, day, text: `<situation id="${id}" version="${i + 1}">${body}<situationRecord id="r"><overallStartTime>${day}</overallStartTime></situationRecord></situation>` });
      }
      let doc = '<?xml version="1.0"?><m><payloadPublication>' + sits.map((s) => s.text).join(S.choose("between", ["", "\n<x/>"])) + "</payloadPublication></m>";
      if (cut) doc = doc.substring(0, doc.length - "</situation></payloadPublication></m>".length);
      const { parseSituations223 } = S.load(P + "service/vs-datex2-223-parser.ts");
      const r = await S.settle(async () => parseSituations223(doc));
      if (cut) { S.reach("cut off"); S.assert(r.error !== undefined, "an unfinished message is not understood"); return; }
      if (r.error || !Array.isArray(r.value)) S.fail("a complete message is understood");
      S.reach(n ? "understood" : "none");
      S.assert(r.value.length === n, "each situation");
      sits.forEach((s, i) => { const x = r.value[i] ?? {}; S.assert(S.and(S.eq(x.id, s.id), S.eq(x.datex2, s.text), x.type === "SITUATION"), "by its own number and word for word"); S.assert(x.effectDate?.getTime?.() === Date.parse(s.day), "with its start time"); });
    },
  },
  newer: {
    bounds: "the two newer versions; situations, sign statuses and signs, 1..2 in a document with symbolic numbers; a start time or none; unreadable and unknown documents",
    reach: ["situation", "status", "sign", "no time", "not understood"],
    async run(S) {
      quiet(S);
      const now = S.int("now", NOW, NOW + 1000);
      S.world.time = now;
      const v = S.choose("version", ["35", "37"]);
      const kind = S.choose("kind", ["situation", "status", "sign", "unknown", "unreadable", "nothing"]);
      const n = kind === "situation" || kind === "status" || kind === "sign" ? S.choose("n", [1, 2]) : 1;
      const ids = Array.from({ length: n }, (_, i) => S.str("id" + i, 2, "AB/1"));
      const timed = kind === "situation" ? ids.map((_, i) => S.bool("timed" + i)) : [];
      const T = (i) => `2025-01-0${i + 1}T00:00:00Z`;
      const items = ids.map((id, i) => (kind === "status" ? { mark: "c" + i, "vms:vmsControllerReference": [{ $: { id } }], "vms:statusUpdateTime": [T(i)] } : { mark: "c" + i, $: { id }, ...(kind === "situation" && { "sit:situationRecord": REC(timed[i] && T(i)) }) }));
      if (kind === "situation" && timed.some((t) => !t)) items.forEach((x, i) => { if (!timed[i]) x["sit:situationRecord"] = [{ "sit:validity": [{ "com:validityTimeSpecification": [{ "com:overallStartTime": [] }] }] }]; });
      const payload = (type, more) => ({ "d2:payload": { $: { "xsi:type": type }, ...more } });
      const xml = { situation: { "sit:situationPublication": { "sit:situation": items } }, status: payload("vms:VmsPublication", { "vms:vmsControllerStatus": items }), sign: payload("vms:VmsTablePublication", { "vms:vmsControllerTable": [{ "vms:vmsController": items }] }), unknown: payload("x:Other", {}), unreadable: "unreadable", nothing: null }[kind];
      stub(S, [["DOC", xml]]);
      const { ["parseDatex" + v]: parse } = S.load(P + `service/vs-datex2-${v}-parser.ts`);
      const r = await S.settle(() => parse("DOC"));
      if (["unknown", "unreadable", "nothing"].includes(kind)) { S.reach("not understood"); S.assert(r.error !== undefined, "what is not understood is a failure"); return; }
      if (r.error || !Array.isArray(r.value)) S.fail("a document is understood");
      S.reach(kind);
      S.assert(r.value.length === n, "each part of it");
      const [type, root] = { situation: ["SITUATION", "sit:situation"], status: ["CONTROLLER_STATUS", "vms:vmsControllerStatus"], sign: ["CONTROLLER", "vms:vmsController"] }[kind];
      ids.forEach((id, i) => {
        const x = r.value[i] ?? {};
        S.assert(S.and(S.eq(x.id, id), x.type === type), "under its own number and kind");
        S.assert(x.datex2 === `<${root}>c${i}`, "with its own content");
        const known = kind === "status" || (kind === "situation" && timed[i]);
        if (!known) S.reach("no time");
        S.assert(S.eq(time(S, x.effectDate), known ? Date.parse(T(i)) : now), "with its own time");
      });
    },
  },
  handled: {
    bounds: "up to 3 kept messages of any of 10 sorts in either order, one about a sign stored earlier; storing one of their parts failing; the queue failing",
    reach: ["stored", "replaced", "failed", "left", "told", "newest counts", "one part not stored"],
    budgetMs: 200000,
    async run(S) {
      const w = { devices: [{ device_id: "S1", version: "DATEXII_3_5", type: "CONTROLLER_STATUS", datex2: "old", effect_date: new S.world.Date(0) }] };
      const SORTS = ["status 3.5", "status 3.7", "signs 3.5", "oldest", "oldest cut off", "unreadable", "traffic", "traffic srti", "traffic unreadable", "done"];
      const n = S.choose("n", [1, 2, 3]);
      const sorts = Array.from({ length: n }, (_, i) => S.choose("sort" + i, i === 0 ? SORTS : i === 1 ? ["status 3.5", "traffic", "unreadable", "signs 3.5"] : ["status 3.5", "traffic"]));
      const backwards = n > 1 ? S.bool("backwards") : false;
      const docs = [], incoming = [];
      const st = (i) => ({ "d2:payload": { $: { "xsi:type": "vms:VmsPublication" }, "vms:vmsControllerStatus": ["S1", "T" + i].map((id, k) => ({ mark: `${i}${k}`, "vms:vmsControllerReference": [{ $: { id } }], "vms:statusUpdateTime": [iso(NOW - 1000 * (9 - i))] })) } });
      sorts.forEach((s, i) => {
        const [kind, more] = s.split(" ");
        const text = kind === "oldest" ? `<m><situation id="O${i}" version="1"><overallStartTime>${iso(NOW)}</overallStartTime>${more ? "" : "</situation></m>"}` : "doc" + i + (more === "srti" ? "<a:safetyRelatedMessage>true</a:safetyRelatedMessage>" : "");
        docs.push([text, more === "unreadable" || kind === "unreadable" ? "unreadable" : kind === "status" || kind === "done" ? st(i) : kind === "signs" ? { "d2:payload": { $: { "xsi:type": "vms:VmsTablePublication" }, "vms:vmsControllerTable": [{ "vms:vmsController": [{ mark: "s" + i, $: { id: "S1" } }] }] } } : { "d2:payload": { "com:publicationTime": iso(NOW), "sit:situation": [{ $: { id: "R" + i }, "sit:situationRecord": REC(iso(NOW - 5000), more === "srti" ? undefined : iso(NOW + 5000)) }] } }]);
        const traffic = kind === "traffic";
        incoming.push({ data_id: i + 1, message_id: "m", source: traffic ? "TOPIC" : "API", version: traffic ? "3.5" : kind === "oldest" ? "DATEXII_2_2_3" : more === "3.7" ? "DATEXII_3_7" : "DATEXII_3_5", type: traffic ? RTTI : kind === "signs" ? META : VMS, data: text, status: kind === "done" ? "PROCESSED" : "NEW", created_at: new S.world.Date(NOW - 60000 + i * 1000) });
      });
      w.incoming = backwards ? [...incoming].reverse() : incoming;
      const db = setup(S, w);
      stub(S, docs);
      const queue = sorts.some((s) => s.startsWith("traffic")) ? S.bool("queue") : true;
      Object.assign(S.world.process.env, queue ? { MQTT_QUEUE_URL: "mqtt" } : {});
      const fail = S.choose("failing", ["nothing", "S1", "queue"]);
      if (fail === "queue") w.queueFails = true;
      if (fail === "S1") db.failing = ({ text, params }) => /device_data_datex2/.test(text) && (params ?? [])[0] === "S1" && (params ?? [])[2] === "CONTROLLER_STATUS";
      const { handler } = S.load(P + "lambda/handle-new-messages/handle-new-messages.ts");
      const r = await S.settle(() => handler());
      if (r.error) S.fail("kept messages are gone through");
      const want = [], told = [];
      let s1 = "old", s1at = 0;
      sorts.forEach((s, i) => {
        const row = w.tables.data_incoming.rows.find((x) => x.data_id === i + 1);
        const bad = s.endsWith("unreadable") || s === "oldest cut off";
        S.assert(row && row.status === (bad ? "FAILED" : "PROCESSED"), "a message is marked by its outcome");
        if (s === "done") { S.reach("left"); return; }
        if (bad) { S.reach("failed"); return; }
        S.reach("stored");
        const dev = (id, version, type, datex2, at) => { const k = want.findIndex((x) => x[0] === id && x[1] === version && x[2] === type); if (k >= 0) { want.splice(k, 1); S.reach("newest counts"); } want.push([id, version, type, datex2, at]); };
        if (s.startsWith("status")) {
          const v = s.endsWith("3.5") ? "DATEXII_3_5" : "DATEXII_3_7", at = NOW - 1000 * (9 - i);
          if (fail === "S1") S.reach("one part not stored");
          else { dev("S1", v, "CONTROLLER_STATUS", `<vms:vmsControllerStatus>${i}0`, at); if (v === "DATEXII_3_5") s1 = "replaced"; }
          dev("T" + i, v, "CONTROLLER_STATUS", `<vms:vmsControllerStatus>${i}1`, at);
        } else if (s === "signs 3.5") dev("S1", "DATEXII_3_5", "CONTROLLER", `<vms:vmsController>s${i}`, NOW);
        else if (s === "oldest") dev("O" + i, "DATEXII_2_2_3", "SITUATION", incoming[i].data.slice(3, -4), NOW);
        else told.push(["R" + i, incoming[i].data, s === "traffic srti"]);
      });
      if (s1 === "old") want.push(["S1", "DATEXII_3_5", "CONTROLLER_STATUS", "old", 0]); else S.reach("replaced");
      const rows = w.tables.device_data_datex2.rows;
      S.assert(rows.length === want.length && want.every(([id, v, type, datex2, at]) => rows.some((x) => x.device_id === id && x.version === v && x.type === type && x.datex2 === datex2 && time(S, x.effect_date) === at)), "each sign has the content it was given last");
      const rtti = w.tables.datex2_rtti.rows;
      S.assert(rtti.length === told.length && told.every(([id, text, srti]) => rtti.some((x) => x.situation_id === id && x.message === text && x.is_srti === srti && time(S, x.start_time) === NOW - 5000 && (srti ? (x.end_time ?? undefined) === undefined : time(S, x.end_time) === NOW + 5000))), "each traffic message is stored word for word, with its times and class");
      if (queue && fail !== "queue") { S.assert(w.sent.every((m) => m.QueueUrl === "mqtt") && w.sent.map((m) => JSON.parse(m.MessageBody).id).sort().join() === told.map((t) => t[0]).sort().join(), "and told of once"); if (told.length) S.reach("told"); }
      else S.assert(w.sent.length === 0, "nothing else is told");
    },
  },
  published: {
    bounds: "up to 2 told messages of either class with symbolic contents of 0..2 characters, 5 addresses, connecting or any publishing failing, an unreadable notice",
    reach: ["published", "other class", "not found", "not connected", "publishing failed", "address refused"],
    async run(S) {
      const stored = [];
      const w = { answers: (text, params) => { if (/datex2_rtti/.test(text) && /distinct on/i.test(text)) { w.ids = params[0]; return stored.filter((x) => params[0].includes(x.id)).map((x) => ({ message: x.message, is_srti: x.srti })); } } };
      setup(S, w);
      const n = S.choose("n", [0, 1, 2]);
      for (let i = 0; i < n; i++) stored.push({ id: "R" + i, message: "<s>" + S.str("content" + i, [0, 2], "$&'`"), srti: S.bool("srti" + i) });
      const [url, host, port, protocol] = S.choose("url", n === 1 ? [["mqtts://broker.example.com:8883", "broker.example.com", 8883, "mqtts"], ["tcp://broker", "broker", 1883, "tcp"], ["wss://broker.example.com:9001/x", "broker.example.com", 9001, "wss"], ["http://broker:1883"], ["nothing"]] : [["mqtts://broker.example.com:8883", "broker.example.com", 8883, "mqtts"]]);
      const fail = n ? S.choose("failing", ["nothing", "connect", 0, 1]) : "nothing";
      const clients = [];
      S.stub("mqtt", { __esModule: true, connectAsync: async (o) => {
        await null;
        if (fail === "connect") throw new Error("no broker");
        const c = { o, out: [], ended: 0, publishAsync: async (topic, text) => { await null; if (c.ended) S.fail("nothing is published after closing"); if (fail === c.out.length) { c.out.push(undefined); throw new Error("lost"); } c.out.push([topic, text]); }, endAsync: async () => { await null; c.ended++; } };
        clients.push(c);
        return c;
      } });
      S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: { create: (id) => ({ get: async () => { await null; return { username: "user", password: "hush", url }; } }) } });
      const { handler } = S.load(P + "lambda/send-mqtt/send-mqtt.ts");
      const r = await S.settle(() => handler({ Records: [0, 1].map((i) => ({ body: JSON.stringify({ id: "R" + i }) })) }));
      S.assert(!r.error, "notices are gone through");
      S.assert(w.ids && w.ids.length === 2 && w.ids.includes("R0") && w.ids.includes("R1"), "what was told of is looked for");
      if (!n) { S.reach("not found"); S.assert(clients.length === 0, "nothing to publish, nothing connected to"); return; }
      if (!host) { S.reach("address refused"); S.assert(clients.length === 0, "only brokers are connected to"); return; }
      if (fail === "connect") { S.reach("not connected"); S.assert(clients.length === 0, "no connection"); return; }
      S.assert(clients.length === 1, "one connection");
      const c = clients[0];
      if (!c) return;
      S.assert(c.o.host === host && c.o.port === port && c.o.protocol === protocol && c.o.username === "user" && c.o.password === "hush", "as configured");
      S.assert(c.ended === 1, "it is closed");
      const lost = typeof fail === "number" && fail < n;
      if (lost) { S.reach("publishing failed"); return; }
      S.assert(c.out.length === n, "each is published once");
      const { sendMqttUpdates } = S.load(P + "service/mqtt-sending-service.ts");
      const before = [...stored];
      stored.splice(0, stored.length, { id: "R0", message: "MARKED", srti: false });
      if (fail === "nothing") {
        await S.settle(() => sendMqttUpdates(url, "user", "hush", ["R0"]));
        const ref = clients[1]?.out[0]?.[1];
        if (typeof ref !== "string" || ref.split("MARKED").length !== 2 || !ref.includes(iso(NOW))) S.fail("a message is published once, with the time");
        const [a, b] = ref.split("MARKED");
        before.forEach((x, i) => {
          const [topic, text] = c.out[i] ?? [];
          S.assert(S.eq(text, a + x.message + b), "word for word");
          S.assert(S.eq(topic, "traffic-message-v3/traffic-data/datex2-3.5/" + (S.decide(x.srti) ? "SRTI" : "RTTI")), "to the subscribers of its class");
          S.reach(S.decide(x.srti) ? "other class" : "published");
        });
      }
    },
  },
};
