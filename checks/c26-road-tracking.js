import { quiet, connections } from "./_util.js";
import { database, sessions } from "./_sql.js";
const P = "road/maintenance-tracking/src/";
export const property = {
  id: "C26",
  title: "Road maintenance reports: queued verbatim, stored once, cleaned safely",
  statement: "A road maintenance report with readable JSON is queued exactly once, letter by letter, before it is answered with 200; an empty or unreadable one, or one the queue refuses, is answered with 400. Each message of a batch is handled on its own: its observations are stored all or none, each distinct observation once over all messages, with its own times, machine, contract and sending system, and only messages that are empty, unreadable or not stored are reported as failed; dead letters are kept, each under its own name. Cleaning removes exactly the trackings that ended before the limit, are not the one before a kept tracking and are not the newest of their domain, and leaves no dangling reference.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "symbolic bodies, machine and contract numbers and times, batches of up to 3 messages failing at any statement, tables of up to 3 symbolic trackings" },
  why_tests_cant: "The tests need a database, use one example message and never fail a statement in the middle.",
  anchors: {
    files: [P + "lambda/update-queue/update-queue.ts", P + "lambda/process-queue/process-queue.ts", P + "service/maintenance-tracking.ts", P + "service/sqs-big-payload.ts", P + "dao/maintenance-tracking-dao.ts", P + "lambda/process-dlq/process-dlq.ts"],
    mechanism: [{ name: "handlerFn", where: P + "lambda/update-queue/update-queue.ts" }, { name: "handleMessage, cleanMaintenanceTrackingData", where: P + "service/maintenance-tracking.ts" }, { name: "createSqsReceiveMessageCommandOutput", where: P + "service/sqs-big-payload.ts" }],
    observe_at: "answers, messages handed to the queue's client, and the rows of a small database that carries out the statements sent to it",
  },
  assumptions: ["the digest of a text is taken to be different for different texts", "the library that fetches big messages gives back the messages it is given with their bodies", "the SQL means what the harness's small interpreter makes of it; the age of the oldest tracking is answered by the harness, rounded as the statement says"],
};
const world = (S) => {
  const env = { SECRET_ID: "s", SQS_BUCKET_NAME: "bucket", SQS_QUEUE_URL: "url", AWS_REGION: "eu", SQS_DLQ_BUCKET_NAME: "dlq" };
  Object.assign(S.world.process.env, env);
  quiet(S);
  connections(S);
  S.stub("node:crypto", { default: { createHash: (a) => { let all = ""; return { update(t) { all = all + t; return this; }, digest: (e) => `${a}/${e}:` + all }; } }, __esModule: true });
  const ext = { send: async () => ({}), receive: (x) => x };
  S.stub("sqs-extended-client", { default: class { constructor(o) { ext.options = o; } sendMessage(c) { return ext.send(c); } async _processReceive(o) { await null; return ext.receive(o); } }, __esModule: true });
  return ext;
};
const tables = (S) => sessions(S, database(S, {
  maintenance_tracking_observation_data: { cols: ["id", "observation_time", "sending_time", "json", "harja_workmachine_id", "harja_contract_id", "sending_system", "status", "hash", "s3_uri"], required: ["observation_time", "sending_time", "json", "harja_workmachine_id", "harja_contract_id", "sending_system", "status", "hash"], unique: [["hash"]], rows: [] },
}));
const TABLE = "maintenance_tracking_observation_data";
const SENT = "2024-05-01T10:00:00Z";
const obs = (machine, contract, time) => ({ havainto: { tyokone: { id: machine, tyokonetyyppi: "aura" }, urakkaid: contract, havaintoaika: time, sijainti: { koordinaatit: { x: 1.5, y: 2 } } } });
export const harnesses = {
  intake: {
    bounds: "empty, readable and unreadable bodies with up to 2 symbolic characters, non-ASCII text, a queue that accepts or fails late",
    reach: ["queued", "refused", "queue fails", "empty"],
    async run(S) {
      const ext = world(S);
      const { handlerFn } = S.load(P + "lambda/update-queue/update-queue.js");
      const kind = S.choose("body", ["json", "spaced", "unicode", "unreadable", "null", "empty", "missing"]);
      const c = S.str("c", [1, 2], "a-z ");
      const body = { json: `{"otsikko":{"a":"${c}"},"havainnot":[]}`, spaced: ` {"a" :  "${c}"}\n`, unicode: `{"a":"ä😀${c}"}`, unreadable: `{"a":"${c}"`, null: null, empty: "", missing: undefined }[kind];
      const fails = S.choose("queue", ["accepts", "fails", "throws"]);
      const cause = new Error("queue is full");
      const sent = []; let taken = 0;
      ext.send = fails === "throws" ? (x) => { sent.push(x); throw cause; } : async (x) => { sent.push(x); await null; if (fails === "fails") throw cause; taken++; return { MessageId: "1" }; };
      const r = await S.settle(() => handlerFn({ sendMessage: (x) => ext.send(x) })({ body }));
      const readable = kind === "json" || kind === "spaced" || kind === "unicode";
      if (!body) S.reach("empty");
      if (!readable) {
        S.reach("refused");
        S.assert(sent.length === 0, "what cannot be read is not queued");
        S.assert(r.error && r.error.statusCode === 400 && typeof r.error.body === "string", "what cannot be read is refused");
        return;
      }
      S.assert(sent.length === 1 && sent[0].QueueUrl === "url" && S.eq(sent[0].MessageBody, body), "a report is queued once, as it came");
      if (fails !== "accepts") { S.reach("queue fails"); S.assert(r.error && r.error.statusCode === 400, "a failing queue is told"); return; }
      S.reach("queued");
      S.assert(taken === 1 && !r.error && r.value.statusCode === 200 && r.value.body === "OK", "it is answered with 200 after it is queued");
    },
  },
  envelope: {
    bounds: "0..2 records with up to 2 attributes of any type and value",
    reach: ["attribute kept", "attribute left out"],
    async run(S) {
      world(S);
      const { createSqsReceiveMessageCommandOutput, createExtendedSqsClient } = S.load(P + "service/sqs-big-payload.js");
      const n = S.choose("n", [0, 1, 2]);
      const expected = [];
      const Records = Array.from({ length: n }, (_, i) => {
        const messageAttributes = {}, want = {};
        for (const name of ["S3MessageBodyKey", "other"].slice(0, S.choose("attributes" + i, i ? [0, 1] : n === 1 ? [0, 1, 2] : [1]))) {
          const dataType = S.choose(`type ${i}${name}`, i ? ["String", "Binary"] : ["String", "string", "Number", "Binary"]), stringValue = S.choose(`has ${i}${name}`, [true, false]) ? S.str(`v${i}${name}`, [0, 2], "a-z()") : undefined;
          messageAttributes[name] = { dataType, stringValue };
          if ((dataType === "String" || dataType === "string") && stringValue !== undefined && S.decide(stringValue.length > 0)) { want[name] = { StringValue: stringValue, DataType: "String" }; S.reach("attribute kept"); } else S.reach("attribute left out");
        }
        const body = S.str("body" + i, i ? 2 : [0, 2], "a-z");
        expected.push({ MessageId: "m" + i, ReceiptHandle: "r" + i, Body: body, MessageAttributes: want });
        return { messageId: "m" + i, receiptHandle: "r" + i, md5OfBody: "d" + i, body, messageAttributes, attributes: {} };
      });
      const r = createSqsReceiveMessageCommandOutput({ Records });
      S.assert(r.Messages.length === n, "every record becomes one message");
      r.Messages.forEach((m, i) => { for (const k of ["MessageId", "ReceiptHandle", "Body", "MessageAttributes"]) S.assert(S.eq(m[k], expected[i][k]), "messages keep their identity, body and text attributes"); });
      createExtendedSqsClient();
    },
  },
  batch: {
    bounds: "1..3 messages, each fine, empty, unreadable, incomplete or failing in the database; the list of messages missing or empty",
    reach: ["reported", "all fine", "no messages", "empty batch"],
    async run(S) {
      const ext = world(S);
      const db = tables(S);
      const { handlerFn } = S.load(P + "lambda/process-queue/process-queue.js");
      const n = S.choose("n", [0, 1, 2, 3]);
      const kinds = Array.from({ length: n }, (_, i) => S.choose("m" + i, i === 2 ? ["fine", "fails"] : ["fine", "empty", "unreadable", "no header", "no observations", "fails"]));
      const body = (k, i) => k === "empty" ? S.choose("empty" + i, ["", undefined]) : k === "unreadable" ? "{" : JSON.stringify({ ...(k !== "no header" && { otsikko: { lahettaja: { jarjestelma: k === "fails" ? "fails" : "sys" + i }, lahetysaika: SENT } }), ...(k !== "no observations" && { havainnot: [obs(10 + i, 20 + i, SENT)] }) });
      db.failing = (s) => s.kind === "insert" && s.params.sendingSystem === "fails";
      const lost = n > 0 && n < 2 && S.choose("messages", ["given", "undefined"]) === "undefined";
      ext.receive = (o) => (lost ? { ...o, Messages: undefined } : o);
      const client = { _processReceive: async (o) => { await null; return ext.receive(o); } };
      const r = await S.settle(() => handlerFn(client)({ Records: kinds.map((k, i) => ({ messageId: String(i), body: body(k, i), messageAttributes: {} })) }));
      if (n === 0) { S.reach("empty batch"); S.assert(r.error !== undefined, "a batch without messages is an error"); return; }
      if (lost) { S.reach("no messages"); S.assert(!r.error && r.value.length === 0, "nothing is handled when nothing is given"); return; }
      S.assert(!r.error && r.value.length === n, "every message has an outcome");
      kinds.forEach((k, i) => S.assert((r.value[i].status === "fulfilled") === (k === "fine"), "only messages that are empty, unreadable or not stored are reported"));
      S.reach(kinds.every((k) => k === "fine") ? "all fine" : "reported");
      const got = db.tables[TABLE].rows.map((x) => x.harja_workmachine_id);
      S.assert(S.eq([...got].sort((a, b) => a - b), kinds.map((k, i) => [k, 10 + i]).filter(([k]) => k === "fine").map(([, i]) => i)), "the good messages are stored");
      S.assert(db.sessions.every((s) => !s.open), "the session is over when the answer is given");
    },
  },
  observations: {
    bounds: "one earlier and two new observations (in one or two messages) with symbolic machines and contracts 0..2, times of two, any statement failing",
    reach: ["stored", "already there", "failed", "unknown system"],
    async run(S) {
      world(S);
      const db = tables(S);
      const { handleMessage } = S.load(P + "service/maintenance-tracking.js");
      const system = S.choose("system", ["SYS", undefined, null]);
      const times = ["2024-05-01T09:00:00Z", "2024-05-01T09:00:00.250+03:00"];
      const make = (i) => ({ m: S.int("machine" + i, 0, 2), c: S.int("contract" + i, 0, 2), t: S.choose("time" + i, i === 1 ? [0] : [0, 1]) });
      const list = [0, 1, 2].map(make);
      const msg = (xs) => ({ otsikko: { lahettaja: { jarjestelma: system }, lahetysaika: SENT, viestintunniste: { id: 5 } }, havainnot: xs.map((o) => obs(o.m, o.c, times[o.t])) });
      const first = await S.settle(() => handleMessage(msg(list.slice(0, 1))));
      S.assert(!first.error, "a message is stored");
      const table = db.tables[TABLE];
      const before = [...table.rows];
      const cause = new Error("disk full");
      const failAt = S.choose("fails at", [undefined, 1, 2]);
      let seen = 0;
      if (failAt) { db.failing = (s) => s.kind === "insert" && ++seen === failAt; db.failing.error = cause; }
      const r = await S.settle(() => handleMessage(msg(list.slice(1))));
      if (failAt) { S.reach("failed"); S.assert(r.error === cause && S.eq(table.rows, before), "a message is stored as a whole or not at all"); return; }
      S.assert(!r.error, "a message is stored");
      const distinct = [];
      for (const o of list) if (!distinct.some((d) => d.t === o.t && S.decide(S.and(S.eq(d.m, o.m), S.eq(d.c, o.c))))) distinct.push(o);
      if (distinct.length < 3) S.reach("already there"); else S.reach("stored");
      S.assert(table.rows.length === distinct.length, "every distinct observation is stored once");
      if (system === undefined || system === null) S.reach("unknown system");
      table.rows.forEach((row, i) => {
        const o = distinct[i];
        S.assert(S.and(S.eq(row.harja_workmachine_id, o.m), S.eq(row.harja_contract_id, o.c)), "a row has the machine and contract of its observation");
        S.assert(row.observation_time.getTime() === Date.parse(times[o.t]) && row.sending_time.getTime() === Date.parse(SENT), "a row has the times of its observation and message");
        S.assert(row.sending_system === (system ?? "UNKNOWN") && row.status === "UNHANDLED", "a row tells who sent it and waits to be handled");
        S.assert(S.eq(JSON.parse(row.json), obs(o.m, o.c, times[o.t]).havainto), "a row has the observation as it came");
      });
      const ids = table.rows.map((x) => x.id);
      S.assert(ids.every((x, i) => ids.every((y, j) => i === j || x !== y)), "rows have their own numbers");
    },
  },
  alike: {
    bounds: "two observations whose machine type and place (symbolic texts of one or two letters of any case or blanks, numbers) may differ in a single thing, in one message",
    reach: ["one", "two"],
    async run(S) {
      world(S);
      const db = tables(S);
      const { handleMessage } = S.load(P + "service/maintenance-tracking.js");
      const differ = S.choose("differ", ["type", "place", "kind", "further field"]);
      const make = (i) => {
        const o = obs(1, 2, SENT);
        const h = o.havainto;
        if (differ === "type") h.tyokone.tyokonetyyppi = "a" + S.str("type" + i, [1, 2], "aAbB ");
        if (differ === "place") h.sijainti.koordinaatit.x = S.int("x" + i, -20, 20);
        if (differ === "kind") h.suoritettavatTehtavat = S.choose("tasks" + i, [["a"], ["a", "b"], ["b", "a"], [], ["A"], ["a,b"]]);
        if (differ === "further field") { const v = S.choose("more" + i, [undefined, null, "", 0, false]); if (v !== undefined) h.suunta = v; }
        return o;
      };
      const list = [0, 1].map(make);
      const r = await S.settle(() => handleMessage({ otsikko: { lahettaja: { jarjestelma: "SYS" }, lahetysaika: SENT, viestintunniste: { id: 5 } }, havainnot: list }));
      S.assert(!r.error, "a message is stored");
      const same = S.decide(S.eq(JSON.stringify(list[0].havainto), JSON.stringify(list[1].havainto)));
      S.reach(same ? "one" : "two");
      const rows = db.tables[TABLE].rows;
      S.assert(rows.length === (same ? 1 : 2), "every distinct observation is stored once");
      rows.forEach((row, i) => S.assert(S.eq(row.json, JSON.stringify(list[i].havainto)), "a row has the observation as it came"));
    },
  },
  digest: {
    bounds: "two messages with symbolic numbers, the message number and spacing changed freely",
    reach: ["same", "different"],
    async run(S) {
      world(S);
      const { createMaintenanceTrackingMessageHash: h } = S.load(P + "service/maintenance-tracking.js");
      const doc = (i) => { const id = S.int("id" + i, 0, 120), v = S.int("v" + i, 0, 12); return { v, text: `{"otsikko":{"viestintunniste":${i ? " " : ""}{ "id" :${id}},"lahetysaika":"x"},"havainnot":[${v}]}` }; };
      const a = doc(0), b = doc(1);
      const same = S.decide(S.eq(a.v, b.v));
      S.reach(same ? "same" : "different");
      S.assert(S.iff(S.eq(h(a.text), h(b.text)), same), "messages are the same exactly when they differ in their number only");
    },
  },
  cleaning: {
    bounds: "3 trackings of symbolic ages 0..2.5 h (2 of 0..5.5 h) in half hours, two domains, any earlier tracking of the same domain, the limit 1 and 3 h, any statement failing",
    reach: ["removed", "kept as previous", "newest kept", "nothing old", "failed", "empty"],
    async run(S) {
      world(S);
      const now = 1714550000000;
      S.world.time = now;
      const n = S.choose("n", [0, 2, 3]);
      const rows = Array.from({ length: n }, (_, i) => ({ id: i, age: S.int("age" + i, 0, n === 2 ? 11 : 5), domain: i === 0 ? "a" : S.choose("domain" + i, ["a", "b"]), created: new Date(now - 1000 * (10 - i)), previous: i === 0 ? null : S.choose("previous" + i, [null, ...Array.from({ length: i }, (_, j) => j)]) }));
      S.assume(rows.every((r) => r.previous === null || rows[r.previous].domain === r.domain));
      const half = 1800000;
      const asRow = (r) => ({ id: r.id, end_time: new S.world.Date(now - r.age * half - 1), created: r.created, domain: r.domain, previous_tracking_id: r.previous });
      const table = { cols: ["id", "end_time", "created", "domain", "previous_tracking_id"], rows: rows.map(asRow) };
      const answers = (text) => {
        if (!/EXTRACT\s*\(\s*EPOCH/i.test(text)) return undefined;
        if (!/round\s*\(\s*EXTRACT\s*\(\s*EPOCH\s+FROM\s+\(\s*now\(\)\s*-\s*min\(\s*end_time\s*\)\s*\)\s*\)\s*\/\s*60\s*\/\s*60\s*\)\s+AS\s+hours\s+from\s+maintenance_tracking\s*;?\s*$/i.test(text)) return undefined;
        let oldest; for (const r of rows) if (oldest === undefined || S.decide(r.age > oldest)) oldest = r.age;
        // an hour is two halves, and the extra millisecond takes a half up
        return [{ hours: oldest === undefined ? null : Math.floor((oldest + 1) / 2) }];
      };
      const db = sessions(S, database(S, { maintenance_tracking: table }, { answers }));
      const { cleanMaintenanceTrackingData } = S.load(P + "service/maintenance-tracking.js");
      const keep = S.choose("hours", n === 2 ? [1, 3] : [1]);
      const failAt = n === 2 ? S.choose("fails", [undefined, "update", "delete"]) : undefined;
      const cause = new Error("no");
      if (failAt) { db.failing = (s) => s.kind === failAt; db.failing.error = cause; }
      const before = db.tables.maintenance_tracking.rows.map((r) => ({ ...r }));
      const r = await S.settle(() => cleanMaintenanceTrackingData(keep));
      const after = db.tables.maintenance_tracking.rows;
      if (!n) { S.reach("empty"); S.assert(!r.error && after.length === 0, "an empty table needs no cleaning"); return; }
      const old = rows.map((x) => S.decide(x.age >= 2 * keep));
      if (!old.some((x) => x)) { S.reach("nothing old"); S.assert((failAt ? !r.error || r.error === cause : !r.error) && S.eq(after, before), "nothing is touched when nothing is old"); return; }
      if (failAt) { S.reach("failed"); S.assert(r.error === cause && S.eq(after, before), "a failed cleaning changes nothing"); return; }
      S.assert(!r.error, "cleaning succeeds");
      const gone = rows.filter((x, i) => {
        if (!old[i]) return false;
        if (rows.some((y, j) => !old[j] && y.previous === x.id)) { S.reach("kept as previous"); return false; }
        if (!rows.some((y) => y.domain === x.domain && y.id > x.id)) { S.reach("newest kept"); return false; }
        return true;
      });
      if (gone.length) S.reach("removed");
      S.assert(S.eq(after.map((x) => x.id), rows.filter((x) => !gone.includes(x)).map((x) => x.id)), "exactly the old trackings nobody needs are removed");
      after.forEach((x) => {
        S.assert(x.previous_tracking_id === null || after.some((y) => y.id === x.previous_tracking_id), "no tracking refers to a removed one");
        S.assert(old[x.id] || x.previous_tracking_id === rows[x.id].previous, "kept trackings still know the one before");
      });
    },
  },
  "dead letters": {
    bounds: "0..3 messages with symbolic bodies, the upload of any failing",
    reach: ["kept", "failed"],
    async run(S) {
      world(S);
      S.stub("@aws-sdk/client-s3", { S3Client: class {} });
      const put = []; const bad = S.choose("fails", [undefined, 0, 1]);
      const cause = new Error("no bucket");
      S.stub("lib/digitraffic-common/src/aws/runtime/s3", { uploadToS3: async (c, bucket, body, name) => { await null; if (put.length === bad) { put.push(null); throw cause; } put.push({ bucket, body, name }); } });
      const { handler } = S.load(P + "lambda/process-dlq/process-dlq.js");
      const n = S.choose("n", [0, 1, 2, 3]);
      const bodies = Array.from({ length: n }, (_, i) => S.str("b" + i, [0, 2], "a-z"));
      const r = await S.settle(() => handler({ Records: bodies.map((body) => ({ body })) }));
      if (bad !== undefined && bad < n) { S.reach("failed"); S.assert(r.error === cause, "a failing upload is told"); return; }
      S.reach("kept");
      S.assert(!r.error && put.length === n, "every dead letter is kept when the answer is given");
      put.forEach((p, i) => S.assert(p.bucket === "dlq" && put.every((q, j) => i === j || q.name !== p.name), "each under its own name"));
      bodies.forEach((b) => S.assert(S.decide(S.or(...put.map((p) => S.eq(p.body, b)))), "as it came"));
    },
  },
};
