import { LIB, quiet } from "./_util.js";
import { cdkRecorder } from "./_cdk.js";
export const property = {
  id: "C20",
  title: "Queues keep failed messages, and everything scheduled or routed arrives",
  statement: "Every queue is encrypted and named after its stack, and unless it brings its own or is ordered, its failing messages go after two attempts to a dead letter queue that warns about any message and writes each of them unchanged, under its own name, into a closed bucket with a valid name that differs for different queues. A message that could not be written is not lost: the handler fails, so that the message stays in the queue. End points that feed a queue accept exactly the described requests and may only send to that queue, schedules run at their interval and only the given function, and security findings that are new, failed and severe are passed on.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "queue and stack names that give bucket names of any length around the limit, batches of 0..3 messages with any bodies of up to 2 characters, any of the writes failing, any interval" },
  why_tests_cant: "The tests check the names of a few buckets and that the handler of the dead letter queue compiles; it is never run, let alone with failing writes.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/sqs-queue.ts", "lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts", "lib/digitraffic-common/src/aws/infra/sqs-integration.ts", "lib/digitraffic-common/src/aws/infra/scheduler.ts", "lib/digitraffic-common/src/aws/infra/security-rule.ts"],
    mechanism: [{ name: "DigitrafficSqsQueue, DigitrafficDLQueue", where: "lib/digitraffic-common/src/aws/infra/sqs-queue.ts" }, { name: "getDlqCode, sanitizeS3BucketName", where: "lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts" }, { name: "attachQueueToApiGatewayResource", where: "lib/digitraffic-common/src/aws/infra/sqs-integration.ts" }],
    observe_at: "what is given to the infrastructure library, and the writes of the generated handler",
  },
  assumptions: ["the digest is a stand-in that gives different values for different names, in the form of a SHA-256 digest", "the names of stacks and queues have at least three letters or digits", "a failed batch is delivered again"],
};
const I = LIB + "aws/infra/";
const S3 = "@aws-sdk/client-s3";
// a digest in the right form, different for every text
function digests() {
  const seen = [];
  return { createHash: (alg) => ({ update(t) { this.t = t; return this; }, digest(enc) {
    if (alg !== "sha256" || enc !== "hex") throw new Error("digest " + alg + " " + enc);
    let i = seen.findIndex((x) => x === this.t);
    if (i < 0) i = seen.push(this.t) - 1;
    return (String(i + 1) + "0123456789abcdef").slice(0, 8).padEnd(64, "f");
  } }) };
}
function stackOf(S, cdk, name = "TheStack", production = false) {
  const { DigitrafficStack } = S.load(I + "stack/stack.js");
  const st = new DigitrafficStack(cdk.make("aws-cdk-lib", "App"), name, { shortName: "Foo", production, trafficType: null, stackProps: {} });
  return st;
}
const defs = () => ({
  props: { Function: { functionName: (self) => self.$props?.functionName }, Queue: { queueName: (self) => self.$props?.queueName, queueArn: (self) => "arn:" + self.$props?.queueName, fifo: (self) => self.$props?.fifo ?? /\.fifo$/.test(self.$props?.queueName ?? "") }, Bucket: { bucketName: (self) => self.$props?.bucketName, bucketArn: (self) => "arn:" + self.$props?.bucketName } },
  methods: { Queue: { metricNumberOfMessagesReceived: (self, props) => ({ createAlarm: (scope, id, p) => cdkOf.cdk.make("aws-cdk-lib/aws-cloudwatch", "Alarm", scope, id, { ...p, metric: { of: self, name: "Received", ...props } }) }), metricApproximateNumberOfMessagesVisible: (self, props) => ({ createAlarm: (scope, id, p) => cdkOf.cdk.make("aws-cdk-lib/aws-cloudwatch", "Alarm", scope, id, { ...p, metric: { of: self, name: "Visible", ...props } }) }) } },
});
const cdkOf = {};
const record = (S, more) => (cdkOf.cdk = cdkRecorder(S, { ...defs(), ...more }));
const stubCode = (S) => S.stub("aws/infra/sqs-queue-internal", { ...S.load(I + "sqs-queue-internal.js"), getDlqCode: (bucket) => ({ $code: bucket }) });
export const harnesses = {
  names: {
    bounds: "names of 3..4 (thorough: 5) printable characters; names of 60..66 characters with up to 2 symbolic ones at the start, the cut and the end; pairs of long names",
    reach: ["short", "long", "pair"],
    budgetMs: 250000,
    async run(S) {
      quiet(S);
      record(S);
      S.stub("node:crypto", digests());
      const { sanitizeS3BucketName: f } = S.load(I + "sqs-queue-internal.js");
      const valid = (s) => {
        const n = S.len(s);
        let ok = n <= 63;
        for (let i = 0; i < n; i++) {
          const c = s.charCodeAt(i), alnum = S.or(S.and(c >= 97, c <= 122), S.and(c >= 48, c <= 57));
          ok = S.and(ok, i === 0 || i === n - 1 ? alnum : S.or(alnum, c === 45));
        }
        return ok;
      };
      const kind = S.choose("kind", ["short", "long", "pair"]);
      S.reach(kind);
      if (kind === "short") {
        const a = S.str("name", [1, S.thorough ? 3 : 2], " -~");
        const name = S.choose("before", [true, false]) ? "Ab1" + a : a + "Ab1";
        const r = f(name);
        S.assert(valid(r), "the name is valid");
        S.assert(S.len(r) >= 3, "and long enough");
        S.assert(S.eq(f(name), r), "the name is always the same");
        // letters, digits and single inner dashes are kept
        let plain = true;
        const n = S.len(name);
        for (let i = 0; i < n; i++) { const c = name.charCodeAt(i); plain = S.and(plain, S.or(S.and(c >= 97, c <= 122), S.and(c >= 48, c <= 57), S.and(c >= 65, c <= 90))); }
        S.assert(S.implies(plain, S.eq(r, name.toLowerCase())), "valid characters are kept");
      } else {
        const len = S.choose("len", [60, 63, 64, 66, 70]), at = S.choose("at", [0, 52, 53, 54, 55, 58, 61]);
        const body = "abcdefghij".repeat(8).slice(0, len);
        const s = S.str("two", 2, "a-_Z");
        const name = body.slice(0, at) + s + body.slice(at + 2);
        const r = f(name);
        S.assert(valid(r), "the name is valid");
        if (kind === "pair") {
          const t = S.str("other", 2, "aZ"), other = body.slice(0, at) + t + body.slice(at + 2);
          const q = f(other);
          if (len > 63 && S.decide(S.and(S.len(r) > 60, S.len(q) > 60))) S.assert(S.implies(S.not(S.eq(name, other)), S.not(S.eq(r, q))), "different long names give different buckets");
        }
      }
    },
  },
  handler: {
    bounds: "batches of 0..3 messages with bodies of 0..2 characters, any of the writes failing at once or later, any time, two batches in a row",
    reach: ["written", "failed", "empty"],
    async run(S) {
      const sent = [], bucket = S.choose("bucket", ["my-bucket", "${Token[TOKEN.12]}"]);
      const code = S.generate(I + "sqs-queue-internal.js", { "node:crypto": { createHash() {} }, [S3]: {}, "aws-lambda/aws-lambda": {}, "aws-cdk-lib/aws-lambda": { InlineCode: class { constructor(t) { this.text = t; } } }, "dt-logger-default.js": { logger: {} } }, "getDlqCode", bucket);
      S.assert(code.text.length <= 4096, "the code fits in the template");
      const m = S.script(code.text, I + "sqs-queue-internal.ts", (spec) => (spec === S3 || spec === "node:" + S3 ? {
        PutObjectCommand: class { constructor(p) { this.input = p; } },
        S3Client: class {
          async send(c) {
            const at = sent.length, e = { input: c.input, failed: fails[at] };
            sent.push(e);
            if (S.choose("late" + at, [true, false])) await new Promise((r) => setTimeout(r, 10 + at));
            e.done = true;
            if (e.failed) throw new Error("no such bucket");
            return {};
          }
        },
      } : S.gap("require " + spec)));
      const n = S.choose("n", [0, 1, 2, 3]);
      const fails = Array.from({ length: n + 1 }, (_, i) => i < n && S.choose("fails" + i, [false, true]));
      const bodies = Array.from({ length: n }, (_, i) => S.str("body" + i, [0, i ? 1 : 2], " -~ä"));
      const event = { Records: bodies.map((body, i) => ({ messageId: "m" + i, body, receiptHandle: "r" })) };
      const out = await S.settle(() => m.handler(event, {}, () => {}));
      const started = sent.slice();
      S.assert(started.length === n, "each message is written once");
      started.forEach((e) => S.assert(e.input.Bucket === bucket, "into the bucket"));
      for (const b of bodies) S.assert(S.or(...started.map((e) => S.eq(e.input.Body, b))), "unchanged");
      started.forEach((e, i) => S.assert(S.eq(e.input.Body, bodies[i]), "in order"));
      const keys = started.map((e) => e.input.Key);
      for (let i = 0; i < n; i++) for (let j = 0; j < i; j++) S.assert(S.not(S.eq(keys[i], keys[j])), "under its own name");
      if (!n) S.reach("empty");
      if (fails.some((x) => x)) { S.reach("failed"); S.assert(out.error !== undefined, "a message that was not written stays in the queue"); }
      else {
        S.assert(!out.error, "written messages leave the queue");
        S.assert(started.every((e) => e.done), "after they have been written");
        if (n) S.reach("written");
        // later batches do not replace the messages
        const later = S.int("later", 1, 100000);
        await new Promise((r) => setTimeout(r, later));
        sent.length = 0;
        const again = await S.settle(() => m.handler({ Records: [{ messageId: "x", body: "later" }] }, {}, () => {}));
        S.assert(!again.error && sent.length === 1, "further messages are written");
        for (const k of keys) S.assert(S.not(S.eq(k, sent[0].input.Key)), "without replacing earlier ones");
      }
    },
  },
  queues: {
    bounds: "plain, ordered and dead letter queues with and without own properties, in and outside production; any number of received messages",
    reach: ["own", "default", "fifo"],
    async run(S) {
      quiet(S);
      const cdk = record(S);
      stubCode(S);
      const { DigitrafficSqsQueue, DigitrafficDLQueue } = S.load(I + "sqs-queue.js");
      const production = S.choose("production", [true, false]);
      const stack = stackOf(S, cdk, "TheStack", production);
      const Duration = cdk.module("aws-cdk-lib").Duration;
      const name = S.choose("name", ["Orders", "Very-Very-Long-Name-Of-A-Queue-That-Does-Not-Fit-Into-A-Name-Of-A-Bucket"]);
      const ownDlq = { maxReceiveCount: S.int("attempts", 1, 10), queue: { own: 1 } };
      const props = {};
      if (S.choose("visibility", [true, false])) props.visibilityTimeout = Duration.seconds(S.int("seconds", 0, 43200));
      const own = S.choose("ownDlq", [true, false]);
      if (own) props.deadLetterQueue = ownDlq;
      const bad = S.choose("bad", [true, false]);
      if (bad) { props.encryption = "NONE"; props.queueName = "Other"; }
      const kind = S.choose("kind", ["create", "createFifo", "dlq"]);
      let dlq;
      if (kind !== "dlq") {
        const q = DigitrafficSqsQueue[kind](stack, name, props);
        const qName = `Foo-${name}-Queue` + (kind === "createFifo" ? ".fifo" : "");
        S.assert(q.$type === "Queue" && q.$args[0] === stack && q.$args[1] === qName && q.$props.queueName === qName, "the queue is named after its stack");
        S.assert(q.$props.encryption === "KMS_MANAGED", "the queue is encrypted");
        S.assert(q.$props.visibilityTimeout === props.visibilityTimeout, "own properties are kept");
        if (own) { S.assert(q.$props.deadLetterQueue === ownDlq, "an own dead letter queue is used"); S.reach("own"); }
        else if (kind === "createFifo") S.assert(q.$props.deadLetterQueue === undefined, "ordered queues have none");
        else { S.assert(q.$props.deadLetterQueue.maxReceiveCount === 2, "messages are tried twice"); dlq = q.$props.deadLetterQueue.queue; S.assert(dlq !== undefined && dlq !== q, "and then kept"); }
        if (kind === "createFifo") S.reach("fifo");
        S.assert(cdk.of("Queue").length === (dlq ? 2 : 1), "no other queues");
      } else dlq = DigitrafficDLQueue.create(stack, name);
      if (!dlq) { S.assert(cdk.of("Bucket").length === 0 && cdk.of("Function").length === 0 && cdk.of("Alarm").length === 0, "nothing else is created"); return; }
      S.reach("default");
      const dn = `Foo-${name}-DLQ`;
      S.assert(dlq.$type === "Queue" && dlq.$args[0] === stack && dlq.$props.queueName === dn && dlq.$props.encryption === "KMS_MANAGED" && dlq.$props.deadLetterQueue === undefined, "the dead letter queue is named and encrypted");
      const bs = cdk.of("Bucket"), fs = cdk.of("Function");
      S.assert(bs.length === 1 && bs[0].$props.blockPublicAccess.$path === "BlockPublicAccess.BLOCK_ALL" && bs[0].$props.publicReadAccess === undefined, "the bucket is closed");
      S.assert(/^[a-z0-9][a-z0-9-]{1,61}[a-z0-9]$/.test(bs[0].$props.bucketName) && bs[0].$props.bucketName.startsWith("thestack-foo-" + name.toLowerCase().slice(0, 20)), "the bucket has a valid name");
      S.assert(fs.length === 1, "one function reads the queue");
      const f = fs[0];
      S.assert(f.$props.code.$code === bs[0].$props.bucketName && f.$props.handler === "index.handler" && f.$props.functionName === dn + "-Function", "it writes to the bucket");
      S.assert(f.$props.timeout.ms <= dlq.$props.visibilityTimeout.ms, "it finishes before the messages are seen again");
      const es = cdk.called("addEventSource");
      S.assert(es.length === 1 && es[0].self === f && es[0].args[0].$type === "SqsEventSource" && es[0].args[0].$args[0] === dlq, "it reads the dead letter queue");
      const ps = cdk.called("addToRolePolicy");
      S.assert(ps.length === 1 && ps[0].self === f, "it has one permission");
      const st = ps[0].args[0];
      const calls = (m) => cdk.called(m).filter((c) => c.self === st).flatMap((c) => c.args);
      S.assert(S.eq(calls("addResources"), [`arn:${bs[0].$props.bucketName}/*`]) && calls("addActions").includes("s3:PutObject") && calls("addActions").every((a) => /^s3:PutObject/.test(a)), "to write to the bucket");
      const as = cdk.of("Alarm").filter((a) => a.$props.metric.of === dlq);
      S.assert(as.length === 1, "one alarm watches the dead letter queue");
      const v = S.int("received", 0, 1000);
      S.assert(S.iff(cdk.goesOff(as[0], v), v >= 1), "it goes off for any message");
      S.assert(as[0].$props.treatMissingData === "notBreaching" && as[0].$props.evaluationPeriods === 1 && as[0].$props.metric.name === "Received" && as[0].$props.metric.period.toMinutes() <= 5, "at once, and not without messages");
      const to = cdk.notifies(as[0]);
      S.assert(to.length === 1 && to[0] === stack.warningTopic, "it warns");
      S.assert(cdk.of("LogGroup").length === 1 && f.$props.logGroup === cdk.of("LogGroup")[0] && String(f.$props.logGroup.$props.logGroupName).endsWith("/" + f.$props.functionName), "the function has its own log group");
    },
  },
  routes: {
    bounds: "plain and ordered queues, with and without models and keys; schedules of 1..10000 minutes and all named ones, with and without a function",
    reach: ["feed", "schedule", "security"],
    async run(S) {
      quiet(S);
      const cdk = record(S);
      const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "st");
      const what = S.choose("what", ["feed", "schedule", "security"]);
      S.reach(what);
      if (what === "feed") {
        const { attachQueueToApiGatewayResource } = S.load(I + "sqs-integration.js");
        const fifo = S.choose("fifo", [true, false]), key = S.choose("key", [true, false]);
        const q = cdk.make("aws-cdk-lib/aws-sqs", "Queue", stack, "q", { queueName: "Q" + (fifo ? ".fifo" : "") });
        const calls = [];
        const resource = { addMethod: (...a) => { calls.push(a); return {}; } };
        const validator = { v: 1 }, models = S.choose("models", [undefined, { "application/json": { m: 1 } }]);
        attachQueueToApiGatewayResource(stack, q, resource, validator, "Res", key, models);
        S.assert(calls.length === 1 && calls[0][0] === "POST", "requests are posted");
        const [, integ, opts] = calls[0], o = integ.$props.options;
        S.assert(opts.requestValidator === validator && opts.apiKeyRequired === key && S.eq(opts.requestModels, models ?? {}), "requests are validated as described");
        S.assert(S.eq(opts.methodResponses.map((r) => r.statusCode), ["200", "500"]), "answers are described");
        S.assert(integ.$type === "AwsIntegration" && integ.$props.service === "sqs" && integ.$props.integrationHttpMethod === "POST" && integ.$props.path.endsWith("/Q" + (fifo ? ".fifo" : "")), "they go to the queue");
        S.assert(o.passthroughBehavior === "NEVER" && S.eq(Object.keys(o.requestTemplates), ["application/json"]), "only described media types are accepted");
        S.assert(S.eq(o.requestParameters, { "integration.request.header.Content-Type": "'application/x-www-form-urlencoded'" }), "as forms");
        const form = o.requestTemplates["application/json"].split("&").map((x) => x.split("="));
        S.assert(S.eq(form[0], ["Action", "SendMessage"]) && S.eq(form[form.length - 1], ["MessageBody", "$util.urlEncode($input.body)"]), "the whole body is sent");
        S.assert(form.length === (fifo ? 3 : 2) && (!fifo || (form[1][0] === "MessageGroupId" && form[1][1].length > 0)), "ordered queues get one group");
        S.assert(o.integrationResponses.length === 2 && o.integrationResponses[0].statusCode === "200" && o.integrationResponses[0].selectionPattern === undefined && o.integrationResponses[1].statusCode === "500" && o.integrationResponses[1].selectionPattern === "500", "failures are told");
        const roles = cdk.of("Role");
        S.assert(roles.length === 1 && o.credentialsRole === roles[0] && roles[0].$props.assumedBy.$args[0] === "apigateway.amazonaws.com", "the gateway has its own role");
        const ps = cdk.called("addToPolicy").map((c) => c.args[0].$props);
        const sqs = ps.filter((p) => p.actions.some((a) => /^sqs:|\*/.test(a)));
        S.assert(ps.length === 2 && sqs.length === 1 && S.eq(sqs[0].actions, ["sqs:SendMessage"]) && S.eq(sqs[0].resources, [q.queueArn]) && ps.every((p) => (p.effect ?? "Allow") === "Allow" && p.actions.every((a) => /^(sqs:SendMessage|logs:\w+)$/.test(a))), "it may only send to the queue, and log");
      } else if (what === "schedule") {
        const { Scheduler } = S.load(I + "scheduler.js");
        const fn = S.choose("fn", [true, false]) ? cdk.make("aws-cdk-lib/aws-lambda", "Function", stack, "f", {}) : undefined;
        const how = S.choose("how", ["everyMinute", "everyMinutes", "everyHour", "everyDay", "every", "new"]);
        const n = S.int("minutes", 1, 10000), Duration = cdk.module("aws-cdk-lib").Duration;
        const own = { schedule: 1 };
        const r = how === "everyMinutes" ? Scheduler.everyMinutes(stack, "rule", n, fn) : how === "every" ? Scheduler.every(stack, "rule", Duration.minutes(n), fn) : how === "new" ? new Scheduler(stack, "rule", own, fn) : Scheduler[how](stack, "rule", fn);
        S.assert(r.$type === "Rule" && r.$args[0] === stack && r.$args[1] === "rule" && r.$props.ruleName === "rule" && r.$props.enabled === undefined, "the rule has its name");
        const want = { everyMinute: 1, everyHour: 60, everyDay: 1440 }[how] ?? n;
        if (how === "new") S.assert(r.$props.schedule === own, "the given schedule is used");
        else S.assert(r.$props.schedule.$static === "rate" && S.eq(r.$props.schedule.$args[0].toMinutes(), want), "it runs at its interval");
        const t = cdk.called("addTarget");
        S.assert(t.length === (fn ? 1 : 0) && t.every((c) => c.self === r && c.args[0].$type === "LambdaFunction" && c.args[0].$args[0] === fn), "and runs only the given function");
      } else {
        const { DigitrafficSecurityRule } = S.load(I + "security-rule.js");
        const topic = { topic: 1 };
        const r = new DigitrafficSecurityRule(stack, topic);
        const p = r.$props.eventPattern;
        const finding = { status: S.choose("status", ["FAILED", "PASSED", "WARNING"]), flow: S.choose("flow", ["NEW", "NOTIFIED", "SUPPRESSED"]), severity: S.choose("severity", ["LOW", "MEDIUM", "HIGH", "CRITICAL", "INFORMATIONAL"]) };
        const event = { source: "aws.securityhub", "detail-type": "Security Hub Findings - Imported", detail: { findings: { Compliance: { Status: finding.status }, Workflow: { Status: finding.flow }, Severity: { Label: finding.severity } } } };
        const match = (pat, e) => Object.entries(pat).every(([k, v]) => (Array.isArray(v) ? v.includes(e?.[k]) : match(v, e?.[k] ?? {})));
        const { detailType, ...rest } = p;
        S.assert(match({ ...rest, "detail-type": detailType }, event) === (finding.status === "FAILED" && finding.flow === "NEW" && ["HIGH", "CRITICAL"].includes(finding.severity)), "new, failed and severe findings are passed on");
        S.assert(!match({ ...rest, "detail-type": detailType }, { ...event, source: "aws.other" }), "and nothing else");
        const t = cdk.called("addTarget");
        S.assert(t.length === 1 && t[0].args[0].$type === "SnsTopic" && t[0].args[0].$args[0] === topic, "to the topic");
      }
    },
  },
};
