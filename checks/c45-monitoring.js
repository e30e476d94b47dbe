import { cdkRecorder } from "./_cdk.js";
import { quiet } from "./_util.js";
export const property = {
  id: "C45",
  title: "Monitoring notices every configured limit and every change worth knowing",
  statement: "For every database, service and distribution that is configured there is an alarm for each of its limits, on the figure of that very resource, which goes off exactly beyond the configured or else the default limit, and none for limits that are left out or disabled. Changes of users, roles, keys, watched zones and databases, and pending updates of databases, are told, and other changes are not. Everything reaches the alarm topic, which the configured address receives, which only this account may publish to, and which is the one that the other applications find.",
  quantifier: { over: ["inputs"], text: "all limits from 1 to 1000000 and all values of the figures; limits present, missing or disabled; two databases or services; all names of changes of 8..19 letters" },
  why_tests_cant: "The monitoring application has no tests of its behaviour; whether an alarm watches the right figure of the right resource shows only when it should have gone off.",
  anchors: {
    files: ["other/monitoring/src"],
    mechanism: [{ name: "RdsMonitoring", where: "other/monitoring/src/rds-monitoring.ts" }, { name: "EcsMonitoring", where: "other/monitoring/src/ecs-monitoring.ts" }, { name: "CloudfrontMonitoring", where: "other/monitoring/src/cloudfront-monitoring.ts" }, { name: "IamMonitoring, KmsMonitoring, Route53Monitoring", where: "other/monitoring/src/iam-monitoring.ts" }, { name: "MonitoringStack", where: "other/monitoring/src/monitoring-stack.ts" }],
    observe_at: "the alarms, rules, subscriptions and topics given to the infrastructure library, read with the documented meaning of comparisons and of event patterns",
  },
  assumptions: ["an alarm compares its metric with its threshold as its comparison operator says", "the documented meaning of event patterns", "the library's named metrics are what their names say", "limits are positive"],
};
const M = "other/monitoring/src/";
const named = (name) => (self) => ({ $metric: true, of: self, name });
const CLUSTER = { metricFreeLocalStorage: "FreeLocalStorage", metricCPUUtilization: "CPUUtilization", metricFreeableMemory: "FreeableMemory", metricVolumeWriteIOPs: "VolumeWriteIOPs", metricVolumeReadIOPs: "VolumeReadIOPs", metricDeadlocks: "Deadlocks" };
const INSTANCE = { metricCPUUtilization: "CPUUtilization", metricFreeStorageSpace: "FreeStorageSpace", metricFreeableMemory: "FreeableMemory" };
const metrics = (names) => ({ ...Object.fromEntries(Object.entries(names).map(([k, n]) => [k, named(n)])), metric: (self, name) => ({ $metric: true, of: self, name }) });
function build(S, conf) {
  quiet(S);
  const cdk = cdkRecorder(S, { methods: { DatabaseCluster: metrics(CLUSTER), DatabaseInstance: metrics(INSTANCE) }, props: { DatabaseInstance: { instanceIdentifier: (self) => self.$args?.[2]?.instanceIdentifier }, DatabaseCluster: { clusterIdentifier: (self) => self.$args?.[2]?.clusterIdentifier } } });
  const { MonitoringStack } = S.load(M + "monitoring-stack.ts");
  const r = S.sync(() => new MonitoringStack(undefined, "Id", { warningTopicEmail: "warnings@example", alarmTopicEmail: "alarms@example", envName: "Env", env: { account: "123", region: "eu-west-1", accountName: "Account" }, ...conf }));
  if (r.error) S.fail("the monitoring can be built");
  const topicOf = (email) => cdk.calls.find((c) => c.method === "addSubscription" && c.args[0]?.$type === "EmailSubscription" && c.args[0].$args[0] === email)?.self;
  const topic = topicOf("alarms@example");
  if (!topic) S.fail("the configured address receives the alarms");
  return { cdk, topic, topicOf };
}
// what a text of an alarm or of a figure names
const same = (a, b) => a.toLowerCase().replace(/[^a-z]/g, "") === b.toLowerCase().replace(/[^a-z]/g, "");
const figure = (a) => (a.$props.metric?.$metric ? { of: a.$props.metric.of, name: a.$props.metric.name } : { of: a.$props.metric?.$props?.dimensionsMap, name: a.$props.metric?.$props?.metricName, more: a.$props.metric?.$props });
// alarms of one resource: expected is [figure, "above" or "below", limit]
function judge(S, cdk, topic, isOf, expected) {
  const alarms = cdk.of("Alarm").filter((a) => isOf(figure(a)));
  S.assert(alarms.length === expected.length, "there is an alarm for each limit, and no other");
  for (const [name, side, limit] of expected) {
    const a = alarms.find((x) => same(figure(x).name, name));
    if (!a) S.fail("there is an alarm for each limit");
    const v = S.int(name, 0, 2000000000);
    S.assert(S.iff(cdk.goesOff(a, v), side === "above" ? v > limit : v < limit), "the alarm goes off exactly beyond its limit");
    const to = cdk.notifies(a);
    S.assert(to.length === 1 && to[0] === topic, "the alarm is told to the alarm topic");
    S.assert(a.$props.evaluationPeriods >= (a.$props.datapointsToAlarm ?? a.$props.evaluationPeriods) && (a.$props.datapointsToAlarm ?? 1) >= 1, "the alarm can go off");
  }
  const names = cdk.of("Alarm").map((a) => a.$props.alarmName);
  S.assert(new Set(names).size === names.length, "alarms have different names");
}
const limitOf = (S, k) => S.int("limit " + k, 1, 1000000);
// does an event match a pattern?
function matches(S, pattern, event) {
  if (pattern === undefined) return true;
  const any = (p) => (Array.isArray(p) ? p : p?.$static === "anyOf" ? p.$args.flatMap((x) => (Array.isArray(x) ? x : [x])) : undefined);
  let ok = true;
  for (const [k, p] of Object.entries(pattern)) {
    const one = any(p), v = event?.[k];
    if (one) ok = S.and(ok, v === undefined ? false : S.or(false, ...one.map((x) => (typeof x === "string" ? S.eq(x, v) : S.gap("pattern")))));
    else if (p && typeof p === "object" && p.$static === undefined) ok = S.and(ok, matches(S, p, v));
    else S.gap("pattern");
  }
  return ok;
}
function told(S, cdk, topic, event) {
  let any = false;
  for (const r of cdk.of("Rule")) {
    const targets = [...(r.$props?.targets ?? []), ...cdk.calls.filter((c) => c.method === "addTarget" && c.self === r).map((c) => c.args[0])];
    if (targets.some((t) => t.$type === "SnsTopic" && t.$args[0] === topic)) any = S.or(any, matches(S, r.$props.eventPattern, event));
  }
  return any;
}
const NAMES = { "aws.iam": ["CreateUser", "UpdateUser", "DeleteUser", "CreateRole", "UpdateRole", "DeleteRole"], "aws.kms": ["ScheduleKeyDeletion", "DeleteAlias", "UpdateAlias", "DisableKey", "PutKeyPolicy"] };
export const harnesses = {
  databases: {
    bounds: "two clusters and two instances, of which one is looked at; every limit 1..1000000; all, none or one of the optional limits; a display name or none",
    reach: ["cluster", "instance", "unlimited"],
    async run(S) {
      const kind = S.choose("kind", ["clusters", "instances"]), which = S.choose("which", [0, 1]);
      const optional = kind === "clusters" ? ["cpuMax", "cpuCreditBalanceMin", "replicaLagMax", "dmlLatencyMax"] : ["cpuMax", "cpuCreditBalanceMin"];
      const how = S.choose("optional", ["all", "none", ...optional]);
      const has = (k) => how === "all" || how === k;
      const l = {};
      for (const k of ["freeStorageMin", ...(kind === "clusters" ? ["writeIOPSLimit", "readIOPSLimit", "volumeWriteIOPSLimit", "volumeReadIOPSLimit"] : []), ...optional.filter(has)]) l[k] = limitOf(S, k);
      const other = { freeStorageMin: 1, writeIOPSLimit: 2, readIOPSLimit: 3, volumeWriteIOPSLimit: 4, volumeReadIOPSLimit: 5 };
      const limited = how !== "none" || S.choose("limited", [true, false]);
      const id = kind === "clusters" ? "dbClusterIdentifier" : "instanceIdentifier", name = kind === "clusters" ? "clusterName" : "instanceName";
      const list = [0, 1].map((n) => ({ [id]: "id" + n, ...(S.choose("name" + n, [false, true]) ? { [name]: "name" + n } : {}), limits: n === which ? (limited ? l : undefined) : other }));
      const { cdk, topic } = build(S, { db: { [kind]: list } });
      const isOf = (f) => f.of?.$type === (kind === "clusters" ? "DatabaseCluster" : "DatabaseInstance") && (f.of.$args[2]?.clusterIdentifier ?? f.of.$args[2]?.instanceIdentifier) === "id" + which;
      const expected = !limited ? [] : kind === "clusters"
        ? [["FreeLocalStorage", "below", l.freeStorageMin], ["FreeableMemory", "below", 200 * 1024 * 1024], ["WriteIOPS", "above", l.writeIOPSLimit], ["ReadIOPS", "above", l.readIOPSLimit], ["VolumeWriteIOPs", "above", l.volumeWriteIOPSLimit], ["VolumeReadIOPs", "above", l.volumeReadIOPSLimit], ["Deadlocks", "above", 1]]
        : [["FreeStorageSpace", "below", l.freeStorageMin]];
      if (limited) for (const [k, f, side] of [["cpuMax", "CPUUtilization", "above"], ["cpuCreditBalanceMin", "CPUCreditBalance", "below"], ["replicaLagMax", "AuroraReplicaLag", "above"], ["dmlLatencyMax", "DMLLatency", "above"]]) if (l[k] !== undefined) expected.push([f, side, l[k]]);
      judge(S, cdk, topic, isOf, expected);
      S.reach(!limited ? "unlimited" : kind === "clusters" ? "cluster" : "instance");
    },
  },
  services: {
    bounds: "two services, of which one is looked at; limits 1..1000000, left out or disabled",
    reach: ["both", "disabled", "default"],
    async run(S) {
      const which = S.choose("which", [0, 1]);
      const c = {};
      for (const k of ["cpu", "memory"]) { const h = S.choose(k, ["limit", "default", "DISABLED"]); if (h !== "default") c[k] = h === "limit" ? limitOf(S, k) : h; }
      const services = [0, 1].map((n) => ({ clusterName: "cluster" + (S.choose("same cluster", [true, false]) ? "" : n), serviceName: "service" + n, ...(n === which ? c : { cpu: 7, memory: 8 }) }));
      const { cdk, topic } = build(S, { ecs: { services } });
      const isOf = (f) => f.more?.namespace === "AWS/ECS" && f.of?.ServiceName === "service" + which;
      judge(S, cdk, topic, isOf, [["CPUUtilization", "above", c.cpu ?? 80], ["MemoryUtilization", "above", c.memory ?? 80]].filter((x) => x[2] !== "DISABLED"));
      for (const a of cdk.of("Alarm").filter((x) => isOf(figure(x)))) S.assert(figure(a).of.ClusterName === services[which].clusterName && /^av(era)?ge?$/i.test(figure(a).more.statistic), "the average of the service in its cluster counts");
      S.reach(c.cpu === "DISABLED" || c.memory === "DISABLED" ? "disabled" : c.cpu === undefined ? "default" : "both");
    },
  },
  distributions: {
    bounds: "two distributions; limits 1..1000000 or left out",
    reach: ["limit", "default"],
    async run(S) {
      const which = S.choose("which", [0, 1]), t = S.choose("limit", [true, false]) ? limitOf(S, "band") : undefined;
      const { cdk, topic } = build(S, { cloudfront: { distributions: [0, 1].map((n) => ({ id: "D" + n, name: "site" + n, ...(n === which && t !== undefined ? { threshold: t } : {}) })) } });
      const mine = cdk.of("CfnAlarm").filter((a) => (a.$props.metrics ?? []).some((m) => m.metricStat?.metric?.dimensions?.some((d) => d.name === "DistributionId" && d.value === "D" + which)));
      S.assert(mine.length === 1 && cdk.of("CfnAlarm").length === 2, "every distribution has an alarm");
      S.assert(new Set(cdk.of("CfnAlarm").map((a) => a.$props.alarmName)).size === 2, "alarms have different names");
      const p = mine[0].$props, m = p.metrics.find((x) => x.metricStat), band = p.metrics.find((x) => x.expression !== undefined);
      S.assert(m.metricStat.metric.metricName === "BytesDownloaded" && m.metricStat.metric.namespace === "AWS/CloudFront" && m.metricStat.metric.dimensions.some((d) => d.name === "Region" && d.value === "Global"), "the bytes that were downloaded count");
      if (!band) S.fail("there is a band of expected values");
      S.assert(p.thresholdMetricId === band.id && m.id !== band.id && /^[a-z][a-zA-Z0-9_]*$/.test(m.id) && /^[a-z][a-zA-Z0-9_]*$/.test(band.id), "values are compared with their band");
      S.assert(S.eq(band.expression, `ANOMALY_DETECTION_BAND(${m.id}, ${t ?? 2})`), "the band is as wide as configured, or two");
      S.assert(p.comparisonOperator === "LessThanLowerOrGreaterThanUpperThreshold", "values on either side of the band count");
      S.assert(S.decide(told(S, cdk, topic, { source: "aws.cloudwatch", detail: { alarmName: p.alarmName } })), "the alarm is told to the alarm topic");
      S.assert(!S.decide(told(S, cdk, topic, { source: "aws.cloudwatch", detail: { alarmName: "other" } })), "alarms of others are not told");
      S.reach(t === undefined ? "default" : "limit");
    },
  },
  events: {
    bounds: "five sources; any name of 8..19 letters; any zone of 2 letters or digits; with and without databases and zones",
    reach: ["told", "quiet"],
    async run(S) {
      const source = S.choose("source", ["aws.iam", "aws.kms", "aws.rds", "aws.route53", "aws.ec2"]), db = S.choose("db", [true, false]), zones = S.choose("zones", [true, false]);
      const { cdk, topic } = build(S, { ...(db ? { db: {} } : {}), ...(zones ? { route53: { zoneIds: ["Z1", "Y2"] } } : {}) });
      let expect, detail;
      if (source === "aws.rds") { const n = S.str("event", 4, "0-9"); detail = { EventID: "RDS-EVENT-" + n }; expect = db ? S.or(S.eq(n, "0287"), S.eq(n, "0230")) : false; }
      else if (source === "aws.route53") { const z = S.str("zone", 2, "Y-Z0-9"); detail = { eventName: "ChangeResourceRecordSets", requestParameters: { hostedZoneId: z } }; expect = zones ? S.or(S.eq(z, "Z1"), S.eq(z, "Y2")) : false; } else {
        const n = S.str("name", S.choose("length", [8, 10, 11, 12, 19]), "A-Za-z");
        detail = { eventName: n, requestParameters: {} };
        expect = S.or(false, ...(NAMES[source] ?? []).map((x) => S.eq(x, n)));
      }
      const got = told(S, cdk, topic, { source, detail });
      S.assert(S.iff(got, expect), "exactly the changes worth knowing are told");
      S.reach(S.decide(expect) ? "told" : "quiet");
    },
  },
  topics: {
    bounds: "with and without databases",
    reach: ["topics"],
    async run(S) {
      const db = S.choose("db", [true, false]);
      const { cdk, topic, topicOf } = build(S, db ? { db: {} } : {});
      const warn = topicOf("warnings@example");
      S.assert(warn !== undefined && warn !== topic && cdk.of("Topic").length === 2 && cdk.called("addSubscription").length === 2, "warnings and alarms have an address each");
      const { SSM_KEY_ALARM_TOPIC, SSM_KEY_WARNING_TOPIC } = S.load("lib/digitraffic-common/src/aws/infra/stack/stack.js");
      const found = (name) => cdk.of("StringParameter").filter((p) => p.$props?.parameterName === name).map((p) => p.$props.stringValue);
      S.assert(found(SSM_KEY_ALARM_TOPIC).length === 1 && found(SSM_KEY_ALARM_TOPIC)[0] === topic.topicArn && found(SSM_KEY_WARNING_TOPIC).length === 1 && found(SSM_KEY_WARNING_TOPIC)[0] === warn.topicArn && topic.topicArn !== warn.topicArn, "the other applications find the topics");
      for (const t of [topic, warn]) {
        const sts = cdk.calls.filter((c) => c.method === "addToResourcePolicy" && c.self === t).map((c) => c.args[0].$props);
        for (const who of ["cloudwatch", "events", "events.rds"]) S.assert(sts.some((s) => s.actions.some((a) => /^sns:publish$/i.test(a)) && s.resources.includes(t.topicArn) && s.principals.some((p) => p.$args?.[0] === who + ".amazonaws.com")), "alarms and changes may be published");
        for (const s of sts) S.assert(s.conditions?.StringEquals?.["aws:SourceAccount"] !== undefined && s.conditions.StringEquals["aws:SourceAccount"] === t.$stack.account, "only this account publishes");
      }
      const subs = cdk.of("CfnEventSubscription").map((s) => s.$props);
      S.assert(subs.length === (db ? 4 : 0) && subs.every((s) => s.snsTopicArn === topic.topicArn && s.enabled !== false), "events of databases are told to the alarm topic");
      if (db) for (const k of ["db-instance", "db-cluster", "db-parameter-group", "db-security-group"]) {
        const s = subs.filter((x) => x.sourceType === k);
        S.assert(s.length === 1, "every kind of event is told");
        for (const c of k === "db-instance" ? ["availability", "failure", "deletion", "low storage", "maintenance", "configuration change", "read replica", "security patching"] : []) S.assert((s[0].eventCategories ?? []).length === 0 || s[0].eventCategories.includes(c), "every kind of event is told");
      }
      S.reach("topics");
    },
  },
};
