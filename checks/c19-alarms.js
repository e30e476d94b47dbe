import { LIB, quiet } from "./_util.js";
import { cdkRecorder } from "./_cdk.js";
export const property = {
  id: "C19",
  title: "Alarms go off exactly at their limits and reach the right people",
  statement: "Unless configured otherwise, every monitored function has one alarm each for running as long as its time limit or longer, for any failed call and for any refused call, and a warning for reaching 85 percent of its time limit; every canary has one for falling below full or the chosen success. Configured limits, periods and comparisons replace the defaults of that alarm alone, and a disabled alarm is left out, though disabling all of them at once is refused in production. Alarms notify the alarm topic in production and the warning topic elsewhere, warnings notify the warning topic always, and canaries notify the chosen topic or nobody.",
  quantifier: { over: ["inputs"], text: "time limits of 1..900 seconds, any value of the metrics, any configured limit and number of periods, all combinations of flags" },
  why_tests_cant: "The tests count alarms; whether one goes off at its limit for every value, and whom it reaches, is not tried.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/stack/dt-function.ts", "lib/digitraffic-common/src/aws/infra/stack/dt-function-alarms.ts", "lib/digitraffic-common/src/aws/infra/stack/monitoredfunction.ts", "lib/digitraffic-common/src/aws/infra/canaries/canary-alarm.ts", "lib/digitraffic-common/src/aws/infra/canaries/canary.ts"],
    mechanism: [{ name: "FunctionBuilder.build", where: "lib/digitraffic-common/src/aws/infra/stack/dt-function.ts" }, { name: "MonitoredFunction, MonitoredDBFunction", where: "lib/digitraffic-common/src/aws/infra/stack/monitoredfunction.ts" }, { name: "CanaryAlarm", where: "lib/digitraffic-common/src/aws/infra/canaries/canary-alarm.ts" }],
    observe_at: "the alarms given to the infrastructure library, read with the documented meaning of their comparison",
  },
  assumptions: ["an alarm compares its metric with its threshold as its comparison operator says", "durations are measured in whole milliseconds"],
};
const D = LIB + "aws/infra/stack/";
const OPS = ["GreaterThanOrEqualToThreshold", "GreaterThanThreshold", "LessThanThreshold", "LessThanOrEqualToThreshold"];
const expectGoesOff = (S, op, v, t) => (op === OPS[0] ? v >= t : op === OPS[1] ? v > t : op === OPS[2] ? v < t : v <= t);
const defs = () => ({ props: { Function: { functionName: (self) => self.$props?.functionName } } });
function stackOf(S, cdk, production, trafficType = null) {
  const { DigitrafficStack } = S.load(D + "stack.js");
  return new DigitrafficStack(cdk.make("aws-cdk-lib", "App"), "TheStack", { shortName: "Foo", production, trafficType, secretId: "secret", vpcId: "vpc", lambdaDbSgId: "sg", privateSubnetIds: [], stackProps: {} });
}
const WHICH = ["duration", "warning", "errors", "throttles"];
const METRIC = { duration: "Duration", warning: "Duration", errors: "Errors", throttles: "Throttles" };
// Which alarms there are, when they go off and whom they notify.
function judge(S, cdk, fn, { ms, production, stack, disabled, custom, focus, topics }) {
  const alarms = cdk.of("Alarm");
  for (const a of alarms) {
    S.assert(a.$props.metric?.$metric && a.$props.metric.of === fn, "alarms watch the function");
    S.assert(a.$args[0] === stack, "alarms belong to the stack");
  }
  const isWarning = (a) => / warning$/.test(a.$props.alarmName);
  const kindOf = (a) => (a.$props.metric.name === "Errors" ? "errors" : a.$props.metric.name === "Throttles" ? "throttles" : isWarning(a) ? "warning" : "duration");
  S.assert(new Set(alarms.map((a) => a.$args[1])).size === alarms.length && new Set(alarms.map((a) => a.$props.alarmName)).size === alarms.length, "alarms have different names");
  for (const k of WHICH) {
    const got = alarms.filter((a) => kindOf(a) === k);
    if (disabled.includes(k)) { S.assert(got.length === 0, "disabled alarms are left out"); S.reach("disabled"); continue; }
    S.assert(got.length === 1, "there is one alarm of each kind");
    const a = got[0], p = a.$props;
    S.assert(p.metric.name === METRIC[k], "the alarm watches the right metric");
    if (METRIC[k] === "Duration") S.assert(/^max(imum)?$/i.test(p.metric.statistic ?? ""), "the longest duration counts");
    else S.assert(p.metric.statistic === undefined || /^sum$/i.test(p.metric.statistic), "all failures count");
    S.assert(p.alarmName.includes(fn.functionName) && p.alarmName.includes("TheStack"), "the alarm tells the function and the stack");
    const to = cdk.notifies(a);
    S.assert(to.length === 1 && to[0] === (k === "warning" || !production ? topics.warning : topics.alarm), "the right people are told");
    const c = focus === k ? custom : undefined;
    S.assert(S.eq(p.evaluationPeriods, c?.evaluationPeriods ?? 1) && S.eq(p.datapointsToAlarm, c?.datapointsToAlarm ?? 1), "the periods are the configured ones, or one");
    if (focus !== k) continue;
    const v = S.int("value", 0, 2000000);
    const off = cdk.goesOff(a, v);
    if (c?.threshold !== undefined || (c?.comparisonOperator !== undefined && k !== "warning")) {
      const t = c.threshold ?? (k === "duration" ? ms : k === "throttles" && c.base === 0 ? 0 : 1);
      const op = c.comparisonOperator ?? (k === "throttles" && c.base === 0 ? OPS[1] : OPS[0]);
      S.assert(S.iff(off, expectGoesOff(S, op, v, t)), "the configured limit counts");
      S.reach("configured");
    } else if (k === "warning") {
      if (c?.comparisonOperator === undefined || c.comparisonOperator === OPS[0]) {
        S.assert(S.implies(v * 100 >= ms * 85 + 1, off), "the warning comes at 85 percent");
        S.assert(S.implies(v * 100 <= ms * 85 - 1, S.not(off)), "and not before");
      }
      S.reach("default");
    } else {
      S.assert(S.iff(off, v >= (k === "duration" ? ms : 1)), "the alarm goes off exactly at its limit");
      S.reach("default");
    }
  }
  S.assert(alarms.length === WHICH.length - disabled.length, "there are no other alarms");
}
export const harnesses = {
  builder: {
    bounds: "time limits of 1..900 seconds and the default; one alarm of either kind left alone, configured with and without a limit of 0..10000, periods 1..10 and four comparisons, or disabled; production or not; with and without a kind of traffic",
    reach: ["default", "configured", "disabled"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const { FunctionBuilder } = S.load(D + "dt-function.js"), { DtFunctionAlarms } = S.load(D + "dt-function-alarms.js");
      const production = S.choose("production", [true, false]);
      const stack = stackOf(S, cdk, production, S.choose("traffic", [null, "Marine"]));
      const focus = S.choose("focus", WHICH), how = S.choose("how", ["default", "defaults", "custom", "disabled"]);
      const b = S.choose("kind", ["create", "plain"]) === "create" ? FunctionBuilder.create(stack, "update-things") : FunctionBuilder.plain(stack, "update-things");
      const timed = S.choose("timed", [true, false]);
      const seconds = timed ? S.int("seconds", 1, 900) : 60;
      if (timed) b.withTimeout(cdk.module("aws-cdk-lib").Duration.seconds(seconds));
      const setter = { duration: "withDurationAlarm", warning: "withDurationWarning", errors: "withErrorAlarm", throttles: "withThrottleAlarm" }[focus];
      let custom;
      if (how !== "default") {
        const alarms = new DtFunctionAlarms();
        if (how === "custom") {
          custom = { threshold: S.choose("limit", [true, false]) ? S.int("threshold", 0, 10000) : undefined, evaluationPeriods: S.int("periods", 1, 10), datapointsToAlarm: S.int("points", 1, 10), comparisonOperator: S.choose("op", OPS) };
          S.assert(alarms[setter](custom) === alarms, "setters can be chained");
        }
        if (how === "disabled") S.choose("explicit", [true, false]) ? alarms[setter](undefined) : alarms[setter]();
        b.withAlarms(alarms);
      }
      const fn = b.build();
      judge(S, cdk, fn, { ms: seconds * 1000, production, stack, disabled: how === "disabled" ? [focus] : [], custom, focus, topics: { alarm: stack.alarmTopic, warning: stack.warningTopic } });
    },
  },
  monitored: {
    bounds: "the constructor, the two creating functions and the one for databases; as above with any part of the configuration missing; missing names and time limits; everything disabled in and outside production",
    reach: ["default", "configured", "disabled", "refused", "none"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const { MonitoredFunction, MonitoredDBFunction } = S.load(D + "monitoredfunction.js");
      const production = S.choose("production", [true, false]);
      const stack = stackOf(S, cdk, production, S.choose("traffic", [null, "Marine"]));
      const how = S.choose("how", ["new", "create", "v2", "db"]);
      const focus = S.choose("focus", WHICH), mode = S.choose("mode", ["default", "custom", "disabled", "all", "invalid"]);
      if (mode === "invalid" && how !== "new" && how !== "create") S.assume(false);
      const timed = S.choose("timed", [true, false]);
      const seconds = timed ? S.int("seconds", 1, 900) : 60;
      const Duration = cdk.module("aws-cdk-lib").Duration;
      const key = { duration: "durationAlarmProps", warning: "durationWarningProps", errors: "errorAlarmProps", throttles: "throttleAlarmProps" }[focus];
      let custom, props;
      if (mode === "custom") {
        custom = { create: true, base: focus === "throttles" ? 0 : undefined };
        const opt = (k, v) => { if (S.choose("has-" + k, [true, false])) custom[k] = v(); };
        opt("threshold", () => S.int("threshold", 0, 10000));
        opt("evaluationPeriods", () => S.int("periods", 1, 10));
        opt("datapointsToAlarm", () => S.int("points", 1, 10));
        opt("comparisonOperator", () => S.choose("op", OPS));
        props = { [key]: custom };
      }
      if (mode === "disabled") props = { [key]: { create: false } };
      if (mode === "all") props = MonitoredFunction.DISABLE_ALARMS;
      const functionProps = { functionName: "Foo-Fn", timeout: Duration.seconds(seconds), handler: "h" };
      const invalid = mode === "invalid" ? S.choose("invalid", ["name", "timeout", "timeoutAlarmOnly", "timeoutWarningOnly", "timeoutNotNeeded"]) : undefined;
      if (invalid === "name") delete functionProps.functionName;
      if (invalid?.startsWith("timeout")) delete functionProps.timeout;
      if (invalid === "timeoutAlarmOnly") props = { durationWarningProps: { create: false } };
      if (invalid === "timeoutWarningOnly") props = { durationAlarmProps: { create: false } };
      if (invalid === "timeoutNotNeeded") props = { durationAlarmProps: { create: false }, durationWarningProps: { create: false } };
      const topics = { alarm: stack.alarmTopic, warning: stack.warningTopic };
      let r;
      if (how === "new") {
        topics.alarm = { own: "alarm" }; topics.warning = { own: "warning" };
        r = S.sync(() => new MonitoredFunction(stack, "id", functionProps, topics.alarm, topics.warning, production, stack.configuration.trafficType, props));
      } else if (how === "create") r = S.sync(() => MonitoredFunction.create(stack, "id", functionProps, props));
      else {
        const parameters = { ...(timed ? { timeout: seconds } : {}), ...props };
        r = S.sync(() => (how === "v2" ? MonitoredFunction.createV2(stack, "do-it", {}, parameters) : MonitoredDBFunction.create(stack, "do-it", undefined, parameters)));
      }
      if (invalid && invalid !== "timeoutNotNeeded") { S.assert(r.error instanceof Error, "functions without a name or a needed time limit are refused"); S.reach("refused"); return; }
      if (mode === "all" && how === "create" && production) { S.assert(r.error instanceof Error && cdk.of("Alarm").length === 0 && cdk.of("Function").length === 0, "disabling all alarms is refused in production"); S.reach("refused"); return; }
      S.assert(!r.error, "the function is created");
      const fn = r.value;
      S.assert(fn.$type === "Function" && fn.givenName === fn.$props.functionName, "the function keeps its name");
      if (mode === "all") { S.assert(cdk.of("Alarm").length === 0, "all alarms can be disabled"); S.reach("none"); return; }
      judge(S, cdk, fn, { ms: seconds * 1000, production, stack, disabled: mode === "disabled" ? [focus] : invalid ? ["duration", "warning"] : [], custom, focus: invalid ? "errors" : focus, topics });
    },
  },
  canaries: {
    bounds: "alarms with any part of the configuration missing, limits 0..100, any success in percent; all kinds of canaries with and without names",
    reach: ["default", "configured", "silent", "told"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const load = (n) => S.load(LIB + "aws/infra/canaries/" + n);
      const { CanaryAlarm } = load("canary-alarm.js"), { DigitrafficCanary } = load("canary.js"), { UrlCanary } = load("url-canary.js"), { DatabaseCanary } = load("database-canary.js");
      const stack = stackOf(S, cdk, false);
      const alarm = S.choose("alarm", [true, false]) ? {} : undefined;
      if (alarm) {
        const opt = (k, v) => { if (S.choose("has-" + k, [true, false])) alarm[k] = v(); };
        opt("threshold", () => S.int("threshold", 0, 100));
        opt("evalutionPeriods", () => S.int("periods", 1, 10));
        opt("topicArn", () => "arn:own");
        opt("alarmName", () => "OwnName");
        opt("description", () => "why");
      }
      const params = { name: "cname", handler: "x.handler" };
      if (alarm) params.alarm = alarm;
      const role = cdk.make("aws-cdk-lib/aws-iam", "Role", stack, "role", {});
      const how = S.choose("how", ["alarm", "canary", "url", "db", "db2"]);
      const name = how === "db2" ? S.choose("same", [true, false]) ? "cname" : "other" : "cname";
      let canary;
      if (how === "alarm") { canary = cdk.make("aws-cdk-lib/aws-synthetics", "Canary", stack, "c", {}); new CanaryAlarm(stack, canary, params); }
      if (how === "canary") canary = new DigitrafficCanary(stack, "cname", role, params, {});
      if (how === "url") canary = new UrlCanary(stack, role, { ...params, hostname: "h", apiKeyId: "" });
      if (how === "db") canary = DatabaseCanary.create(stack, role, params);
      if (how === "db2") { const { name: _n, handler: _h, ...rest } = params; stack.configuration.alarmTopicArn = "arn:alarm"; canary = name === "cname" ? DatabaseCanary.createV2(stack, role, "cname", rest) : DatabaseCanary.createV2(stack, role, "cname", rest, name); }
      const alarms = cdk.of("Alarm");
      S.assert(alarms.length === 1 && alarms[0].$args[0] === stack, "there is one alarm");
      const a = alarms[0], p = a.$props;
      S.assert(p.metric.of === canary && p.metric.name === "SuccessPercent", "it watches the success of the canary");
      const v = S.int("value", 0, 100);
      S.assert(S.iff(cdk.goesOff(a, v), v < (alarm?.threshold ?? 100)), "it goes off exactly below its limit");
      S.reach(alarm?.threshold === undefined ? "default" : "configured");
      S.assert(S.eq(p.evaluationPeriods, alarm?.evalutionPeriods ?? 1), "the periods are the configured ones, or one");
      S.assert((p.alarmDescription ?? "") === (alarm?.description ?? ""), "the description is kept");
      const defaultName = how === "db2" && !alarm ? (name === "cname" ? "Foo-DB-Alarm" : "other-DB-Alarm") : name + "-alarm";
      S.assert(p.alarmName === (alarm?.alarmName ?? defaultName), "it has its name");
      const to = cdk.notifies(a), arn = how === "db2" && !alarm ? "arn:alarm" : alarm?.topicArn;
      if (arn === undefined) { S.assert(to.length === 0, "nobody is told without a topic"); S.reach("silent"); }
      else { S.assert(to.length === 1 && to[0].$type === "Topic" && to[0].$static === "fromTopicArn" && to[0].$args[2] === arn, "the chosen topic is told"); S.reach("told"); }
    },
  },
};
