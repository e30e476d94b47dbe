// Parts of the infrastructure library that compute something, for the recorder.
class Dur {
  constructor(ms) { this.ms = ms; }
  toMilliseconds() { return this.ms; }
  toSeconds() { return this.ms / 1000; }
  toMinutes() { return this.ms / 60000; }
  toHours() { return this.ms / 3600000; }
  toDays() { return this.ms / 86400000; }
}
const metric = (cdk, fields) => ({
  $metric: true, ...fields,
  with: (props) => metric(cdk, { ...fields, ...props }),
  createAlarm: (scope, id, props) => cdk().make("aws-cdk-lib/aws-cloudwatch", "Alarm", scope, id, { ...props, metric: metric(cdk, fields) }),
});
export function cdkRecorder(S, more = {}) {
  let cdk;
  const get = () => cdk;
  const named = (name) => (self, props) => metric(get, { of: self, name, ...props });
  const defs = {
    statics: {
      Duration: { millis: (n) => new Dur(n), seconds: (n) => new Dur(n * 1000), minutes: (n) => new Dur(n * 60000), hours: (n) => new Dur(n * 3600000), days: (n) => new Dur(n * 86400000) },
      Stack: { of: (c) => c.$stack ?? c },
      StringParameter: { valueForStringParameter: (scope, name) => `\${Parameter[${name}]}` },
      Fn: { importValue: (name) => `\${Import[${name}]}` },
      Annotations: { of: (node) => ({ addError: (m) => { annotations.push({ node, level: "error", message: m }); }, addWarning: (m) => { annotations.push({ node, level: "warning", message: m }); }, addInfo: (m) => { annotations.push({ node, level: "info", message: m }); } }) },
    },
    methods: { Function: { metricDuration: named("Duration"), metricErrors: named("Errors"), metricThrottles: named("Throttles"), metricInvocations: named("Invocations") }, Canary: { metricSuccessPercent: named("SuccessPercent"), metricFailed: named("Failed"), metricDuration: named("Duration") } },
    props: {
      StringParameter: { stringValue: (self) => `\${Parameter[${self.$args?.[2]}]}` },
      Topic: { topicArn: (self) => self.$args[2] },
      Stack: { stackName: (self) => self.$props?.stackName ?? self.node.id, region: () => "eu-west-1", account: () => "123456789012" },
    },
    defaultChild: {},
    init: {},
  };
  for (const t of Object.keys(more)) for (const c of Object.keys(more[t])) defs[t][c] = { ...defs[t][c], ...more[t][c] };
  const annotations = [];
  cdk = S.cdk(defs);
  cdk.annotations = annotations;
  // does an alarm go off for this value of its metric?
  cdk.goesOff = (alarm, value) => {
    const t = alarm.$props.threshold, op = alarm.$props.comparisonOperator;
    if (op === "GreaterThanOrEqualToThreshold") return value >= t;
    if (op === "GreaterThanThreshold") return value > t;
    if (op === "LessThanThreshold") return value < t;
    if (op === "LessThanOrEqualToThreshold") return value <= t;
    return S.gap("comparison " + op);
  };
  // the topics an alarm notifies
  cdk.notifies = (alarm) => cdk.called("addAlarmAction").filter((c) => c.self === alarm).flatMap((c) => c.args).map((a) => (a.$type === "SnsAction" ? a.$args[0] : S.gap("another action")));
  return cdk;
}
export { Dur };
