import { cdkRecorder } from "./_cdk.js";
import { quiet } from "./_util.js";
import { VMap, render, escapeJavaScript, readJson } from "./_vtl.js";
export const property = {
  id: "C44",
  title: "Applications answer exactly their guarded routes, with functions that can work",
  statement: "Whichever features are switched on, every application answers exactly its own addresses, each by the same function for every allowed method, and only callers with a key of that interface's usage plan or with a login get through, except to the ship list, the metadata of timestamps and the test interface, which are open. Every path and query parameter of a caller, and the groups of a login, reach that function or the storage behind the address with the value sent. Every function has its code, the schedule, queue, topic or address that starts it, the settings its code needs, and the rights to the queues, topics, buckets and secrets those settings name.",
  quantifier: { over: ["inputs"], text: "23 applications; every combination of their feature switches; every value of up to 2 characters of one parameter at a time; 0..2 readers and writers of aviation data" },
  why_tests_cant: "No test builds an application's stack; a missing right, key, switch or parameter shows only once deployed, for one address or one function.",
  anchors: {
    files: ["marine", "rail", "road", "aviation/aviation-data/src/aviation-data-stack.ts", "lib/digitraffic-common/src/aws/infra"],
    mechanism: [{ name: "PublicApi, PrivateApi, IntegrationApi of the applications", where: "marine/portactivity/src/public-api.ts" }, { name: "InternalLambdas of the applications", where: "marine/portactivity/src/internal-lambdas-stack.ts" }, { name: "AviationDataStack.configureBucketCredentials", where: "aviation/aviation-data/src/aviation-data-stack.ts" }],
    observe_at: "the constructs given to the infrastructure library; the code of the functions, loaded with the settings given to them",
  },
  assumptions: ["the infrastructure library is a recorder; what it makes of the constructs is trusted", "the documented meaning of the gateway's templates", "packages the functions import are there", "functions are started, not run", "rail's data dump is not loaded"],
};
function network(S) {
  quiet(S);
  const routes = [];
  const known = (self) => { if (typeof self.$p !== "string") S.gap("an address made in another way"); };
  const child = (self, part, o) => { known(self); const r = cdk.make("aws-cdk-lib/aws-apigateway", "Resource", self, "r:" + part, { part }); r.$up = self; r.$o = { ...self.$o, ...o }; r.$p = self.$p === "/" ? "/" + part : self.$p + "/" + part; r.$api = self.$api; (self.$kids ??= new Map()); if (self.$kids.has(part)) throw new Error("There is already a resource " + part); self.$kids.set(part, r); if (r.$o.defaultCorsPreflightOptions) r.$cors = true; return r; };
  const add = (self, method, integration, o) => { known(self); routes.push({ api: self.$api, path: self.$p, method, integration: integration ?? self.$o.defaultIntegration, o: { ...self.$o.defaultMethodOptions, ...o } }); return S.mock({}, "method"); };
  const kid = (self, part) => self.$kids?.get(part);
  const cdk = cdkRecorder(S, {
    methods: { Resource: { addResource: child, addMethod: add, addCorsPreflight: (self) => { self.$cors = true; }, getResource: kid, resourceForPath: (self, path) => path.split("/").filter((x) => x !== "").reduce((r, part) => r.$kids?.get(part) ?? child(r, part), self), addProxy: () => S.gap("proxy") }, RestApi: { addApiKey: (self, id, o) => ({ keyId: "key:" + id, o }), addUsagePlan: (self, id, o) => cdk.make("aws-cdk-lib/aws-apigateway", "UsagePlan", self, id, o) } },
    props: { Resource: { path: (self) => self.$p, api: (self) => self.$api }, RestApi: { deploymentStage: (self) => (self.$stage ??= { stageName: "prod" }), url: (self) => `https://${self.node.id}/prod/`, root: (self) => { const r = cdk.make("aws-cdk-lib/aws-apigateway", "Resource", self, "root", {}); r.$p = "/"; r.$api = self; r.$o = { ...self.$props, defaultIntegration: undefined }; return r; } } },
  });
  return { cdk, routes };
}
// what a statement of a policy allows
function statement(st) {
  const list = (k, add) => [...(st.$props?.[k] ?? []), ...(st.$calls ?? []).filter(([m]) => m === add).flatMap(([, a]) => a)];
  return { deny: st.$props?.effect !== undefined && !/ALLOW|Allow/.test(String(st.$props.effect.$path ?? st.$props.effect)), actions: list("actions", "addActions"), resources: list("resources", "addResources"), conditional: !!st.$props?.conditions };
}
const GRANTS = { grantRead: ["read"], grantWrite: ["write"], grantReadWrite: ["read", "write"], grantPut: ["write"], grantSendMessages: ["send"], grantConsumeMessages: ["consume"], grantPublish: ["publish"] };
const ACTIONS = { "s3:PutObject": "write", "s3:GetObject": "read", "s3:DeleteObject": "delete", "s3:*": "write", "sqs:SendMessage": "send", "sns:Publish": "publish", "secretsmanager:GetSecretValue": "read" };
// names of the things functions are given rights to
const nameOf = (x) => (x.$type === "Secret" ? "secret" : x.$type === "Queue" ? "queue " + x.node.id : x.$type === "Topic" ? "topic " + x.node.id : x.$type === "Bucket" ? "bucket " + x.node.id : x.$type);
function rights(cdk, who) {
  const out = [];
  for (const c of cdk.calls) if (GRANTS[c.method] && c.args[0] === who) for (const r of GRANTS[c.method]) out.push(r + " " + nameOf(c.self));
  const sts = [...(who.$props?.initialPolicy ?? [])];
  for (const c of cdk.calls) if (c.self === who && ["addToRolePolicy", "addToPolicy", "addToPrincipalPolicy"].includes(c.method)) sts.push(c.args[0]);
  for (const p of Object.values(who.$props?.inlinePolicies ?? {})) sts.push(...(p.$props?.statements ?? []));
  for (const st of sts.map(statement)) if (!st.deny && !st.conditional) for (const a of st.actions) for (const r of st.resources) {
    const x = [...cdk.of("Bucket"), ...cdk.of("Queue"), ...cdk.of("Topic")].find((y) => r === (y.bucketArn ?? "?") + "/*" || (y.$type === "Queue" && r === y.queueArn) || (y.$type === "Topic" && r === y.topicArn));
    out.push(`${ACTIONS[a] ?? a} ${x ? nameOf(x) : r}`);
  }
  if (who.$props?.role) out.push(...rights(cdk, who.$props.role));
  return out;
}
// where the code of a function is
const code = (f) => `${f.$props.code?.$args?.[0]}/${f.$props.handler}`.replace(/^dist\/lambda\//, "");
function triggers(cdk, routes, f) {
  const out = [];
  for (const r of routes) { if (r.integration?.$args?.[0] === f) out.push("interface"); if (r.o.authorizer?.$props?.handler === f) out.push("login"); }
  for (const c of cdk.calls) {
    if (c.method === "addTarget" && c.args[0]?.$args?.[0] === f) out.push("schedule");
    if (c.method === "addEventSource" && c.self === f) out.push("queue " + c.args[0].$args[0].node.id);
    if (c.method === "addSubscription" && c.args[0]?.$args?.[0] === f) out.push("topic " + c.self.node.id);
  }
  for (const r of cdk.of("Rule")) if ((r.$props?.targets ?? []).some((t) => t?.$args?.[0] === f)) out.push("schedule");
  if (f.$type === "TriggerFunction") out.push("deployment");
  return [...new Set(out)];
}
const functionsOf = (cdk) => [...new Set([...cdk.of("Function"), ...cdk.of("TriggerFunction")])];
// what schedules ask of a function
function asked(cdk, f) {
  const ts = [...cdk.calls.filter((c) => c.method === "addTarget").map((c) => c.args[0]), ...cdk.of("Rule").flatMap((r) => r.$props?.targets ?? [])];
  return ts.filter((t) => t?.$args?.[0] === f).map((t) => { const e = t.$args[1]?.event?.$args?.[0] ?? {}; return e.TRANSPORT_TYPE + (e.TOTAL_GROUPS ? ` ${e.ENDPOINT_GROUP}/${e.TOTAL_GROUPS}` : ""); });
}
const SEC = ["read secret"];
const DB = { MYSQL_ENDPOINT: "db host", MYSQL_USERNAME: "user", MYSQL_PASSWORD: "password", MYSQL_DATABASE: "database" };
const both = (o) => Object.fromEntries(Object.entries(o).flatMap(([k, v]) => [["GET " + k, v], ["HEAD " + k, v]]));
const get = (o) => Object.fromEntries(Object.entries(o).map(([k, v]) => ["GET " + k, v]));
// to: the function behind an address; pass: parameters that reach it ("*": all of the query); as: open, login or (otherwise) key
const APPS = {
  "marine/aton-faults": { stack: "aton-faults-stack", routes: both({ "/api/aton/v1/faults": { to: "get-faults", pass: ["*"] } }), functions: { "update-faults": { on: ["schedule"], may: SEC }, "get-faults": { on: ["interface"], may: SEC } } },
  "marine/gofrep": { stack: "gofrep-stack", routes: { "GET /mrs/formality": { fixed: true }, "POST /mrs/report": { to: "receive-epcmessage" } }, functions: { "receive-epcmessage": { on: ["interface"], may: [] } } },
  "marine/marinecam": {
    stack: "marinecam-stack", flags: ["enableKeyProtectedApi", "enablePasswordProtectedApi", "frequent"],
    routes: (f) => ({
      ...(f.enablePasswordProtectedApi ? get({ "/cameras/{folderName}/{imageName}": { storage: "images/{folderName}/{imageName}", as: "login" }, "/cameras/metadata": { to: "list-cameras", pass: ["context authorizer.groups"], as: "login" } }) : {}),
      ...(f.enableKeyProtectedApi ? get({ "/api/marinecam/ibnet/{imageName}": { storage: "images/Saimaa/{imageName}" }, "/api/marinecam/cameras/{imageName}": { storage: "images/Saimaa/{imageName}" }, "/api/marinecam/ibnet/metadata": { to: "get-metadata" }, "/api/marinecam/cameras/metadata": { to: "get-metadata" } }) : {}),
    }),
    functions: (f) => ({
      "update-images": { on: f.frequent ? ["schedule"] : [], may: [...SEC, "write bucket MarinecamBucket"], env: { BUCKET_NAME: "write" } },
      ...(f.enablePasswordProtectedApi ? { authorizer: { on: ["login"], may: [] }, "list-cameras": { on: ["interface"], may: SEC } } : {}),
      ...(f.enableKeyProtectedApi ? { "get-metadata": { on: ["interface"], may: SEC } } : {}),
    }),
  },
  "marine/port-call": { stack: "port-call-stack", flags: ["enableUpdate"], routes: both({ "/api/port-call/v2/visits": { to: "get-visits", pass: ["*"] } }), functions: (f) => ({ "update-visits": { on: f.enableUpdate ? ["schedule"] : [], may: SEC }, "get-visits": { on: ["interface"], may: SEC } }) },
  "marine/portactivity": {
    stack: "portactivity-stack", flags: ["awakeETD", "enableETBForAllPorts"],
    routes: { "POST /api/integration/timestamps": { queue: "PortActivity-Timestamps" }, "GET /api/v1/timestamps": { to: "get-timestamps", pass: ["locode", "mmsi", "imo", "source"] }, "GET /shiplist": { to: "get-shiplist-public", as: "open" }, ...both({ "/api/v1/metadata/timestamps": { fixed: true, as: "open" } }), "GET /api/v1/metadata/locodes": { to: "get-locode-metadata" } },
    functions: (f) => {
      const send = { may: [...SEC, "send queue PortActivity-Timestamps"], env: { SQS_QUEUE_URL: "send" } };
      return {
        "process-queue": { on: ["queue PortActivity-Timestamps"], may: SEC, partial: true }, "process-dlq": { on: ["queue PortActivity-Timestamps-DLQ"], may: ["write bucket DLQBucket"], env: { BUCKET_NAME: "write" } },
        "trigger-awake-ai-eta-ship-timestamps-update": { on: ["schedule"], may: [...SEC, "publish topic UpdateAwakeShipETA"] }, "trigger-awake-ai-eta-port-timestamps-update": { on: ["schedule"], may: ["publish topic UpdateAwakePortETA"] },
        "update-awake-ai-eta-ship-timestamps": { on: ["topic UpdateAwakeShipETA"], ...send }, "update-awake-ai-eta-port-timestamps": { on: ["topic UpdateAwakePortETA"], ...send },
        "trigger-awake-ai-etd-port-timestamps-update": { on: f.awakeETD ? ["schedule"] : [], may: ["publish topic UpdateAwakePortETD"] }, "update-awake-ai-etd-port-timestamps": { on: ["topic UpdateAwakePortETD"], ...send },
        "update-timestamps-from-schedules": { on: ["schedule"], ...send }, "update-timestamps-from-pilotweb": { on: ["schedule"], ...send }, "delete-old-timestamps": { on: ["schedule"], may: SEC },
        "update-awake-ai-atx-timestamps": { on: ["schedule"], may: [...send.may, "ssm:GetParameter arn:aws:ssm:::parameter/AWAKE_ATX_SUBSCRIPTION_ID", "ssm:PutParameter arn:aws:ssm:::parameter/AWAKE_ATX_SUBSCRIPTION_ID"], env: send.env },
        "get-timestamps": { on: ["interface"], may: SEC }, "get-shiplist-public": { on: ["interface"], may: SEC }, "get-locode-metadata": { on: ["interface"], may: SEC },
      };
    },
  },
  "marine/sea-state-estimate": { stack: "sse-stack", routes: { "POST /sse/v1/update": { to: "update-sse-data" } }, functions: { "update-sse-data": { on: ["interface"], may: SEC } } },
  "marine/shiplight": { stack: "shiplight-stack", routes: {}, functions: { "update-lights": { on: ["schedule"], may: SEC } } },
  "marine/voyage-plan-gateway": { stack: "voyage-plan-gateway-stack", routes: { "GET /temp/schedules": { to: "get-schedules" } }, functions: { "get-schedules": { on: ["interface"], may: SEC } } },
  "marine/winter-navigation": {
    stack: "winter-navigation-stack",
    routes: both(Object.fromEntries([["locations/{locode}", "get-locations", ["path locode"]], ["locations", "get-locations", ["*"]], ["vessels/{vesselId}", "get-vessels", ["path vesselId", "activeFrom", "activeTo"]], ["vessels", "get-vessels", ["activeFrom", "activeTo"]], ["dirways", "get-dirways", ["*"]]].map(([p, to, pass]) => ["/api/winter-navigation/v2/" + p, { to, pass }]))),
    functions: { "update-data": { on: ["schedule"], may: SEC }, "get-locations": { on: ["interface"], may: SEC }, "get-vessels": { on: ["interface"], may: SEC }, "get-dirways": { on: ["interface"], may: SEC } },
  },
  "aviation/aviation-data": { stack: "aviation-data-stack", lists: true, routes: {}, functions: {} },
  "rail/rami": {
    stack: "rami-stack",
    routes: { "POST /api/v1/rami/incoming/message": { to: "upload-rosm-message" }, "POST /api/v1/rami/incoming/sm": { queue: "Short-SmSqs-Queue" }, "GET /api/v1/passenger-information/active": { to: "get-active-messages", pass: ["train_number", "train_departure_date", "station", "only_general"] }, "GET /api/v1/passenger-information/updated-after/{date}": { to: "get-messages-updated-after", pass: ["path date", "train_number", "train_departure_date", "station", "only_general", "only_active"] } },
    functions: {
      "upload-rosm-message": { on: ["interface"], may: [], env: { ROSM_SQS_URL: "send", DLQ_URL: "send" } }, "process-rosm-queue": { partial: true, on: ["queue Short-RosmSqs-Queue"], may: SEC, env: { DLQ_URL: "send" } }, "process-sm-queue": { partial: true, on: ["queue Short-SmSqs-Queue"], may: SEC, env: { DLQ_URL: "send", UDOT_SQS_URL: "send" } },
      "process-udot-queue": { partial: true, on: ["queue Short-UdotSqs-Queue"], may: SEC, env: { DLQ_URL: "send" } }, "process-dlq": { on: ["queue RAMI-DLQ"], may: [], env: { SQS_DLQ_BUCKET_NAME: "write" } }, "delete-old-data": { on: ["schedule"], may: SEC }, "get-active-messages": { on: ["interface"], may: SEC }, "get-messages-updated-after": { on: ["interface"], may: SEC },
    },
  },
  "rail/yearly-plans": { stack: "yearly-plans-stack", routes: {}, functions: { "update-plans": { on: ["schedule"], may: SEC, env: { YEARLY_PLANS_BUCKET_NAME: "write", PROJECT_PLANS_BUCKET_NAME: "write" } } } },
  "road/counting-site": {
    stack: "counting-site-cdk-stack",
    routes: both(Object.fromEntries([["travel-modes"], ["directions"], ["domains"], ["values", "get-values", ["*"]], ["values.csv", "get-values-csv", ["*"]], ["sites", "get-sites", ["*"]], ["sites/{siteId}", "get-sites", ["path siteId", "*"]]].map(([p, to, pass]) => ["/api/counting-site/v2/" + p, to ? { to, pass } : { fixed: true }]))),
    functions: { "update-metadata": { on: ["schedule"], may: SEC }, "update-data": { on: ["schedule"], may: SEC }, "get-values": { on: ["interface"], may: SEC }, "get-values-csv": { on: ["interface"], may: SEC }, "get-sites": { on: ["interface"], may: SEC } },
  },
  "road/data-upload": {
    stack: "data-upload-stack", routes: { "PUT /upload/v1/datex2": { to: "upload-datex2", whole: true } },
    functions: { "delete-old-messages": { on: ["schedule"], may: SEC }, "handle-new-messages": { on: ["queue Short-DataQueue-Queue"], may: SEC, env: { MQTT_QUEUE_URL: "send" } }, "send-mqtt": { on: ["queue Short-MqttQueue-Queue"], may: SEC }, "upload-datex2": { on: ["interface"], may: [...SEC, "send queue Short-DataQueue-Queue"], env: { QUEUE_URL: "send" } } },
  },
  "road/lam-history": { stack: "lam-history-stack", routes: {}, functions: { "update-lam-stations": { on: ["schedule"], may: SEC, env: { BUCKET_NAME: "write" } } } },
  "road/maintenance-tracking": {
    stack: "maintenance-tracking-stack", routes: { "POST /maintenance-tracking/v1/update": { to: "update-queue", whole: true } },
    functions: {
      "update-queue": { on: ["interface"], may: ["send queue MaintenanceTrackingQueue", "write bucket SqsExtendedMessageBucket"], env: { SQS_QUEUE_URL: "send" } }, "process-queue": { on: ["queue MaintenanceTrackingQueue"], may: [...SEC, "read bucket SqsExtendedMessageBucket", "delete bucket SqsExtendedMessageBucket"] },
      "process-dlq": { on: ["queue MaintenanceTrackingQueue-DLQ"], may: [], env: { SQS_DLQ_BUCKET_NAME: "write" } }, "clean-maintenance-tracking-data": { on: ["schedule"], may: SEC },
    },
  },
  "road/maintenance-tracking-municipality": { stack: "maintenance-tracking-municipality-cdk-stack", routes: {}, functions: { "paikannin-update-data": { on: ["schedule"], may: SEC } } },
  "road/variable-signs": {
    stack: "variable-signs-cdk-stack", flags: ["enableDatexII35", "enableDatexII37"],
    routes: (f) => ({
      "PUT /variable-signs/v1/update-datex2": { to: "update-datex2", whole: true }, "PUT /variable-signs/v1/update-data": { to: "update-json-data", whole: true }, "PUT /variable-signs/v1/update-metadata": { to: "update-json-metadata", whole: true },
      ...both({ "/api/variable-sign/v1/signs.datex2": { to: "get-datex2" }, "/api/variable-sign/v1/images/{text}": { to: "get-sign-image", pass: ["path text"] } }),
      ...both(Object.fromEntries(["3.5", "3.7"].filter((v) => f["enableDatexII" + v.replace(".", "")]).flatMap((v) => [["signs", "situations"], ["statuses", "statuses"], ["controllers", "controllers"]].map(([p, to]) => [`/api/variable-sign/v1/${p}/datex2-${v}.xml`, { to: `get-${to}-datex2-${v.replace(".", "")}` }])))),
    }),
    functions: (f) => Object.fromEntries([["update-datex2"], ["update-json-data"], ["update-json-metadata"], ["get-datex2"], ["get-sign-image"], ...["35", "37"].filter((v) => f["enableDatexII" + v]).flatMap((v) => ["situations", "statuses", "controllers"].map((k) => [`get-${k}-datex2-${v}`]))].map(([k]) => [k, { on: ["interface"], may: SEC }])),
  },
  "other/status": { stack: "status-stack", routes: {}, functions: { "update-status": { on: ["schedule"], may: SEC }, "handle-maintenance": { on: ["schedule"], may: SEC }, "check-component-states": { on: ["schedule"], may: SEC }, "test-slack-notify": { on: [], may: SEC } } },
  "other/os-key-figures": {
    stack: "os-key-figures-stack", routes: {},
    functions: {
      "collect-os-key-figures": { on: ["schedule"], may: ["sts:AssumeRole arn:role"], set: { ROLE: "arn:role", OS_HOST: "os host", OS_VPC_ENDPOINT: "endpoint", OS_INDEX: "index", OS_AFIR_INDEX: "afir index", ...DB, ...Object.fromEntries(["MARINE", "RAIL", "ROAD", "AFIR"].map((k) => [k + "_ACCOUNT_NAME", k])) }, events: ["*", "afir", "marine", "rail", "road 1/2", "road 2/2"] },
      "create-visualizations": { on: ["schedule"], may: ["write *"], set: { ...DB, BUCKET_NAME: "visualizations" } },
    },
  },
  "other/opensearch-monitors": { stack: "monitor-stack", flags: ["createLambda"], routes: {}, functions: (f) => (f.createLambda ? { "update-os-monitors": { on: ["deployment"], may: [...SEC, "sts:AssumeRole arn:role"], set: { ROLE: "arn:role", OS_HOST: "os host", OS_VPC_ENDPOINT: "endpoint", SECRET_ID: "secret" } } } : {}) },
  "other/swagger-joiner": { stack: "swagger-joiner-stack", routes: {}, functions: { "update-swagger": { on: ["schedule"], may: ["apigateway:GET *"], env: { BUCKET_NAME: "write" }, set: { APIGW_APPS: '["api"]' } }, "update-api-gateway-documentation": { on: [], may: ["GET", "POST", "PUT", "PATCH"].map((m) => `apigateway:${m} *`), set: { APIGW_IDS: '["api"]', REGION: undefined } } } },
  "other/test-api-stack": { stack: "test-api-stack", routes: both({ "/api/test/v1/test1": { to: "test-get", pass: ["*"], as: "open" }, "/api/test/v1/test2": { to: "test-get", pass: ["q1", "q2"], as: "open" } }), functions: { "test-get": { on: ["interface"], may: SEC } } },
};
const configuration = (S, app, flags) => ({
  shortName: "Short", secretId: "secret", alarmTopicArn: "alarms", warningTopicArn: "warnings", vpcId: "vpc", lambdaDbSgId: "sg", privateSubnetIds: [], availabilityZones: [], trafficType: "Marine", stackProps: {},
  production: flags.production, stackFeatures: { enableCanaries: flags.canaries, enableDocumentation: flags.documentation }, ...flags, updateFrequency: flags.frequent ? { minutes: 1 } : undefined,
  dlqBucketName: "dlq", bucketName: "bucket", domain: "d", url: "u", integrations: [], apiKey: "key", sqsDlqBucketName: "dlq", sqsMessageBucketName: "mb", dbClusterIdentifier: "cl", documentationBucketName: "doc", cloudfrontArn: "arn", cloudfrontDistributionArn: "arn:d",
  apiGwAppIds: ["api"], defaultLambdaDurationSeconds: 60, nodePingTimeoutSeconds: 10, nodePingCheckInterval: 1, cStatePageUrl: "u", gitHubOwner: "o", gitHubRepo: "r", gitHubBranch: "b", gitHubWorkflowFile: "w", gitHubUpdateMaintenanceWorkflowFile: "m",
  openSearchVPCEndpoint: "endpoint", openSearchHost: "os host", openSearchLambdaRoleArn: "arn:role", osRoleArn: "arn:role", osHost: "os host", osVpcEndpoint: "endpoint", monitors: [], slackWebhook: "s", mysql: { password: "password", database: "database", host: "db host", user: "user" }, allowedIpAddresses: [], rdsSecurityGroupId: "sg", marineAccountName: "MARINE", railAccountName: "RAIL", roadAccountName: "ROAD", afirAccountName: "AFIR", osIndex: "index", osAfirIndex: "afir index", visualizationsBucketName: "visualizations",
  bucketReaderArns: flags.readers ?? [], bucketWriterArns: flags.writers ?? [],
});
// what functions import from outside the repository is there and does nothing
const anything = () => {
  const f = function () {};
  const p = new Proxy(f, { get: (t, k) => (k === "prototype" ? t.prototype : k === Symbol.toPrimitive ? () => "x" : typeof k === "symbol" || ["$t", "$sbuf", "then", "toJSON", "length", "name", "constructor", "call", "apply", "bind"].includes(k) ? t[k] : k === "__esModule" ? true : p), apply: () => p, construct: () => p });
  return p;
};
const PACKAGES = ["pg-promise", "ky", "xml2js", "mysql2/promise", "mysql2/promise.js", "mysql", "mqtt", "ws", "wkx", "undici", "sqs-extended-client", "kysely", "amazon-cognito-identity-js", "ajv", "ajv-formats", "uuid", "p-limit", "@aws-sdk/client-s3", "@aws-sdk/client-sqs", "@aws-sdk/client-sts", "@aws-sdk/client-sns", "@aws-sdk/client-ssm", "@aws-sdk/client-secrets-manager", "@aws-sdk/client-api-gateway", "@smithy/protocol-http", "@smithy/signature-v4", "@smithy/node-http-handler", "@smithy/fetch-http-handler", "@aws-crypto/sha256-browser", "@aws-sdk/lib-storage", "@aws-sdk/client-apigatewayv2", "@middy/core", "@middy/sqs-partial-batch-failure", "aws-jwt-verify", "mysql", "node:https", "node:fs", "node:fs/promises", "node:stream", "node:querystring", "node:crypto", "node:zlib", "zlib", "aws-cdk-lib", "aws-cdk-lib/aws-lambda"];
function started(S, app, cdk, f) {
  S.world.process.env = { AWS_REGION: "eu-west-1" };
  const env = f.$props.environment ?? {};
  for (const k of Object.keys(env)) S.world.process.env[k] = typeof env[k] === "string" ? env[k] : "token";
  const parts = code(f).split("/"), flat = FLAT.includes(app);
  const [module, name] = parts[parts.length - 1].split(".");
  // where the bundler puts code: beside its source's folder, or, when it is the only one, in a folder of its own name
  const alone = functionsOf(cdk).length === 1;
  if (parts.length !== (flat && !alone ? 1 : 2) || (alone && parts[0] !== module)) return { error: true };
  const path = `${app}/src/lambda/${flat ? "" : (alone ? nameIn(f) : parts[0]) + "/"}${module}.ts`;
  return S.sync(() => S.load(path)[name]);
}
// applications whose functions' sources are not in folders of their own
const FLAT = ["other/os-key-figures", "other/opensearch-monitors"];
const application = (app) => {
  const A = APPS[app];
  return {
    bounds: "every combination of the feature switches for the addresses, triggers and rights; all features on for the parameters, one at a time with any value of 1..2 characters, and for starting each function",
    reach: ["built", ...(typeof A.routes === "function" || Object.values(A.routes).some((r) => r.as !== "open") ? ["guarded"] : []), ...(app === "aviation/aviation-data" ? [] : ["equipped", "starts"])],
    budgetMs: 240000,
    async run(S) {
      const { cdk, routes } = network(S);
      const m = S.load(`${app}/src/${A.stack}.ts`);
      const Stack = Object.values(m).find((x) => typeof x === "function" && x.name.endsWith("Stack"));
      const what = S.choose("what", ["tables", ...["parameters", "starts"]]), flags = {};
      for (const k of ["production", "canaries", "documentation", ...(A.flags ?? [])]) flags[k] = what === "tables" ? S.decide(S.bool(k)) : true;
      if (A.lists) for (const k of ["readers", "writers"]) flags[k] = Array.from({ length: S.choose(k, [0, 1, 2]) }, (_, n) => `arn:aws:iam::${k}:user/${n}`);
      const built = S.sync(() => new Stack(undefined, "Id", configuration(S, app, flags)));
      if (built.error?.name === "TypeError") S.gap("the application uses what the recorder has not: " + built.error.message);
      if (built.error) S.fail("the application can be built");
      S.reach("built");
      // no two parts of one scope share a name
      const names = new Map();
      for (const c of cdk.all) {
        const [scope, id] = c.$args ?? [];
        if (!c.node || !scope?.node || typeof id !== "string" || (c.$static !== undefined && !/^from/.test(c.$static))) continue;
        if (!names.has(scope.node)) names.set(scope.node, new Set());
        S.assert(!names.get(scope.node).has(id), "parts of one scope have names of their own");
        names.get(scope.node).add(id);
      }
      const wanted = typeof A.routes === "function" ? A.routes(flags) : A.routes;
      const functions = typeof A.functions === "function" ? A.functions(flags) : A.functions;
      const fn = Object.fromEntries(functionsOf(cdk).map((f) => [nameIn(f), f]));
      S.assert(Object.keys(fn).length === functionsOf(cdk).length, "functions have code of their own");
      if (A.lists) aviation(S, cdk, flags);
      // addresses
      const seen = new Set();
      for (const r of routes) {
        const key = `${r.method} ${r.path}`, w = wanted[key];
        S.assert(!!w, "only the application's addresses are answered");
        S.assert(!seen.has(key), "every address is answered once");
        seen.add(key);
        const as = r.o.apiKeyRequired === true ? "key" : r.o.authorizer ? "login" : "open";
        S.assert(as === (w.as ?? "key"), "addresses are guarded by a key or a login");
        if (as === "login") S.assert(functionsOf(cdk).includes(r.o.authorizer.$props?.handler), "logins are checked by a function");
        if (as === "key") { S.assert(hasKey(cdk, r.api), "interfaces with keys have a usage plan with a key"); S.reach("guarded"); }
      }
      for (const k of Object.keys(wanted)) S.assert(seen.has(k), "all addresses of the application are answered");
      for (const r of routes) {
        const w = wanted[`${r.method} ${r.path}`], i = r.integration;
        if (w.fixed) { S.assert(i.$type === "MockIntegration", "fixed answers need no function"); continue; }
        if (w.to) S.assert(i.$type === "LambdaIntegration" && i.$args[0] === fn[w.to], "addresses are answered by their function");
      }
      // parameters
      const cases = routes.flatMap((r) => { const w = wanted[`${r.method} ${r.path}`]; return (w.storage ? [...w.storage.matchAll(/\{(\w+)\}/g)].map((x) => "path " + x[1]) : w.queue ? ["body"] : w.pass ?? []).map((p) => ({ r, w, p })); });
      if (what === "parameters") { if (cases.length > 0) passed(S, cdk, S.choose("parameter", cases)); return; }
      // functions
      for (const k of Object.keys(functions)) S.assert(fn[k] !== undefined, "the application has its functions");
      for (const k of Object.keys(fn)) S.assert(functions[k] !== undefined, "the application has only its functions");
      for (const k of Object.keys(functions)) {
        const f = fn[k], w = functions[k], may = rights(cdk, f);
        S.assert(triggers(cdk, routes, f).sort().join() === w.on.sort().join(), "functions are started by what they are for");
        for (const { args: [e] } of cdk.calls.filter((c) => c.method === "addEventSource" && c.self === f)) {
          const [q, o] = e.$args;
          if (w.partial) S.assert(o?.reportBatchItemFailures === true, "messages that failed are not taken off their queue");
          S.assert((o?.batchSize ?? 10) <= 10 || (o.maxBatchingWindow?.toSeconds() > 0 && q.$props?.fifo !== true), "large batches are waited for");
          S.assert((q.$props?.visibilityTimeout?.toSeconds() ?? 30) >= (f.$props.timeout?.toSeconds() ?? 3), "messages are not given out again while they are processed");
        }
        for (const r of w.may) S.assert(may.includes(r), "functions may use what they need");
        if (w.events) S.assert(asked(cdk, f).sort().join() === w.events.join(), "schedules ask for every part once");
        const env = f.$props.environment ?? {};
        for (const [k, v] of Object.entries(w.set ?? {})) S.assert(v === undefined ? env[k] !== undefined : env[k] === v, "functions are given the settings they need");
        for (const [v, right] of Object.entries(w.env ?? {})) {
          const x = [...cdk.of("Queue"), ...cdk.of("Bucket"), ...cdk.of("Topic")].find((y) => env[v] !== undefined && (env[v] === y.queueUrl || env[v] === y.bucketName || env[v] === y.topicArn));
          if (!x) S.fail("settings name the queues and buckets of the application");
          S.assert(may.includes(`${right} ${nameOf(x)}`) || may.includes(`${right} *`), "functions may use the queues and buckets they are told of");
        }
        if (env.SECRET_ID !== undefined && w.may.includes(SEC[0])) S.assert(S.eq(env.SECRET_ID, "secret"), "functions are told the secret of the application");
        if (env.PUBLISH_TOPIC_ARN !== undefined) S.assert(cdk.of("Topic").some((t) => t.topicArn === env.PUBLISH_TOPIC_ARN && may.includes("publish " + nameOf(t))), "functions may publish to the topic they are told of");
      }
      S.reach("equipped");
      if (what !== "starts" || Object.keys(functions).length === 0) return;
      const h = started(S, app, cdk, fn[S.choose("function", Object.keys(functions))]);
      S.assert(!h.error && typeof h.value === "function", "the code of the function starts with its settings");
      S.reach("starts");
    },
  };
};
const nameIn = (f) => code(f).split(/[/.]/)[0].replace(/^lambda-/, "");
function hasKey(cdk, api) {
  return cdk.of("UsagePlan").some((p) => {
    const stages = [...(p.$props?.apiStages ?? []), ...cdk.calls.filter((c) => c.method === "addApiStage" && c.self === p).map((c) => c.args[0])];
    const keys = [...(p.$props?.apiKey ? [1] : []), ...cdk.calls.filter((c) => c.method === "addApiKey" && c.self === p)];
    return keys.length > 0 && stages.some((s) => s.stage !== undefined && s.stage === api.deploymentStage);
  });
}
function passed(S, cdk, { r, w, p }) {
  const i = r.integration;
  if (w.queue || w.storage) {
    const a = i.$args[0];
    S.assert(i.$type === "AwsIntegration", "the address leads to a service");
    const may = rights(cdk, a.options?.credentialsRole ?? {});
    if (w.queue) {
      const q = cdk.of("Queue").find((x) => x.node.id === w.queue);
      S.assert(q && a.service === "sqs" && `${a.path}`.endsWith("/" + q.queueName) && may.includes("send " + nameOf(q)), "messages go to the queue, which is allowed");
      const t = a.options.requestTemplates?.["application/json"] ?? "";
      const body = S.str("body", [1, 2], " -~");
      const asked = [];
      const out = render(S, t, { input: { body, params: () => new VMap(S, []) }, util: { urlEncode: (s) => { asked.push(s); return "ENCODED"; } } });
      S.assert(asked.length === 1 && S.decide(S.eq(asked[0], body)), "the whole message is sent");
      S.assert(`${out}`.split("&").includes("MessageBody=ENCODED") && `${out}`.split("&").includes("Action=SendMessage"), "the message is sent");
      return;
    }
    const b = cdk.of("Bucket").find((x) => `${a.path}`.startsWith(x.bucketName + "/"));
    S.assert(b && a.service === "s3" && (a.integrationHttpMethod ?? "POST") === "GET" && may.includes("read " + nameOf(b)), "what is stored can be read");
    const rp = a.options.requestParameters ?? {};
    const target = a.path.slice(b.bucketName.length + 1).replace(/\{(\w+)\}/g, (_, k) => { const v = rp["integration.request.path." + k]; return v?.startsWith("method.request.path.") ? `{${v.slice(20)}}` : "?"; });
    for (const v of Object.values(rp)) S.assert(r.o.requestParameters?.[v] === true, "parts of an address are declared");
    S.assert(target === w.storage, "addresses lead to what is stored under that name");
    return;
  }
  const t = i.$args[1]?.requestTemplates?.["application/json"];
  if (t === undefined) S.fail("parameters are passed");
  const [kind, name] = p.includes(" ") ? p.split(" ") : ["query", p === "*" ? "zz" : p];
  const v = S.str("value", [1, 2], " -~");
  const req = { path: new VMap(S), querystring: new VMap(S), multi: {}, context: { responseOverride: { header: {} } } };
  if (kind === "path") req.path.put(name, v);
  if (kind === "query") { req.querystring.put(name, v); req.multi[name] = [v]; }
  if (kind === "context") { const parts = name.split("."); req.context[parts[0]] = { [parts[1]]: v }; }
  const out = render(S, t, { input: { params: () => new VMap(S, [["path", req.path], ["querystring", req.querystring], ["header", new VMap(S)]]), body: "" }, util: { escapeJavaScript: (s) => escapeJavaScript(S, s), base64Encode: () => "b" }, method: { request: { multivaluequerystring: req.multi } }, context: req.context });
  const j = S.sync(() => readJson(S, out));
  const got = j.error ? undefined : j.value.get(name);
  if (got === undefined) S.fail("every parameter reaches the function");
  S.assert(S.eq(Array.isArray(got) ? got[0] : got, v), "every parameter has the value that was sent");
}
// readers read, writers write, nobody else does anything
function aviation(S, cdk, flags) {
  const [b] = cdk.of("Bucket");
  S.assert(cdk.of("Bucket").length === 1 && b.$props.publicReadAccess === false && b.$props.blockPublicAccess?.$path === "BlockPublicAccess.BLOCK_ALL", "nobody else has access");
  const sts = cdk.calls.filter((c) => c.method === "addToResourcePolicy" && c.self === b).map((c) => c.args[0].$props);
  const arn = (u) => u.$args?.[2];
  for (const s of sts) S.assert(s.principals.length === 1 && [...flags.readers, ...flags.writers].includes(arn(s.principals[0])), "only readers and writers are given access");
  const can = (who, action, key) => sts.some((s) => arn(s.principals[0]) === who && s.actions.some((x) => x === action || (x === "s3:*Object" && /Object$/.test(action))) && s.resources.includes(b.bucketArn + key));
  for (const u of flags.writers) S.assert(can(u, "s3:PutObject", "/*") && can(u, "s3:DeleteObject", "/*") && can(u, "s3:ListBucket", ""), "writers write");
  for (const u of flags.readers) S.assert(can(u, "s3:GetObject", "/*") && can(u, "s3:ListBucket", "") && !can(u, "s3:PutObject", "/*") && !can(u, "s3:DeleteObject", "/*"), "readers only read");
}
export const harnesses = Object.fromEntries(Object.keys(APPS).map((k) => [k.split("/")[1], application(k)]));
