import { LIB, quiet } from "./_util.js";
import { cdkRecorder } from "./_cdk.js";
export const property = {
  id: "C18",
  title: "Functions, canaries and stacks get exactly the configuration asked for",
  statement: "A function runs the code, handler, time limit, memory, concurrency, network, layers, role and environment asked for or the documented defaults, and the last request counts. Database and secret access, including the environment that goes with it, is given exactly when asked for, is refused when the stack cannot give it, own environment values win, and the role is allowed only the requested actions, never all of them by a single wildcard. Functions log to their own group, kept for a year by default, stacks take their secret, network and monitoring topics from their configuration and the shared parameters, and canaries see only the secret, network and key they were given.",
  quantifier: { over: ["inputs"], text: "any numbers, repeated requests, environments of up to 2 variables with any name and value of up to 3 characters or the reserved names, all combinations of features" },
  why_tests_cant: "The tests try each setting once and alone; mixing features, repeating requests and missing configuration are left open.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/stack/dt-function.ts", "lib/digitraffic-common/src/aws/infra/stack/monitoredfunction.ts", "lib/digitraffic-common/src/aws/infra/stack/lambda-configs.ts", "lib/digitraffic-common/src/aws/infra/stack/lambda-log-group.ts", "lib/digitraffic-common/src/aws/infra/stack/subscription.ts", "lib/digitraffic-common/src/aws/infra/stack/stack.ts", "lib/digitraffic-common/src/aws/infra/stack/parameters.ts", "lib/digitraffic-common/src/aws/infra/canaries/canary.ts", "lib/digitraffic-common/src/aws/infra/canaries/url-canary.ts", "lib/digitraffic-common/src/aws/infra/canaries/database-canary.ts", "lib/digitraffic-common/src/aws/infra/canaries/canary-role.ts"],
    mechanism: [{ name: "FunctionBuilder", where: "lib/digitraffic-common/src/aws/infra/stack/dt-function.ts" }, { name: "databaseFunctionProps", where: "lib/digitraffic-common/src/aws/infra/stack/lambda-configs.ts" }, { name: "DigitrafficStack", where: "lib/digitraffic-common/src/aws/infra/stack/stack.ts" }],
    observe_at: "what is given to the infrastructure library",
  },
  assumptions: ["names are words of letters and digits separated by dashes or slashes, taken from a list", "the infrastructure library does what its properties say"],
};
const D = LIB + "aws/infra/stack/", CAN = LIB + "aws/infra/canaries/";
const defs = () => ({ props: { Function: { functionName: (self) => self.$props?.functionName } } });
function stackOf(S, cdk, conf = {}) {
  const { DigitrafficStack } = S.load(D + "stack.js");
  return new DigitrafficStack(cdk.make("aws-cdk-lib", "App"), "TheStack", { shortName: "Foo", production: false, trafficType: null, secretId: "the-secret", vpcId: "vpc", lambdaDbSgId: "sg", privateSubnetIds: ["s1"], availabilityZones: ["a"], stackProps: {}, ...conf });
}
const NAMES = { "update-things": "UpdateThings", get: "Get", "get-my-things": "GetMyThings", "dump/locations": "DumpLocations", "update-v2": "UpdateV2" };
const path = (x) => x?.$path;
const grants = (cdk) => cdk.called("grantRead");
// the log group of a function
function logs(S, cdk, fn, stack, name, short) {
  const g = cdk.of("LogGroup");
  S.assert(g.length === 1 && fn.$props.logGroup === g[0] && g[0].$args[0] === stack, "the function has its own log group");
  S.assert(g[0].$props.logGroupName === `/${short}/lambda/${name}` && g[0].$props.retention === 365, "the logs have their place and are kept for a year");
}
export const harnesses = {
  settings: {
    bounds: "five names, any number, each setting requested 0..2 times with different values",
    reach: ["default", "once", "twice"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const { FunctionBuilder } = S.load(D + "dt-function.js");
      const stack = stackOf(S, cdk, { vpcId: S.choose("vpc", ["vpc", undefined]) });
      const name = S.choose("name", Object.keys(NAMES));
      const fnName = "Foo-" + NAMES[name];
      const L = cdk.module("aws-cdk-lib/aws-lambda"), Duration = cdk.module("aws-cdk-lib").Duration;
      const b = FunctionBuilder.create(stack, name);
      const what = S.choose("what", ["memory", "timeout", "concurrency", "runtime", "architecture", "description", "role", "handler", "code", "asset", "layers", "groups", "handlerAfterAsset"]);
      const n = S.choose("n", [0, 1, 2]);
      const last = name.split("/").pop();
      const want = { memory: 128, ms: 60000, concurrency: 2, runtime: L.Runtime.NODEJS_24_X, architecture: L.Architecture.ARM_64, description: undefined, role: undefined, handler: last + ".handler", asset: ["dist/lambda/" + name, undefined], code: undefined, layers: undefined, groups: [] };
      for (let i = 0; i < n; i++) {
        let r;
        if (what === "memory") r = b.withMemorySize((want.memory = S.int("memory" + i, 0, 10240)));
        if (what === "timeout") { const s = S.int("seconds" + i, 1, 900); want.ms = s * 1000; r = b.withTimeout(Duration.seconds(s)); }
        if (what === "concurrency") r = b.withReservedConcurrentExecutions((want.concurrency = S.int("conc" + i, 0, 100)));
        if (what === "runtime") r = b.withRuntime((want.runtime = i ? L.Runtime.PYTHON_3_13 : L.Runtime.NODEJS_22_X));
        if (what === "architecture") r = b.withArchitecture((want.architecture = i ? L.Architecture.ARM_64 : L.Architecture.X86_64));
        if (what === "description") r = b.withDescription((want.description = S.str("description" + i, [0, 2], "a-z")));
        if (what === "role") r = b.withRole((want.role = { role: i }));
        if (what === "handler") { const m = S.choose("method" + i, [undefined, "main"]); r = m ? b.withHandler("mod" + i, m) : b.withHandler("mod" + i); want.handler = `mod${i}.${m ?? "handler"}`; }
        if (what === "code") r = b.withCode((want.code = { code: i }));
        if (what === "asset" || what === "handlerAfterAsset") {
          const p = S.choose("path" + i, ["x/y" + i, "z" + i, undefined]), ex = S.choose("exclude" + i, [undefined, ["a"]]);
          r = b.withAssetCode(p, ex);
          want.asset = ["dist/lambda/" + (p ?? name), ex]; want.handler = (p ?? name).split("/").pop() + ".handler";
          if (what === "handlerAfterAsset") { b.withHandler("own"); want.handler = "own.handler"; }
        }
        if (what === "layers") { const l = [{ l: i }, { l2: i }]; r = b.withLayers(...l); want.layers = [...(want.layers ?? []), ...l]; }
        if (what === "groups") { const g = [{ g: i }, { g2: i }]; r = b.withSecurityGroup(...g); want.groups = [...want.groups, ...g]; }
        S.assert(r === b, "requests can be chained");
      }
      S.reach(["default", "once", "twice"][n]);
      const fn = b.build(), p = fn.$props;
      S.assert(cdk.of("Function").length === 1 && fn.$args[0] === stack && fn.$args[1] === fnName && p.functionName === fnName, "one function with the name of the stack and its own");
      S.assert(S.eq(p.memorySize, want.memory) && S.eq(p.timeout.toMilliseconds(), want.ms) && S.eq(p.reservedConcurrentExecutions, want.concurrency), "memory, time limit and concurrency are the requested ones");
      S.assert(p.runtime === want.runtime && p.architecture === want.architecture && p.role === want.role, "runtime, architecture and role are the requested ones");
      S.assert(S.eq(p.description, want.description), "the description is the requested one");
      S.assert(p.handler === want.handler, "the requested handler runs");
      if (want.code) S.assert(p.code === want.code, "the requested code runs");
      else S.assert(p.code.$type === "AssetCode" && p.code.$args[0] === want.asset[0] && S.eq(p.code.$args[1]?.exclude, want.asset[1]), "the requested code runs");
      S.assert(S.eq(p.layers ?? [], want.layers ?? []), "the requested layers are used");
      const groups = p.securityGroups;
      S.assert(groups.length === want.groups.length + 1 && want.groups.every((g) => groups.includes(g)) && groups.includes(stack.lambdaDbSg), "all requested security groups are used");
      S.assert(p.vpc === stack.vpc && (stack.vpc === undefined) === (p.vpcSubnets === undefined), "the function is in the network of the stack");
      if (stack.vpc) S.assert(p.vpcSubnets.subnets === stack.vpc.privateSubnets, "in its private part");
      S.assert(p.loggingFormat === L.LoggingFormat.JSON, "the function logs JSON");
      logs(S, cdk, fn, stack, fnName, "Foo");
    },
  },
  access: {
    bounds: "database and secret access asked for or not, security group and secret of the stack there or not; environments set 0..2 times with any or reserved names; 0..2 statements; 0..3 allowed actions of 1..2 characters or a wildcard in up to two requests",
    reach: ["full", "none", "refused", "wildcard", "own"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const { FunctionBuilder } = S.load(D + "dt-function.js");
      const hasSg = S.choose("sg", [true, false]), hasSecret = S.choose("secret", [true, false]);
      const stack = stackOf(S, cdk, { lambdaDbSgId: hasSg ? "sg" : undefined, secretId: hasSecret ? "the-secret" : undefined });
      let db = S.choose("db", [true, false]), secret = S.choose("secretAccess", [true, false]);
      let b;
      if (!db && !secret && S.choose("plain", [true, false])) b = FunctionBuilder.plain(stack, "fn");
      else { b = S.choose("new", [true, false]) ? FunctionBuilder.create(stack, "fn") : new FunctionBuilder(stack, "fn"); if (!db) b.withoutDatabaseAccess(); if (!secret) b.withoutSecretAccess(); }
      const own = {};
      const focus = S.choose("focus", ["env", "policies"]);
      if (focus === "env") {
        const times = S.choose("times", [0, 1, 2]);
        for (let i = 0; i < times; i++) {
          const name = S.choose("key" + i, ["SECRET_ID", "DB_APPLICATION", "OTHER"]);
          const value = S.str("value" + i, [0, 2], "a-z");
          b.withEnvironment({ [name]: value, ["K" + i]: "x" });
          own[name] = value; own["K" + i] = "x";
        }
      }
      const statements = [], actions = [];
      let wildcard = false;
      if (focus === "policies") {
        const ns = S.choose("statements", [0, 1, 2]);
        for (let i = 0; i < ns; i++) statements.push({ statement: i });
        if (ns === 2 && S.choose("together", [true, false])) b.withRolePolicies(...statements); else for (const s of statements) b.withRolePolicies(s);
        const na = S.choose("actions", [0, 1, 2, 3]);
        for (let i = 0; i < na; i++) { const a = S.str("action" + i, [1, 2], "a*"); actions.push(a); wildcard = S.or(wildcard, S.eq(a, "*")); }
        if (na > 1 && S.choose("split", [true, false])) { b.withAllowedActions(actions[0]); b.withAllowedActions(...actions.slice(1)); } else if (na) b.withAllowedActions(...actions);
      }
      const r = S.sync(() => b.build());
      const refused = S.or(db && !hasSg, secret && !hasSecret, wildcard);
      if (S.decide(refused)) {
        S.reach(S.decide(wildcard) ? "wildcard" : "refused");
        S.assert(r.error instanceof Error, "access that cannot be given is refused");
        return;
      }
      S.assert(!r.error, "the function is built");
      S.reach(db && secret ? "full" : "none");
      const fn = r.value, p = fn.$props;
      const env = { ...(secret ? { SECRET_ID: "the-secret" } : {}), ...(db ? { DB_APPLICATION: "Foo" } : {}), ...own };
      if (Object.keys(own).length) S.reach("own");
      const got = Object.fromEntries(Object.entries(p.environment).filter((e) => e[1] !== undefined));
      S.assert(S.eq(got, env), "the environment has what belongs to the features, and own values win");
      S.assert(S.eq(p.securityGroups.map((g) => g === stack.lambdaDbSg), db ? [true] : []), "database access is through its security group");
      const g = grants(cdk);
      S.assert(g.length === (secret ? 1 : 0) && g.every((c) => c.self === stack.secret && c.args[0] === fn), "the secret can be read exactly when asked for");
      const added = cdk.called("addToRolePolicy");
      S.assert(added.every((c) => c.self === fn && c.args.length === 1) && added.length === statements.length + (actions.length ? 1 : 0), "nothing else is allowed");
      statements.forEach((s, i) => S.assert(added.some((c) => c.args[0] === s), "requested statements are added"));
      if (actions.length) {
        const st = added.find((c) => c.args[0].$type === "PolicyStatement").args[0].$props;
        S.assert((st.effect === undefined || st.effect === "Allow") && S.eq(st.resources, ["*"]) && S.eq(st.actions, actions) && !st.conditions && !st.principals, "requested actions are allowed");
      }
    },
  },
  older: {
    bounds: "the older ways of creating functions, with every parameter there or missing and any numbers; own and default environments",
    reach: ["v2", "db", "props", "config"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const { MonitoredFunction, MonitoredDBFunction } = S.load(D + "monitoredfunction.js");
      const C = S.load(D + "lambda-configs.js");
      const L = cdk.module("aws-cdk-lib/aws-lambda");
      const hasVpc = S.choose("vpc", [true, false]), hasSg = S.choose("sg", [true, false]), hasSecret = S.choose("secret", [true, false]);
      const stack = stackOf(S, cdk, { vpcId: hasVpc ? "vpc" : undefined, lambdaDbSgId: hasSg ? "sg" : undefined, secretId: hasSecret ? "the-secret" : undefined });
      const name = S.choose("name", ["update-things", "get"]);
      const how = S.choose("how", ["v2", "db", "props", "config"]);
      const P = {};
      const pick = S.choose("pick", ["none", "memory", "timeout", "concurrency", "runtime", "architecture", "role", "functionName"]);
      if (pick === "memory") P.memorySize = S.int("memory", 1, 10240);
      if (pick === "timeout") P.timeout = S.int("timeout", 1, 900);
      if (pick === "concurrency") P.reservedConcurrentExecutions = S.int("conc", 0, 100);
      if (pick === "runtime") P.runtime = L.Runtime.NODEJS_22_X;
      if (pick === "architecture") P.architecture = L.Architecture.X86_64;
      if (pick === "role") P.role = { role: 1 };
      if (pick === "functionName") P.functionName = "Own";
      const own = S.choose("own", [true, false]) ? { A: S.str("a", [0, 2], "a-z") } : undefined;
      S.reach(how);
      let p, fn;
      const fnName = P.functionName ?? "Foo-" + NAMES[name];
      const none = pick === "none" && S.choose("undefined", [true, false]);
      if (how === "config") {
        const given = { functionName: "N", code: { code: 1 }, handler: "h.x", logGroup: { g: 1 }, environment: own, ...P };
        if (hasVpc) given.vpc = stack.vpc;
        p = C.defaultLambdaConfiguration(given);
        S.assert(p.runtime === L.Runtime.NODEJS_24_X && S.eq(p.memorySize, P.memorySize ?? 128) && S.eq(p.timeout.toMilliseconds(), (P.timeout ?? 10) * 1000), "memory and time limit are the requested ones");
        S.assert(p.functionName === given.functionName && p.code === given.code && p.handler === "h.x" && p.role === P.role && p.logGroup === given.logGroup && S.eq(p.environment, own ?? {}) && S.eq(p.reservedConcurrentExecutions, P.reservedConcurrentExecutions), "everything else is as given");
        S.assert(p.vpc === (hasVpc ? stack.vpc : undefined) && (hasVpc ? p.vpcSubnets.subnets === stack.vpc.privateSubnets : p.vpcSubnets === undefined), "the network is the given one");
        return;
      }
      if (how === "props") p = C.databaseFunctionProps(stack, own ?? {}, fnName, name, { g: 1 }, none ? undefined : P);
      else {
        const r = S.sync(() => (how === "v2" ? MonitoredFunction.createV2(stack, name, own ?? {}, none ? undefined : P) : MonitoredDBFunction.create(stack, name, own, none ? undefined : P)));
        if (how === "db" && !hasSecret) { S.assert(r.error instanceof Error, "access that cannot be given is refused"); return; }
        S.assert(!r.error, "the function is created");
        fn = r.value; p = fn.$props;
        S.assert(fn.$args[0] === stack && fn.$args[1] === fnName && cdk.of("Function").length === 1, "one function");
        logs(S, cdk, fn, stack, fnName, "Foo");
        const g = grants(cdk);
        S.assert(g.length === (how === "db" ? 1 : 0) && g.every((c) => c.self === stack.secret && c.args[0] === fn), "the secret can be read exactly when asked for");
      }
      S.assert(p.functionName === fnName, "the function has its name");
      S.assert(p.runtime === (P.runtime ?? L.Runtime.NODEJS_24_X) && p.architecture === (P.architecture ?? L.Architecture.ARM_64) && p.role === P.role, "runtime, architecture and role are the requested ones");
      S.assert(S.eq(p.memorySize, P.memorySize ?? 128) && S.eq(p.timeout.toMilliseconds(), (P.timeout ?? 60) * 1000) && S.eq(p.reservedConcurrentExecutions, P.reservedConcurrentExecutions ?? 2), "memory, time limit and concurrency are the requested ones");
      S.assert(p.code.$type === "AssetCode" && p.code.$args[0] === "dist/lambda/" + name && p.handler === name + ".handler", "the requested code runs");
      S.assert(S.eq(p.environment, own ?? (how === "db" ? { SECRET_ID: "the-secret", DB_APPLICATION: "Foo" } : {})), "the environment is the given one or the default");
      S.assert(p.vpc === stack.vpc && (hasVpc ? p.vpcSubnets.subnets === stack.vpc.privateSubnets : p.vpcSubnets === undefined), "the function is in the network of the stack");
      const groups = [...(p.securityGroups ?? []), ...(p.securityGroup ? [p.securityGroup] : [])];
      S.assert(groups.length === (hasSg ? 1 : 0) && groups.every((g) => g === stack.lambdaDbSg), "database access is through its security group");
    },
  },
  stacks: {
    bounds: "every combination of present and missing secret, network, security group and log destination; any application name of 0..2 characters; 0..2 functions; log groups of both kinds; all shared parameters",
    reach: ["secret", "nosecret", "subscribed", "parameter"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const has = (k, v) => (S.choose("has-" + k, [true, false]) ? v : undefined);
      const conf = { secretId: has("secret", "the-secret"), vpcId: has("vpc", "vpc-1"), lambdaDbSgId: has("sg", "sg-1"), availabilityZones: has("zones", ["a", "b"]), privateSubnetIds: ["s1", "s2"], logsDestinationArn: has("logs", "arn:logs"), stackProps: { description: "d" } };
      const stack = stackOf(S, cdk, conf);
      S.assert(stack.$args[2] === conf.stackProps && stack.configuration.secretId === conf.secretId, "the configuration is kept");
      const sec = cdk.of("Secret"), vpc = cdk.of("Vpc"), sg = cdk.of("SecurityGroup");
      S.assert((stack.secret !== undefined) === (conf.secretId !== undefined) && sec.length === (conf.secretId ? 1 : 0), "the secret is there when configured");
      if (conf.secretId) S.assert(stack.secret.$static === "fromSecretNameV2" && stack.secret.$args[2] === "the-secret", "it is the configured one");
      S.assert((stack.vpc !== undefined) === (conf.vpcId !== undefined) && vpc.length === (conf.vpcId ? 1 : 0), "the network is there when configured");
      if (conf.vpcId) S.assert(stack.vpc.$static === "fromVpcAttributes" && S.eq(stack.vpc.$args[2], { vpcId: "vpc-1", privateSubnetIds: ["s1", "s2"], availabilityZones: conf.availabilityZones ?? [] }), "it is the configured one");
      S.assert((stack.lambdaDbSg !== undefined) === (conf.lambdaDbSgId !== undefined) && sg.length === (conf.lambdaDbSgId ? 1 : 0), "the security group is there when configured");
      if (conf.lambdaDbSgId) S.assert(stack.lambdaDbSg.$static === "fromSecurityGroupId" && stack.lambdaDbSg.$args[2] === "sg-1", "it is the configured one");
      const token = (n) => `\${Parameter[/digitraffic/monitoring/${n}-topic]}`;
      S.assert(stack.alarmTopic.$args[2] === token("alarm") && stack.warningTopic.$args[2] === token("warning"), "the topics are the shared ones");
      const app = S.str("app", [0, 2], "a-z");
      S.assert(S.eq(stack.createDefaultLambdaEnvironment(app), { ...(conf.secretId ? { SECRET_ID: "the-secret" } : {}), DB_APPLICATION: app }), "the environment has the secret and the application");
      S.assert(S.eq(stack.createLambdaEnvironment(), { ...(conf.secretId ? { SECRET_ID: "the-secret" } : {}), DB_APPLICATION: "Foo" }), "the application is the stack by default");
      const n = S.choose("functions", [0, 1, 2]);
      const fns = Array.from({ length: n }, (_, i) => Object.assign(cdk.make("aws-cdk-lib/aws-lambda", "Function", stack, "f" + i, { functionName: "F" + i }), { givenName: "F" + i }));
      const g = S.sync(() => stack.getSecret()), gr = S.sync(() => stack.grantSecret(...fns));
      if (conf.secretId) {
        S.reach("secret");
        S.assert(g.value === stack.secret && !gr.error, "the secret is handed out");
        S.assert(grants(cdk).length === n && fns.every((f, i) => grants(cdk)[i].args[0] === f && grants(cdk)[i].self === stack.secret), "exactly the given functions may read it");
      } else { S.reach("nosecret"); S.assert(g.error instanceof Error && gr.error instanceof Error && grants(cdk).length === 0, "a missing secret is refused"); }
      // logs
      const { DigitrafficLogSubscriptions, createSubscription } = S.load(D + "subscription.js");
      const single = S.choose("single", [true, false]);
      if (single) { for (const f of fns) { const r = createSubscription(f, f.givenName, conf.logsDestinationArn, stack); S.assert((r === undefined) === (conf.logsDestinationArn === undefined), "the subscription is returned"); } } else new DigitrafficLogSubscriptions(stack, ...fns);
      const subs = cdk.of("CfnSubscriptionFilter");
      S.assert(subs.length === (conf.logsDestinationArn ? n : 0), "logs are sent on exactly when there is a destination");
      subs.forEach((x, i) => { S.reach("subscribed"); S.assert(x.$args[0] === stack && x.$args[1] === `F${i}LogsSubscription` && x.$props.destinationArn === "arn:logs" && x.$props.filterPattern === "" && x.$props.logGroupName === fns[i].logGroup.logGroupName && x.node.dependencies.includes(fns[i]), "all logs of the function are sent to the destination"); });
      const { createLambdaLogGroup } = S.load(D + "lambda-log-group.js");
      const retention = S.choose("retention", [undefined, 7]);
      const plain = cdk.make("aws-cdk-lib", "Stack", undefined, "Plain");
      const which = S.choose("which", ["digitraffic", "plain"]);
      const lg = createLambdaLogGroup(which === "plain" ? { stack: plain, shortName: "Own", functionName: "Fn", retention } : { stack, functionName: "Fn", retention });
      S.assert(lg.$args[0] === (which === "plain" ? plain : stack) && lg.$props.logGroupName === `/${which === "plain" ? "Own" : "Foo"}/lambda/Fn` && lg.$props.retention === (retention ?? 365), "log groups have their place and time");
      // shared parameters
      const { createParameter, getParameterValue } = S.load(D + "parameters.js");
      const PN = { "cluster.reader": "db/reader-endpoint", "cluster.writer": "db/writer-endpoint", "cluster.identifier": "db/identifier", "proxy.reader": "db/proxy-reader-endpoint", "proxy.writer": "db/proxy-writer-endpoint" };
      const ids = new Set();
      for (const [type, where] of Object.entries(PN)) {
        const value = "value of " + type;
        const made = createParameter(stack, type, value);
        S.assert(made.$type === "StringParameter" && made.$args[0] === stack && made.$props.parameterName === "/digitraffic/" + where && made.$props.stringValue === value, "a parameter is stored in its place");
        S.assert(!ids.has(made.$args[1]), "under its own name");
        ids.add(made.$args[1]);
        S.assert(getParameterValue(stack, type) === `\${Parameter[${made.$props.parameterName}]}`, "and read from there");
      }
      S.assert(getParameterValue(stack, "topic.alarm") === token("alarm") && getParameterValue(stack, "topic.warning") === token("warning"), "so are the topics");
      S.reach("parameter");
    },
  },
  canaries: {
    bounds: "both kinds of canaries and all ways to create them; secret, key, network, schedule, runtime and own environment there or not; roles with every extension",
    reach: ["url", "db", "role", "vpc"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, { ...defs(), defaultChild: { Canary: { create: (self) => (self.$cfn ??= cdk.make("aws-cdk-lib/aws-synthetics", "CfnCanary", self, "Resource", {})) } } });
      const { UrlCanary } = S.load(CAN + "url-canary.js"), { DatabaseCanary } = S.load(CAN + "database-canary.js"), { DigitrafficCanaryRole } = S.load(CAN + "canary-role.js");
      const how = S.choose("how", ["url", "urlCreate", "db", "dbCreate", "dbV2", "role"]);
      const hasVpc = S.choose("vpc", [true, false]), hasSg = S.choose("sg", [true, false]);
      const hasSecret = how.startsWith("db") ? S.choose("stackSecret", [true, false]) : true;
      const stack = stackOf(S, cdk, { vpcId: hasVpc ? "vpc" : undefined, lambdaDbSgId: hasSg ? "sg" : undefined, secretId: hasSecret ? "the-secret" : undefined });
      if (stack.vpc) Object.defineProperty(stack.vpc, "privateSubnets", { value: [{ subnetId: "s1" }, { subnetId: "s2" }] });
      const role = new DigitrafficCanaryRole(stack, "cname");
      const policies = () => cdk.called("addToPolicy").filter((c) => c.self === role).map((c) => c.args[0].$props);
      const managed = () => cdk.called("addManagedPolicy").filter((c) => c.self === role).map((c) => c.args[0].$args[0]);
      if (how === "role") {
        S.reach("role");
        const what = S.choose("extension", ["none", "db", "vpc", "api"]);
        S.assert(role.$args[1] === "canary-role-cname" && role.$props.assumedBy.$args[0] === "lambda.amazonaws.com" && S.eq(role.$props.managedPolicies.map((m) => m.$args[0]), ["CloudWatchSyntheticsFullAccess"]), "the role is for functions");
        const before = policies();
        S.assert(before.length === 2 && before.every((p) => (p.effect ?? "Allow") === "Allow" && p.actions.every((a) => /^(logs:(Create|Put|Describe)\w+|cloudwatch:PutMetricData)$/.test(a))), "it may log and measure");
        S.assert(S.eq(before.find((p) => p.actions.includes("cloudwatch:PutMetricData")).conditions, { StringEquals: { "cloudwatch:namespace": "CloudWatchSynthetics" } }), "only its own measurements");
        const r = what === "db" ? role.withDatabaseAccess() : what === "vpc" ? role.withVpcAccess() : what === "api" ? role.withApiGatewayAccess() : role;
        S.assert(r === role, "extensions can be chained");
        S.assert(S.eq(managed(), what === "db" || what === "vpc" ? ["service-role/AWSLambdaVPCAccessExecutionRole"] : []), "network access is given exactly when asked for");
        const more = policies().slice(2);
        S.assert(S.eq(more.map((p) => [p.actions, p.resources]), what === "api" ? [[["apigateway:GET"], ["arn:aws:apigateway:*::/apikeys/*"]]] : []), "keys can be read exactly when asked for");
        return;
      }
      const P = {};
      const opt = (k, v) => { if (S.choose("has-" + k, [true, false])) P[k] = v; };
      opt("schedule", { schedule: 1 }); opt("canaryEnv", { OWN: "o", hostname: "mine", DB_APPLICATION: "mine" });
      if (how.startsWith("url")) { opt("inVpc", true); opt("secret", "param-secret"); } else opt("runtime", { runtime: 1 });
      let canary, env;
      if (how.startsWith("url")) {
        S.reach("url");
        const given = S.choose("given", [true, false]) ? { secret: 1, grantRead: (r) => granted.push(r) } : undefined;
        const granted = [];
        const key = S.choose("key", ["k1", undefined]);
        const otherRole = S.choose("otherRole", [true, false]) ? cdk.make("aws-cdk-lib/aws-iam", "Role", stack, "r2", {}) : role;
        const before = cdk.called("addToPolicy").length;
        let handler = "x.handler", host = "host";
        if (how === "url") canary = new UrlCanary(stack, otherRole, { name: "cname", handler, hostname: host, apiKeyId: key, ...P }, given);
        else {
          host = "api-host"; handler = "cname.handler";
          if (S.choose("override", [true, false])) { P.handler = handler = "own.handler"; P.hostname = host = "own-host"; }
          canary = UrlCanary.create(stack, otherRole, { hostname: () => "api-host", apiKeyIds: key ? [key, "k2"] : [] }, { name: "cname", ...P }, given);
          const more = cdk.called("addToPolicy").slice(before);
          S.assert(more.length === (otherRole === role ? 1 : 0) && more.every((c) => c.self === role && c.args[0].$props.actions[0] === "apigateway:GET"), "canaries of an API may read its keys");
        }
        S.assert(S.eq(granted.length, given ? 1 : 0) && granted.every((g) => g === otherRole), "a given secret can be read");
        env = { hostname: host, ...(P.secret ? { secret: P.secret } : {}), ...(key ? { apiKeyId: key } : {}), ...(P.canaryEnv ?? {}) };
        S.assert(canary.$args[1] === "cname-url" && canary.$props.canaryName === "cname-url" && canary.$props.role === otherRole, "the canary has its name and role");
        S.assert(canary.$props.test.$args[0].handler === handler, "the given handler runs");
      } else {
        const own = how === "dbV2" && S.choose("ownName", [true, false]) ? "other" : undefined;
        if (S.choose("handler", [true, false]) || how === "db") P.handler = "own.handler";
        const secret = stack.secret ?? { grantRead: () => {} };
        const r = S.sync(() => (how === "db" ? new DatabaseCanary(stack, role, secret, { name: "cname", ...P }) : how === "dbCreate" ? DatabaseCanary.create(stack, role, { name: "cname", ...P }) : own ? DatabaseCanary.createV2(stack, role, "cname", P, own) : Object.keys(P).length ? DatabaseCanary.createV2(stack, role, "cname", P) : DatabaseCanary.createV2(stack, role, "cname")));
        if (how !== "db" && !hasSecret) { S.assert(r.error instanceof Error && cdk.of("Canary").length === 0, "access that cannot be given is refused"); return; }
        S.reach("db");
        canary = r.value;
        const name = (own ?? "cname") + "-db";
        S.assert(canary.$args[1] === name && canary.$props.canaryName === name && canary.$props.role === role, "the canary has its name and role");
        S.assert(canary.$props.test.$args[0].handler === (P.handler ?? (how === "dbV2" ? "cname-db.handler" : "cname.handler")), "the given handler runs");
        if (stack.secret) S.assert(grants(cdk).filter((c) => c.self === stack.secret).length === 1, "the secret can be read");
        env = { ...(hasSecret ? { SECRET_ID: "the-secret" } : {}), DB_APPLICATION: "Synthetics-" + name, ...(P.canaryEnv ?? {}) };
        if (how !== "db" && !P.schedule) S.assert(canary.$props.schedule.$args[0].toMinutes() === 60, "databases are checked once an hour");
      }
      S.assert(S.eq(canary.$props.environmentVariables, env), "the environment has exactly what was given");
      if (P.schedule) S.assert(canary.$props.schedule === P.schedule, "the schedule is the given one");
      else if (how.startsWith("url")) S.assert(canary.$props.schedule.$args[0].toMinutes() === 15, "end points are checked every quarter of an hour");
      if (P.runtime) S.assert(canary.$props.runtime === P.runtime, "the runtime is the given one");
      S.assert(cdk.called("grantWrite").some((c) => c.self === canary.artifactsBucket && c.args[0] === canary.$props.role), "results can be stored");
      const inVpc = how.startsWith("db") || P.inVpc === true;
      const vc = canary.node.defaultChild.vpcConfig;
      if (!inVpc) S.assert(vc === undefined, "the canary is outside the network unless asked for");
      else { S.reach("vpc"); S.assert(S.eq(vc.subnetIds, hasVpc ? ["s1", "s2"] : []) && S.eq(vc.securityGroupIds.length, hasSg ? 1 : 0) && (hasSg ? vc.securityGroupIds[0] === stack.lambdaDbSg.securityGroupId : true) && (hasVpc ? vc.vpcId === stack.vpc.vpcId : vc.vpcId === undefined), "the canary is in the network of the stack"); }
    },
  },
};
