import { cdkRecorder } from "./_cdk.js";
import { quiet } from "./_util.js";
export const property = {
  id: "C46",
  title: "Deployment, patching and statistics are open only to those they are for",
  statement: "A deployment role can be assumed for an hour by jobs of its own repository only, and when it has an environment by jobs of that environment only; it may do what it is configured to do and nothing more, and when it updates API descriptions it may start exactly the two functions that do so for its kind of traffic and its environment. Patches are installed on exactly the configured machines in the configured window, and failures are told. Statistics are given only to the allowed addresses, from the stored pages only.",
  quantifier: { over: ["inputs"], text: "repositories and environments of 1..2 characters, of the role and of the job; 1..2 roles; all combinations of rights; addresses of 2 characters" },
  why_tests_cant: "None of these applications has a test of its behaviour, and names that must agree across two applications are only compared when a job runs.",
  anchors: {
    files: ["other/aws-github-oidc/src/aws-github-oidc-stack.ts", "other/patchmanager/src/patchmanager-stack.ts", "other/digitraffic-statistics/src/api.ts", "other/digitraffic-statistics/src/aws-integrations.ts", "other/swagger-joiner/src/internal-lambdas.ts"],
    mechanism: [{ name: "AwsGithubOidcStack", where: "other/aws-github-oidc/src/aws-github-oidc-stack.ts" }, { name: "PatchManagerStack", where: "other/patchmanager/src/patchmanager-stack.ts" }, { name: "StatisticsApi, StatisticsIntegrations", where: "other/digitraffic-statistics/src/api.ts" }],
    observe_at: "roles, policies, windows and integrations given to the infrastructure library, read with the documented meaning of policies",
  },
  assumptions: ["the documented meaning of trust and resource policies", "roles that update API descriptions have an environment, and differ in it or in their traffic", "the stack of the API descriptions is named after its traffic and environment", "addresses are compared as texts"],
};
const like = (S, pattern, v) => (pattern.endsWith("*") ? v.startsWith(pattern.slice(0, pattern.length - 1)) : S.eq(pattern, v));
const statements = (cdk, who) => [...cdk.calls.filter((c) => c.self === who && ["addToPrincipalPolicy", "addToPolicy", "addToRolePolicy"].includes(c.method)).map((c) => c.args[0]), ...Object.values(who.$props?.inlinePolicies ?? {}).flatMap((p) => p.$props?.statements ?? [])].map((s) => ({ deny: /DENY|Deny/.test(String(s.$props.effect?.$path ?? s.$props.effect)), ...s.$props, raw: s }));
export const harnesses = {
  roles: {
    bounds: "two roles of which one is looked at; names of 1..2 letters; a job of any repository and environment of 1..2 letters; with and without environment, actions, policies and API descriptions",
    reach: ["trusted", "refused", "descriptions", "everywhere"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, { props: { Function: { functionArn: (self) => "function:" + (self.$props?.functionName ?? self.$args?.[2]) } } });
      const { AwsGithubOidcStack } = S.load("other/aws-github-oidc/src/aws-github-oidc-stack.ts");
      const what = S.choose("what", ["trust", "rights"]), which = S.choose("which", [0, 1]);
      const env = what === "rights" ? "test" : S.choose("environment", [true, false]) ? S.str("environment of role", [1, 2], "a-b") : undefined;
      const repo = what === "rights" ? "repo" : S.str("repository of role", [1, 2], "a-b");
      const actions = what === "rights" && S.choose("actions", [true, false]) ? ["a:B", "c:D"] : [];
      const extra = what === "rights" && S.choose("policies", [true, false]) ? [cdk.make("aws-cdk-lib/aws-iam", "PolicyStatement", { actions: ["e:F"], resources: ["thing"] })] : undefined;
      const traffic = what === "rights" ? S.choose("descriptions", [undefined, "Marine", "Road"]) : undefined;
      const mine = { shortName: "Mine", repo, environment: env, allowedActions: actions, additionalPolicies: extra, updateSwaggerForTrafficType: traffic };
      const other = { shortName: "Other", repo: "zzz", environment: "prod", allowedActions: ["x:Y"], ...(S.choose("other", [false, true]) ? { updateSwaggerForTrafficType: "Marine" } : {}) };
      const r = S.sync(() => new AwsGithubOidcStack(undefined, "Id", { roles: which ? [other, mine] : [mine, other] }, {}));
      if (r.error) S.fail("the roles can be built");
      const roles = cdk.of("Role");
      S.assert(roles.length === 2, "there is a role for each");
      const role = roles.find((x) => x.$props.roleName === "Mine-GitHub-OIDC-Role");
      if (!role) S.fail("there is a role for each");
      const hours = role.$props.maxSessionDuration;
      S.assert(hours !== undefined && hours.toHours() === 1, "roles are assumed for an hour");
      const by = role.$props.assumedBy;
      S.assert(by.$type === "WebIdentityPrincipal" && /:oidc-provider\/token\.actions\.githubusercontent\.com$/.test(by.$args[0]), "roles are assumed by jobs");
      const [provider] = cdk.of("OpenIdConnectProvider");
      S.assert(provider?.$props.url === "https://token.actions.githubusercontent.com" && provider.$props.clientIds.join() === "sts.amazonaws.com", "jobs ask for this account");
      if (what === "trust") {
        const conditions = by.$args[1] ?? {};
        const theirs = S.str("repository of job", [1, 2], "a-b"), where = S.str("environment of job", [1, 2], "a-b");
        const ref = env === undefined && S.choose("branch", [true, false]);
        const sub = ref ? `repo:tmfg/${theirs}:ref:refs/heads/${where}` : `repo:tmfg/${theirs}:environment:${where}`;
        let ok = true, any = false;
        for (const [op, c] of Object.entries(conditions)) for (const [k, p] of Object.entries(c)) {
          if (!/:sub$/.test(k)) continue;
          any = true;
          const ps = Array.isArray(p) ? p : [p];
          ok = S.and(ok, S.or(false, ...ps.map((x) => (op === "StringLike" ? like(S, x, sub) : op === "StringEquals" ? S.eq(x, sub) : S.gap("condition")))));
        }
        S.assert(any, "not every job may assume the role");
        S.assert(S.iff(ok, S.and(S.eq(theirs, repo), env === undefined ? true : S.eq(where, env))), "only jobs of the repository and environment assume the role");
        if (env === undefined) S.reach("everywhere");
        S.reach(S.decide(ok) ? "trusted" : "refused");
        return;
      }
      const sts = statements(cdk, role);
      const may = sts.filter((s) => !s.deny).flatMap((s) => s.actions.flatMap((a) => s.resources.map((x) => a + " " + x)));
      const expected = [...actions.map((a) => a + " *"), ...(extra ? ["e:F thing"] : [])];
      if (traffic) {
        const { SwaggerJoinerStack } = S.load("other/swagger-joiner/src/swagger-joiner-stack.ts");
        const name = `SwaggerJoiner${traffic}Test`;
        const before = cdk.of("Function").filter((f) => f.$props?.functionName).length;
        const j = S.sync(() => new SwaggerJoinerStack(undefined, name, { shortName: "Short", secretId: "s", alarmTopicArn: "a", warningTopicArn: "w", trafficType: traffic, production: false, stackProps: { stackName: name }, apiGwAppIds: [], bucketName: "b" }));
        if (j.error) S.fail("the application of the descriptions can be built");
        const fs = cdk.of("Function").filter((f) => f.$props?.functionName).slice(before);
        S.assert(fs.length === 2, "two functions update the descriptions");
        for (const f of fs) expected.push("lambda:InvokeFunction function:" + f.$props.functionName);
        S.reach("descriptions");
      }
      S.assert([...new Set(may)].sort().join() === expected.sort().join(), "roles may do what they are configured to do, and nothing more");
    },
  },
  patches: {
    bounds: "0..3 machines; any window",
    reach: ["patched"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, { props: { CfnMaintenanceWindow: { ref: (self) => "window:" + self.node.id }, CfnMaintenanceWindowTarget: { ref: (self) => "target:" + self.node.id } } });
      const { PatchManagerStack } = S.load("other/patchmanager/src/patchmanager-stack.ts");
      const ids = Array.from({ length: S.choose("machines", [0, 1, 2, 3]) }, (_, n) => S.str("machine" + n, 2, "a-c")), cron = S.str("window", 2, " -~");
      const r = S.sync(() => new PatchManagerStack(undefined, "Id", { instanceIds: ids, maintenanceWindowCron: cron, notificationArn: "topic" }));
      if (r.error) S.fail("the patching can be built");
      const [w] = cdk.of("CfnMaintenanceWindow"), [t] = cdk.of("CfnMaintenanceWindowTarget"), tasks = cdk.of("CfnMaintenanceWindowTask");
      S.assert(w !== undefined && S.decide(S.eq(w.$props.schedule, cron)) && w.$props.allowUnassociatedTargets === false && w.$props.duration > w.$props.cutoff, "the window is the configured one");
      S.assert(t !== undefined && t.$props.windowId === w.ref && t.$props.resourceType === "INSTANCE" && t.$props.targets.length === 1 && t.$props.targets[0].key === "InstanceIds" && t.$props.targets[0].values.length === ids.length, "the machines are the configured ones");
      ids.forEach((x, n) => S.assert(S.eq(t.$props.targets[0].values[n], x), "the machines are the configured ones"));
      S.assert(tasks.length === 1 && tasks[0].$props.windowId === w.ref && tasks[0].$props.targets.length === 1 && tasks[0].$props.targets[0].key === "WindowTargetIds" && tasks[0].$props.targets[0].values.join() === t.ref, "the patches are installed on them in the window");
      const run = tasks[0].$props.taskInvocationParameters?.maintenanceWindowRunCommandParameters;
      S.assert(tasks[0].$props.taskArn === "AWS-RunPatchBaseline" && tasks[0].$props.taskType === "RUN_COMMAND" && run?.parameters?.Operation?.join() === "Install", "the patches are installed");
      const n = run.notificationConfig;
      S.assert(n?.notificationArn === "topic" && ["TimedOut", "Cancelled", "Failed"].every((x) => n.notificationEvents.includes(x)), "failures are told");
      const role = cdk.of("Role").find((x) => x.roleArn === run.serviceRoleArn);
      S.assert(role?.$props.assumedBy.$args[0] === "ssm.amazonaws.com" && cdk.calls.some((c) => c.method === "grantPublish" && c.args[0] === role && c.self.topicArn === "topic"), "failures may be told");
      S.reach("patched");
    },
  },
  statistics: {
    bounds: "0..3 allowed addresses; any address of 2 characters",
    reach: ["allowed", "refused"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S);
      const { StatisticsApi } = S.load("other/digitraffic-statistics/src/api.ts");
      const allowed = Array.from({ length: S.choose("addresses", [0, 1, 2, 3]) }, (_, n) => S.str("allowed" + n, 2, "0-2")), from = S.str("caller", 2, "0-2");
      const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "S");
      stack.statisticsProps = { allowedIpAddresses: allowed };
      const r = S.sync(() => new StatisticsApi(stack, { apiStatisticsS3Integration: cdk.make("aws-cdk-lib/aws-apigateway", "AwsIntegration", { service: "s3" }), digitrafficMonthlyLambdaIntegration: cdk.make("aws-cdk-lib/aws-apigateway", "LambdaIntegration", {}) }));
      if (r.error) S.fail("the interface can be built");
      const apis = cdk.of("RestApi");
      S.assert(apis.length === 1 && apis[0].$props.policy?.$type === "PolicyDocument", "the interface is restricted");
      const ip = S.or(false, ...allowed.map((a) => S.eq(a, from)));
      let allow = false, deny = false;
      for (const s of apis[0].$props.policy.$props.statements) {
        let holds = true;
        for (const [op, c] of Object.entries(s.$props.conditions ?? {})) for (const [k, v] of Object.entries(c)) {
          if (k !== "aws:SourceIp" || !["IpAddress", "NotIpAddress"].includes(op)) S.gap("condition");
          const list = Array.isArray(v) ? v : [v];
          const within = S.or(false, ...list.map((a) => S.eq(a, from)));
          holds = S.and(holds, op === "IpAddress" ? within : S.not(within));
        }
        S.assert(s.$props.actions.includes("execute-api:Invoke"), "the policy is about calls");
        if (/DENY|Deny/.test(String(s.$props.effect?.$path ?? s.$props.effect))) deny = S.or(deny, holds); else allow = S.or(allow, holds);
      }
      S.assert(S.iff(S.and(allow, S.not(deny)), ip), "exactly the allowed addresses are answered");
      S.reach(S.decide(ip) ? "allowed" : "refused");
    },
  },
};
