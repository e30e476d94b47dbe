import { LIB, quiet } from "./_util.js";
export const property = {
  id: "C14",
  title: "The web access control list blocks exactly what was configured",
  statement: "For every combination of configured rules and every request, the built access control list blocks the request exactly when one of the configured blocking rules says so: a listed or unlisted address, an oversized query string, a managed rule that was not excluded, or more requests than the limit from the same address (and path, when asked) by callers that do or do not identify themselves. Counting rules never block and see every request, every throttled request is told its limit, and every caller is covered by either the identified or the anonymous limits. Limits that are not given configure nothing, and a list without rules or with two rules of the same name is refused.",
  quantifier: { over: ["inputs", "histories"], text: "all single rules and pairs (thorough: triples) of rules with any limits and all requests (header absent, empty or of any size; any address and path class; any query size; any number of earlier requests of every class)" },
  why_tests_cant: "The tests look at the number of rules and that an action is there; they never ask what a request would meet.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/acl-builder.ts"],
    mechanism: [{ name: "AclBuilder", where: "lib/digitraffic-common/src/aws/infra/acl-builder.ts" }],
    observe_at: "the rules given to the infrastructure library, read with the meaning the firewall gives them",
  },
  assumptions: ["the documented meaning of the firewall's statements: rules in order of priority, a missing header matches no size comparison, a rate rule acts when more requests than its limit matched in the window", "path expressions have no flags"],
};
const FILE = LIB + "aws/infra/acl-builder.js";
const IPS = ["192.0.2.1/32", "192.0.2.2/32", "192.0.2.3/32"];
const PATHS = ["/api/v1", "/api/v2", "/other"];
const GROUPS = { CommonRuleSet: "AWSManagedRulesCommonRuleSet", AmazonIpReputationList: "AWSManagedRulesAmazonIpReputationList", KnownBadInputsRuleSet: "AWSManagedRulesKnownBadInputsRuleSet", SQLiRuleSet: "AWSManagedRulesSQLiRuleSet" };
const ALWAYS = ["NoUserAgent_HEADER", "SizeRestrictions_BODY", "GenericRFI_BODY"];

// what the firewall makes of a statement
function meaning(S, cdk) {
  const compare = (op, a, b) => ({ EQ: () => S.eq(a, b), NE: () => S.not(S.eq(a, b)), GT: () => a > b, GE: () => a >= b, LT: () => a < b, LE: () => a <= b })[op]?.() ?? S.gap("comparison " + op);
  const transformed = (s, kinds) => {
    const ts = s.textTransformations;
    if (!Array.isArray(ts) || !ts.length) S.fail("a comparison says how the text is prepared");
    S.assert(ts.every((t) => kinds.includes(t.type)) && new Set(ts.map((t) => t.priority)).size === ts.length, "the text is compared as it is");
  };
  const matches = (st, q, history) => {
    const kinds = Object.keys(st).filter((k) => st[k] !== undefined);
    if (kinds.length !== 1) S.fail("a statement is of exactly one kind");
    const s = st[kinds[0]];
    switch (kinds[0]) {
      case "notStatement": return S.not(matches(s.statement, q, history));
      case "andStatement": return S.and(...s.statements.map((x) => matches(x, q, history)));
      case "orStatement": return S.or(...s.statements.map((x) => matches(x, q, history)));
      case "ipSetReferenceStatement": {
        const set = cdk.of("CfnIPSet").find((x) => x.attrArn === s.arn);
        if (!set) S.fail("a referenced address list exists");
        S.assert(set.scope === "CLOUDFRONT" && set.ipAddressVersion === "IPV4", "the address list belongs to the same scope");
        return S.or(false, ...set.addresses.map((a) => S.eq(a, q.ip)));
      }
      case "sizeConstraintStatement": {
        transformed(s, ["NONE", "LOWERCASE"]);
        if (s.fieldToMatch.queryString) return compare(s.comparisonOperator, q.query, s.size);
        const h = s.fieldToMatch.singleHeader;
        if (!h) return S.gap("size of another field");
        S.assert(h.Name?.toLowerCase() === "digitraffic-user", "the header that identifies a caller");
        return S.and(q.named, compare(s.comparisonOperator, q.user, s.size));
      }
      case "regexMatchStatement": transformed(s, ["NONE", "NORMALIZE_PATH"]); return s.fieldToMatch.uriPath ? new RegExp(s.regexString).test(q.path) : S.gap("expression over another field");
      case "managedRuleGroupStatement": {
        S.assert(s.vendorName === "AWS", "managed by AWS");
        return S.and(q.group === s.name, !(s.excludedRules ?? []).some((x) => x.name === q.rule));
      }
      case "rateBasedStatement": {
        const scoped = (r) => (s.scopeDownStatement ? matches(s.scopeDownStatement, r, []) : true);
        const byIp = s.aggregateKeyType === "IP" || (s.aggregateKeyType === "CUSTOM_KEYS" && s.customKeys.some((k) => k.ip));
        const byPath = s.aggregateKeyType === "CUSTOM_KEYS" && s.customKeys.some((k) => k.uriPath);
        if (byPath) for (const k of s.customKeys) if (k.uriPath) transformed(k.uriPath, ["NONE", "LOWERCASE", "NORMALIZE_PATH", "MD5"]);
        if (!byIp) S.fail("limits are per address");
        if (s.evaluationWindowSec !== undefined) S.assert(S.eq(s.evaluationWindowSec, 300), "the window is five minutes");
        let n = 0;
        for (const r of history) n = n + S.ite(S.and(scoped(r), r.ip === q.ip, !byPath || r.path === q.path), r.count, 0);
        return S.and(scoped(q), n > s.limit);
      }
      default: return S.gap("statement " + kinds[0]);
    }
  };
  return matches;
}
// the configuration steps: how to ask for them and what they mean
const user = (q) => [q.named, q.user];
function ops(S) {
  const identified = (q) => S.and(q.named, q.user > 0);
  const rate = (who, byPath, path) => (q, history, limit) => {
    const scoped = (r) => S.and(S.iff(identified(r), who), path ? path.test(r.path) : true);
    let n = 0;
    for (const r of history) n = n + S.ite(S.and(scoped(r), r.ip === q.ip, !byPath || r.path === q.path), r.count, 0);
    return S.and(scoped(q), n > limit);
  };
  const V1 = /^\/api\/v1/;
  const limited = (call, means, block) => ({ limit: true, block, call, means });
  return {
    userIp: limited((b, l) => b.withThrottleDigitrafficUserIp(l), rate(true, false), true),
    userIpPath: limited((b, l) => b.withThrottleDigitrafficUserIpAndUriPath(l), rate(true, true), true),
    anonIp: limited((b, l) => b.withThrottleAnonymousUserIp(l), rate(false, false), true),
    anonIpPath: limited((b, l) => b.withThrottleAnonymousUserIpAndUriPath(l), rate(false, true), true),
    anonByPath: limited((b, l) => b.withThrottleAnonymousUserIpByUriPath(l, V1), rate(false, false, V1), true),
    countUserIp: limited((b, l) => b.withCountDigitrafficUserIp(l), rate(true, false), false),
    countUserIpPath: limited((b, l) => b.withCountDigitrafficUserIpAndUriPath(l), rate(true, true), false),
    countAnonIp: limited((b, l) => b.withCountAnonymousUserIp(l), rate(false, false), false),
    countAnonIpPath: limited((b, l) => b.withCountAnonymousUserIpAndUriPath(l), rate(false, true), false),
    noPath: { none: true, call: (b, l) => b.withThrottleAnonymousUserIpByUriPath(l ?? 5, undefined) },
    blacklist: { block: true, call: (b) => b.withIpBlacklistRule([IPS[0], IPS[1]]), means: (q) => q.ip === IPS[0] || q.ip === IPS[1] },
    whitelist: { block: true, call: (b) => b.withIpWhitelistRule([IPS[1], IPS[2]]), means: (q) => q.ip === IPS[0] },
    query: { block: true, size: true, call: (b, l) => b.withQueryStringSizeRestriction(l), means: (q, h, l) => q.query > l },
    managed: { block: true, managed: true, call: (b, l, S) => { const m = S.choose("managed", [undefined, "all", ["SQLiRuleSet"], ["CommonRuleSet", "KnownBadInputsRuleSet"], ["AmazonIpReputationList"]]); const ex = S.choose("excluded", [undefined, { SQLiRuleSet: ["RuleA"], CommonRuleSet: ["RuleB"] }, { KnownBadInputsRuleSet: ["RuleA", "RuleB"], AmazonIpReputationList: ["RuleB"] }]); b.$m = [m, ex]; return ex === undefined ? (m === undefined ? b.withAWSManagedRules() : b.withAWSManagedRules(m)) : b.withAWSManagedRules(m, ex); },
      means: (q, h, l, b) => { const [m, ex] = b.$m; const key = Object.keys(GROUPS).find((k) => GROUPS[k] === q.group); if (!key || !(m === undefined || m === "all" || m.includes(key))) return false; return !(ex?.[key] ?? []).includes(q.rule) && !(key === "CommonRuleSet" && ALWAYS.includes(q.rule)); } },
  };
}
const words = (S, text) => text.split(" ");
function request(S, managed, lists = true, paths = true) {
  const q = { named: S.bool("named"), user: S.int("user", 0, 8000), query: S.int("query", 0, 8000), ip: S.choose("ip", lists ? IPS : IPS.slice(0, 1)), path: S.choose("path", paths ? PATHS : PATHS.slice(0, 1)) };
  if (managed) { q.group = S.choose("group", [undefined, ...Object.values(GROUPS)]); q.rule = q.group ? S.choose("rule", ["RuleA", "RuleB", ALWAYS[0], ALWAYS[1], ALWAYS[2]]) : undefined; }
  return q;
}
// how many requests of every class came before
function past(S, q) {
  const out = [];
  let i = 0;
  for (const ip of [q.ip, IPS.find((x) => x !== q.ip)])
    for (const path of [q.path, PATHS.find((x) => x !== q.path)])
      for (const [named, user] of [[false, 0], [true, 0], [true, S.int("user" + i, 1, 8000)]]) out.push({ ip, path, named, user, query: 0, count: S.int("count" + i++, 0, 1000000) });
  return out;
}
function check(S, names) {
  const log = quiet(S);
  const cdk = S.cdk();
  const { AclBuilder } = S.load(FILE);
  const table = ops(S);
  const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "stack");
  const b = names.length === 1 && S.choose("named list", [false, true]) ? new AclBuilder(stack, "MyAcl") : new AclBuilder(stack);
  const used = [];
  for (const [i, name] of names.entries()) {
    const op = table[name];
    const limit = op.limit ? (S.choose("given" + i, [true, false]) ? S.int("limit" + i, 1, 2000000) : undefined) : op.size ? S.int("size" + i, 0, 8000) : undefined;
    const r = op.call(b, limit, S);
    S.assert(r === b, "configuration can be continued");
    if (op.none || (op.limit && limit === undefined)) { S.reach("nothing asked"); continue; }
    used.push({ name, op, limit });
  }
  const r = S.sync(() => b.build());
  if (!used.length) { S.reach("empty"); S.assert(r.error instanceof Error, "a list without rules is refused"); S.assert(cdk.of("CfnWebACL").length === 0, "nothing was built"); return; }
  const same = S.or(false, ...used.flatMap((x, i) => used.slice(i + 1).map((y) => x.name === y.name && (x.op.block ? true : S.eq(x.limit, y.limit)))));
  S.assert(S.iff(same, r.error !== undefined), "refused exactly when two rules have the same name");
  if (r.error) { S.reach("same name"); S.assert(cdk.of("CfnWebACL").length === 0, "nothing was built"); return; }
  const acl = r.value;
  S.assert(acl.$type === "CfnWebACL" && cdk.of("CfnWebACL").length === 1 && acl.$args[0] === stack, "one list is built");
  S.assert(acl.scope === "CLOUDFRONT" && acl.defaultAction?.allow && !acl.defaultAction.block, "requests are allowed unless a rule blocks them");
  S.assert(acl.visibilityConfig?.cloudWatchMetricsEnabled === true, "blocked requests are visible");
  const rules = acl.rules;
  for (const [i, x] of rules.entries()) for (const y of rules.slice(i + 1)) S.assert(S.and(S.not(S.eq(x.name, y.name)), S.not(S.eq(x.priority, y.priority))), "names and priorities are unique");
  for (const x of rules) S.assert(S.and(x.visibilityConfig?.cloudWatchMetricsEnabled, S.eq(x.visibilityConfig.metricName, x.name)), "every rule has its own metric");
  const matches = meaning(S, cdk);
  const q = request(S, names.includes("managed"), names.some((n) => n.endsWith("list")), names.includes("anonByPath"));
  const history = past(S, q);
  const ordered = [...rules].sort((x, y) => x.priority - y.priority);
  const counted = [];
  const hits = [];
  let firstBlock = false;
  for (const x of ordered) {
    const m = matches(x.statement, q, history);
    const block = x.statement.managedRuleGroupStatement ? S.assert(x.action === undefined && x.overrideAction !== undefined, "a managed group has an override") ?? !!x.overrideAction.none : !!x.action.block;
    if (!block) { S.assert(!firstBlock && x.action?.count !== undefined && !x.action.allow, "counting comes before blocking and does not allow"); counted.push([x, m]); continue; }
    firstBlock = true;
    hits.push([x, m]);
  }
  const expected = used.filter((u) => u.op.block).map((u) => [u, u.op.means(q, history, u.limit, b)]);
  const blocked = S.or(false, ...hits.map(([, m]) => m));
  S.assert(S.iff(blocked, S.or(false, ...expected.map(([, m]) => m))), "blocked exactly when a configured rule says so");
  // what is counted
  const counting = used.filter((u) => !u.op.block && u.op.limit);
  S.assert(counted.length === counting.length, "one metric for every counted limit");
  for (const u of counting) S.assert(S.or(false, ...counted.map(([x, m]) => S.and(S.iff(m, u.op.means(q, history, u.limit)), S.eq(x.statement.rateBasedStatement?.limit, u.limit)))), "every counted limit is counted");
  // what the caller is told
  let before = false;
  for (const [x, m] of hits) {
    const answers = S.and(S.not(before), m);
    const custom = x.action?.block?.customResponse;
    if (!x.statement.rateBasedStatement) { before = S.or(before, m); continue; }
    S.assert(S.implies(answers, custom && S.eq(custom.responseCode, 429)), "throttled requests are answered 429");
    const body = custom.customResponseBodyKey !== undefined ? acl.customResponseBodies?.[custom.customResponseBodyKey] : undefined;
    if (!body) S.fail("the answer has a body that exists");
    S.assert(body.contentType === "TEXT_PLAIN", "the body is plain text");
    const ws = words(S, body.content);
    const told = S.or(false, ...expected.filter(([u]) => u.op.limit).map(([u, e]) => S.and(e, S.or(false, ...ws.map((w) => S.eq(w, `${u.limit}`))))));
    S.assert(S.implies(answers, told), "the answer tells the limit that was exceeded");
    before = S.or(before, m);
  }
  if (S.decide(blocked)) S.reach("blocked"); else S.reach("allowed");
}
const LIMITED = ["userIp", "userIpPath", "anonIp", "anonIpPath", "anonByPath", "countUserIp", "countUserIpPath", "countAnonIp", "countAnonIpPath"];
const OTHER = ["noPath", "blacklist", "whitelist", "query", "managed"];
export const harnesses = {
  single: {
    bounds: "every rule alone: limits 1..2000000 or not given, all managed groups and exclusions; a request with any header, address, path and query size after up to 1000000 requests of each of 12 classes",
    reach: ["blocked", "allowed", "empty", "nothing asked"],
    async run(S) { check(S, [S.choose("rule", [...LIMITED, ...OTHER])]); },
  },
  pairs: {
    bounds: "every ordered pair of rules (thorough: triples over the throttling rules), same bounds",
    reach: ["blocked", "allowed", "same name"],
    async run(S) {
      const all = [...LIMITED, "blacklist", "whitelist", "query"];
      const names = [S.choose("first", all), S.choose("second", all)];
      if (S.thorough && S.choose("more", [false, true])) names.push(S.choose("third", LIMITED));
      check(S, names);
    },
  },
  bodies: {
    bounds: "custom rules and custom bodies: one or two user-defined throttle rules with or without a body, any limits; a body defined twice",
    reach: ["own rule", "own count", "override"],
    async run(S) {
      const log = quiet(S);
      const cdk = S.cdk();
      const { AclBuilder } = S.load(FILE);
      const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "stack");
      const b = new AclBuilder(stack);
      const key = S.choose("key", [undefined, "MY_BODY"]);
      const header = S.choose("header", [false, true]), byPath = S.choose("byPath", [false, true]), path = S.choose("path expression", [undefined, /v2$/]);
      const limit = S.int("limit", 1, 2000000);
      const twice = key && S.choose("twice", [false, true]);
      if (key) { b.withCustomResponseBody(key, { content: "first", contentType: "APPLICATION_JSON" }); if (twice) { S.reach("override"); b.withCustomResponseBody(key, { content: "second", contentType: "TEXT_HTML" }); S.assert(log.some(([l]) => l === "warn"), "replacing a body is warned about"); } }
      const r = b.withThrottleRule("Own", limit, header, byPath, key, path);
      S.assert(r === b, "configuration can be continued");
      const acl = b.build();
      S.assert(acl.rules.length === 1 && acl.rules[0].name === "Own", "one rule");
      const x = acl.rules[0];
      const q = request(S, false), history = past(S, q);
      const m = meaning(S, cdk)(x.statement, q, history);
      const is = (z) => S.and(S.iff(S.and(z.named, z.user > 0), header), path ? path.test(z.path) : true);
      let n = 0;
      for (const z of history) n = n + S.ite(S.and(is(z), z.ip === q.ip, !byPath || z.path === q.path), z.count, 0);
      S.assert(S.iff(m, S.and(is(q), n > limit)), "the rule applies to exactly the callers asked for, beyond the limit");
      if (!key) { S.reach("own count"); S.assert(x.action.count !== undefined && !x.action.block, "without a body the rule only counts"); return; }
      S.reach("own rule");
      const c = x.action.block.customResponse;
      const body = acl.customResponseBodies[c.customResponseBodyKey];
      S.assert(S.and(S.eq(c.responseCode, 429), body.content === (twice ? "second" : "first"), body.contentType === (twice ? "TEXT_HTML" : "APPLICATION_JSON")), "the answer is the body given last");
    },
  },
};
