import { cdkRecorder } from "./_cdk.js";
import { quiet } from "./_util.js";
const P = "other/cloudfront/src/";
export const property = {
  id: "C37",
  title: "The content network sends each path where and how it was configured",
  statement: "Every configured path gets exactly the edge functions that were asked for it and not taken away, with the parameters they were asked with, and two functions for the same moment of a viewer's request are refused. Its requests go to its own origin over its protocol, with its own key, path and time limit and with no other's, are cached for its time and by its headers and parameters only, and reach the viewer encrypted and are logged. A distribution without a logging target, without a path or without exactly one default path, and request limits below the least the firewall accepts, are refused; otherwise its firewall blocks by the limits it was given and only counts when asked to count.",
  quantifier: { over: ["inputs", "histories"], text: "any sequence of up to 3 steps that add and remove edge functions; any pairs of paths with the same or different origins, keys, limits, times and cache settings; any limits" },
  why_tests_cant: "The tests build one list of firewall rules and count them; paths, origins, functions and caches are not looked at.",
  anchors: {
    files: [P + "distribution", P + "cloudfront-cdk-stack.ts", P + "acl", P + "util"],
    mechanism: [{ name: "Behavior.addFunction, addLambda", where: P + "distribution/behavior.ts" }, { name: "CloudfrontCdkStack.createBehavior, getOrigin, createOrigin", where: P + "cloudfront-cdk-stack.ts" }, { name: "CachePolicyFactory.getCachePolicy", where: P + "util/cachepolicy-factory.ts" }, { name: "WafRules.checkLimits", where: P + "acl/waf-rules.ts" }, { name: "createWebAcl", where: P + "acl/acl-creator.ts" }],
    observe_at: "what is given to the infrastructure library",
  },
  assumptions: ["address restrictions of the same name have the same addresses", "there is one history service of camera images", "a bucket and an internal origin are each used with one set of options"],
};
// the network's stack on the recorder, with function texts that name their parameters
function network(S, acl) {
  const log = quiet(S);
  const cdk = cdkRecorder(S);
  S.stub("node:fs", { default: { readFileSync: (name) => `/* ${name} EXT_IP EXT_HOST_NAME EXT_DOMAIN_NAME EXT_REDIRECT_URL EXT_PATHS_TO_REMOVE */` } });
  if (acl) S.stub("aws/infra/acl-builder", acl);
  const { CloudfrontCdkStack } = S.load(P + "cloudfront-cdk-stack.ts");
  const { Behavior, Origin } = S.load(P + "distribution/behavior.ts");
  const stack = new CloudfrontCdkStack(undefined, "Network", {});
  return { cdk, log, stack, Behavior, Origin };
}
// what is deployed behind an association: the published file and its parameters
function deployed(S, cdk, ref) {
  const f = cdk.of("Function").find((x) => x === ref || x.currentVersion === ref);
  if (!f) S.fail("an edge function is deployed");
  const text = f.$props.code.$args[0], m = /dist\/lambda\/([\w-]+)\.cjs (\S+) (\S+) (\S+) (.*) (\S+) \*\//.exec(text);
  if (!m) S.fail("the published text");
  return { file: m[1], ip: m[2], host: m[3], domain: m[4], redirect: m[5], remove: m[6] };
}
const VQ = "viewer-request", VS = "viewer-response", OQ = "origin-request", OS = "origin-response";
// a step: what it attaches (kind, moment, file) or takes away
const STEPS = {
  index: [(b) => b.withIndexHtmlFunction(), [["f", VQ, "function-index-html"]]],
  redirect: [(b) => b.withRedirectFunction("https://to.example.com/a?b"), [["f", VQ, "function-redirect", "redirect", "https://to.example.com/a?b"]]],
  remove: [(b) => b.withRemovePathFunction(2), [["f", VQ, "function-rewrite-uri", "remove", "2"]]],
  cors: [(b) => b.withHttpHeadersFunction(), [["f", VS, "function-http-headers"]]],
  corsLambda: [(b) => b.withHttpHeadersLambda(), [["l", VS, "lambda-http-headers"]]],
  gzip: [(b) => b.withGzipRequirementLambda(), [["l", VQ, "lambda-gzip-requirement"]]],
  gzipOrigin: [(b, L) => b.withGzipRequirementLambda(L.ORIGIN_REQUEST), [["l", OQ, "lambda-gzip-requirement"]]],
  ip: [(b) => b.withIpRestrictionLambda("admin", "192.0.2.1,192.0.2.2"), [["l", VQ, "lambda-ip-restriction", "ip", "192.0.2.1,192.0.2.2"]]],
  ipOrigin: [(b, L) => b.withIpRestrictionLambda("admin", "192.0.2.1,192.0.2.2", L.ORIGIN_REQUEST), [["l", OQ, "lambda-ip-restriction", "ip", "192.0.2.1,192.0.2.2"]]],
  camera: [(b) => b.withWeathercamLambdas("host.example.com", "url.example.com"), [["l", OQ, "lambda-weathercam-rewrite", "host", "host.example.com", "domain", "url.example.com"], ["l", OS, "lambda-weathercam-http-headers"], ["l", VS, "lambda-http-headers"]]],
  lam: [(b) => b.withLamLambdas("arn:secret"), [["l", OQ, "lambda-lam-redirect"], ["l", OS, "lambda-lam-headers"], ["l", VS, "lambda-http-headers"]]],
  noGzip: [(b) => b.withoutGzipRequirementLambda(), (x) => x[2] === "lambda-gzip-requirement"],
  noViewerResponse: [(b) => b.removeViewerResponseLambda(), (x) => x[0] === "l" && x[1] === VS],
  noViewerRequest: [(b) => b.removeViewerRequestFunction(), (x) => x[0] === "f" && x[1] === VQ],
};
const clash = (a, b) => a[1] === b[1] && (a[0] === b[0] || a[1] === VQ || a[1] === VS);
function attached(S, cdk, options) {
  const all = [...options.edgeLambdas.map((x) => ["l", x.eventType, deployed(S, cdk, x.functionVersion)]), ...options.functionAssociations.map((x) => ["f", x.eventType, deployed(S, cdk, x.function)])];
  return all;
}
function same(S, got, wanted) {
  S.assert(got.length === wanted.length, "as many functions as asked");
  for (const [kind, when, file, ...params] of wanted) {
    const g = got.find((x) => x[0] === kind && x[1] === when && x[2].file === file);
    if (!g) S.fail("each asked function at its moment");
    for (let i = 0; i < params.length; i += 2) S.assert(g[2][params[i]] === params[i + 1], "with the parameters it was asked with");
  }
}
export const harnesses = {
  functions: {
    bounds: "any sequence of up to 3 of the 14 steps, on a plain path or one made for an interface or for pages",
    reach: ["attached", "refused", "taken away", "none"],
    async run(S) {
      const { cdk, stack, Behavior, Origin } = network(S);
      const L = cdk.module("aws-cdk-lib/aws-cloudfront").LambdaEdgeEventType;
      const start = S.choose("start", ["plain", "api", "pages"]);
      const b = start === "plain" ? new Behavior("/x", Origin.http("o")) : start === "api" ? Behavior.apiGateway("/x", "o") : Behavior.swagger("/x", "bucket");
      let wanted = start === "api" ? [...STEPS.gzip[1], ...STEPS.corsLambda[1]] : start === "pages" ? [...STEPS.index[1]] : [];
      const names = Object.keys(STEPS);
      const n = S.choose("n", [0, 1, 2, start === "plain" ? 3 : 2]);
      for (let i = 0; i < n; i++) {
        const [call, what] = STEPS[S.choose("step" + i, n === 3 ? names.filter((x) => !["gzipOrigin", "cors", "lam"].includes(x)) : names)];
        const out = S.sync(() => call(b, L));
        if (typeof what === "function") {
          S.assert(!out.error, "functions can be taken away");
          if (wanted.some(what)) S.reach("taken away");
          wanted = wanted.filter((x) => !what(x));
        } else if (what.some((a) => wanted.some((w) => clash(a, w)))) { S.assert(out.error !== undefined, "two functions for the same moment are refused"); return S.reach("refused"); } else {
          if (out.error) S.fail("other functions are accepted");
          wanted = [...wanted, ...what];
        }
      }
      // a second path with the same functions shares them
      const options = stack.createBehavior(b, "arn:log"), again = stack.createBehavior(b, "arn:log");
      same(S, attached(S, cdk, options), wanted);
      same(S, attached(S, cdk, again), wanted);
      const ids = stack.node.children.map((c) => c.node.id);
      S.assert(new Set(ids).size === ids.length, "each is deployed once");
      S.reach(wanted.length ? "attached" : "none");
    },
  },
  parameters: {
    bounds: "two paths, each with one or two of 4 functions that take parameters, asked for in either order, with parameters of their own",
    reach: ["same function", "other function", "both"],
    async run(S) {
      const { cdk, stack, Behavior, Origin } = network(S);
      const ASK = {
        redirect: (b, i) => (b.withRedirectFunction(`https://to${i}.example.com`), ["f", VQ, "function-redirect", "redirect", `https://to${i}.example.com`]),
        remove: (b, i) => (b.withRemovePathFunction(i + 1), ["f", VQ, "function-rewrite-uri", "remove", String(i + 1)]),
        ip: (b, i) => (b.withIpRestrictionLambda("list" + i, "192.0.2." + i), ["l", VQ, "lambda-ip-restriction", "ip", "192.0.2." + i]),
        camera: (b, i) => (b.withWeathercamLambdas(`host${i}.example.com`, "url.example.com"), ["l", OQ, "lambda-weathercam-rewrite", "host", `host${i}.example.com`]),
      };
      const names = Object.keys(ASK), SECOND = { camera: ["ip", "redirect"], ip: ["camera"], redirect: ["camera"], remove: [] };
      const all = [0, 1].map((i) => ({ i, b: new Behavior("/" + i, Origin.http("o")), asks: [S.choose("first" + i, names)] }));
      all.forEach((x) => { const more = SECOND[x.asks[0]]; if (more.length && S.choose("more" + x.i, [false, true])) x.asks.push(S.choose("second" + x.i, more)); });
      if (all.every((x) => x.asks.includes("camera"))) return S.reach("same function");
      const wanted = [[], []];
      const order = S.choose("order", [[0, 1], [1, 0]]);
      for (const k of [0, 1]) for (const i of order) if (all[i].asks[k]) wanted[i].push(ASK[all[i].asks[k]](all[i].b, i));
      const options = order.map((i) => [i, stack.createBehavior(all[i].b, "arn:log")]);
      for (const [i, o] of options) {
        const got = attached(S, cdk, o);
        for (const [kind, when, file, param, value] of wanted[i]) {
          const g = got.find((x) => x[0] === kind && x[1] === when && x[2].file === file);
          if (!g) S.fail("each asked function at its moment");
          S.assert(g[2][param] === value, "with the parameters of its own path");
        }
      }
      S.reach(all[0].asks.some((a) => all[1].asks.includes(a)) ? "same function" : "other function");
      if (all.some((x) => x.asks.length > 1)) S.reach("both");
    },
  },
  origins: {
    bounds: "two paths of any of five kinds, at the same or different addresses, with any keys of 1 character or none, time limits and the key taken away",
    reach: ["same origin", "other key", "other limit", "bucket", "no key"],
    async run(S) {
      const { cdk, stack, Behavior, Origin } = network(S);
      const make = (i) => {
        const kind = S.choose("kind" + i, ["gateway", "gateway plain", "nginx", "bucket", "redirect"]);
        const where = i && S.choose("other", [false, true]) ? "b.example.com" : "a.example.com";
        const b = { kind, where };
        const key = kind.startsWith("gateway") && S.choose("key" + i, [false, true]) ? S.str("apiKey" + i, 1, "a-z") : undefined;
        const target = key !== undefined ? { endpointUrl: where, apiKey: key } : where;
        b.b = { gateway: () => Behavior.apiGateway("/" + i, target), "gateway plain": () => Behavior.apiGatewayPlain("/" + i, target), nginx: () => Behavior.nginx("/" + i, where), bucket: () => Behavior.s3("/" + i, where), redirect: () => Behavior.redirect("https://r.example.com") }[kind]();
        b.key = key;
        if (key !== undefined && S.choose("without" + i, [false, true])) { b.b.withoutApiKey(); b.key = undefined; }
        b.limit = 30;
        if (kind !== "bucket" && S.choose("limited" + i, [false, true])) { b.limit = S.int("limit" + i, 1, 60); b.b.withReadTimeout(b.limit); }
        return b;
      };
      const all = [make(0), make(1)];
      const options = all.map((x) => stack.createBehavior(x.b, "arn:log"));
      all.forEach((x, i) => {
        const o = options[i], origin = o.origin;
        S.assert(o.viewerProtocolPolicy === "redirect-to-https", "viewers are served encrypted");
        S.assert(o.realtimeLogConfig.realtimeLogConfigRef.realtimeLogConfigArn === "arn:log", "and logged");
        S.assert(o.responseHeadersPolicy.$path === "ResponseHeadersPolicy.CORS_ALLOW_ALL_ORIGINS_WITH_PREFLIGHT", "to any page");
        S.assert(o.allowedMethods.$path === (x.kind === "gateway plain" ? "AllowedMethods.ALLOW_ALL" : "AllowedMethods.ALLOW_GET_HEAD_OPTIONS"), "only plain gateway paths change anything");
        S.assert(o.originRequestPolicy.$path === "OriginRequestPolicy." + { gateway: "ALL_VIEWER_EXCEPT_HOST_HEADER", "gateway plain": "ALL_VIEWER_EXCEPT_HOST_HEADER", nginx: "ALL_VIEWER", bucket: "CORS_S3_ORIGIN", redirect: "ALL_VIEWER" }[x.kind], "with what its kind of origin understands");
        if (x.kind === "bucket") {
          const bucket = origin.$args[0];
          S.assert(origin.$type === "S3BucketOrigin" && origin.$static === "withOriginAccessControl", "a bucket that only the network reads");
          S.assert(bucket.$args[2].bucketRegionalDomainName === x.where && bucket.$args[2].bucketArn === "arn:aws:s3:::" + x.where.split(".")[0], "the bucket it was configured to");
          return S.reach("bucket");
        }
        const p = origin.$args[1];
        S.assert(origin.$type === "HttpOrigin" && origin.$args[0] === (x.kind === "redirect" ? "www.digitraffic.fi" : x.where), "its own origin");
        S.assert(p.protocolPolicy === (x.kind === "nginx" ? "http-only" : "https-only") && p.httpPort === 80 && p.httpsPort === 443, "over its protocol");
        S.assert(p.originPath === (x.kind.startsWith("gateway") ? "/prod" : undefined), "under its path");
        S.assert(S.eq(p.customHeaders, x.key === undefined ? {} : { "x-api-key": x.key }), "with its own key only");
        S.assert(S.eq(p.readTimeout.toSeconds(), x.limit), "within its own time");
        if (x.key === undefined) S.reach("no key");
      });
      if (all[0].kind !== "bucket" && all[0].kind === all[1].kind && all[0].where === all[1].where) {
        if (S.decide(S.not(S.eq(all[0].key, all[1].key)))) S.reach("other key");
        else if (S.decide(S.not(S.eq(all[0].limit, all[1].limit)))) S.reach("other limit");
        else { S.assert(options[0].origin === options[1].origin, "the same origin is used once"); S.reach("same origin"); }
      }
      if (all.every((x) => x.kind !== "bucket") && options[0].origin !== options[1].origin) S.assert(options[0].origin.$args[1].originId !== options[1].origin.$args[1].originId, "origins have their own names");
    },
  },
  caches: {
    bounds: "two paths with any of the four times, up to 2 headers and 2 parameters of 1 or 2 characters",
    reach: ["shared", "own", "all parameters", "some parameters", "headers"],
    async run(S) {
      const { cdk, stack, Behavior, Origin } = network(S);
      const make = (i) => {
        const b = new Behavior("/" + i, Origin.http("o")), x = { b, ttl: 60, headers: [], keys: [] };
        if (S.choose("timed" + i, [false, true])) { x.ttl = S.choose("ttl" + i, [30, 120, 600]); b.withCacheTtl(x.ttl); }
        x.headers = S.choose("headers" + i, [[], ["Accept"], ["Accept", "Authorization"]]);
        if (x.headers.length) b.withCacheHeaders(...x.headers);
        x.keys = S.choose("keys" + i, [[], ["a"], ["a", "b"], ["ab"]]);
        if (x.keys.length) b.withQueryCacheKeys(...x.keys);
        return x;
      };
      const all = [make(0), make(1)], policies = all.map((x) => stack.createBehavior(x.b, "arn:log").cachePolicy);
      const ids = stack.node.children.map((c) => c.node.id);
      S.assert(new Set(ids).size === ids.length, "each cache is made once");
      all.forEach((x, i) => {
        const p = policies[i].$props;
        S.assert(p.maxTtl.toSeconds() === x.ttl && p.defaultTtl.toSeconds() === x.ttl && p.minTtl.toSeconds() === 0, "for its time");
        S.assert(x.headers.length ? p.headerBehavior.$static === "allowList" && S.eq(p.headerBehavior.$args, x.headers) : p.headerBehavior === undefined, "by its headers");
        S.assert(x.keys.length ? p.queryStringBehavior.$static === "allowList" && S.eq(p.queryStringBehavior.$args, x.keys) : p.queryStringBehavior.$static === "all", "by its parameters, or by all of them");
        S.assert(p.enableAcceptEncodingGzip === true && p.enableAcceptEncodingBrotli === true, "compressed answers apart");
        S.reach(x.keys.length ? "some parameters" : "all parameters");
        if (x.headers.length) S.reach("headers");
      });
      S.reach(policies[0] === policies[1] ? "shared" : "own");
    },
  },
  distribution: {
    bounds: "0..3 paths of which 0..2 default ones, logging given for the stack, the distribution or not; firewall rules given for the stack, the distribution, both or not; any internal origin; two distributions",
    reach: ["built", "no log", "no path", "no default", "two defaults", "own rules", "internal", "no internal"],
    async run(S) {
      const built = [];
      const { cdk, stack, Behavior } = network(S, { AclBuilder: class { constructor(scope, name) { this.name = name; this.calls = []; built.push(this); return new Proxy(this, { get: (t, k, r) => (k in t ? t[k] : typeof k === "string" && k.startsWith("with") ? (...a) => { t.calls.push([k, ...a]); return r; } : undefined) }); } build() { return { attrArn: "acl:" + this.name }; } } });
      const { WafRules } = S.load(P + "acl/waf-rules.ts");
      const logged = S.choose("logged", ["stack", "distribution", "both", "no"]), ruled = S.choose("ruled", ["stack", "distribution", "both"]);
      if (logged === "stack" || logged === "both") stack.withLogConfig("arn:stack");
      if (ruled !== "distribution") stack.withAclRule(WafRules.per5min(100, 101));
      const paths = S.choose("paths", [[], ["*"], ["/a"], ["/a", "*"], ["*", "/a", "/b"], ["*", "/a", "*"]]), internal = S.choose("internal", ["no", "yes", "missing"]);
      const out = S.sync(() => stack.withDistribution("first", "arn:certificate", (b) => {
        if (logged === "distribution" || logged === "both") b.withLogConfig("arn:own");
        if (ruled !== "stack") b.withAclRule(WafRules.per5min(200, 201));
        if (internal === "yes") b.withVpcOrigin("lb", "arn:lb");
        b.withAliasName("www.example.com").withBehaviors(...paths.map((p) => Behavior.nginx(p, "nginx.example.com")), ...(internal !== "no" ? [Behavior.vpcLb("/internal", "lb").withApiKey("k")] : []));
      }));
      const made = cdk.of("Distribution"), refused = (why) => { S.assert(out.error !== undefined && made.length === 0, why); S.reach(why); };
      const defaults = paths.filter((p) => p === "*").length;
      if (!paths.length && internal === "no") return refused("no path");
      if (logged === "no") return refused("no log");
      if (defaults === 0) return refused("no default");
      if (defaults > 1) return refused("two defaults");
      if (internal === "missing") return refused("no internal");
      if (out.error) S.fail("a complete distribution is built");
      const d = made[0].$props;
      S.assert(made.length === 1 && out.value === stack, "one distribution");
      const additional = paths.filter((p) => p !== "*").concat(internal === "yes" ? ["/internal"] : []);
      S.assert(S.eq(Object.keys(d.additionalBehaviors).sort(), additional.slice().sort()), "with every path");
      const arn = logged === "stack" ? "arn:stack" : "arn:own";
      for (const o of [d.defaultBehavior, ...Object.values(d.additionalBehaviors)]) S.assert(o.realtimeLogConfig.realtimeLogConfigRef.realtimeLogConfigArn === arn, "all of them logged");
      S.assert(d.certificate.$args[2] === "arn:certificate" && S.eq(d.domainNames, ["www.example.com"]), "under its names");
      S.assert(d.webAclId === "acl:" + built[0].name && built.length === 1, "behind its firewall");
      const limits = built[0].calls.filter(([k]) => k === "withThrottleDigitrafficUserIp");
      S.assert(S.eq(limits, [["withThrottleDigitrafficUserIp", ruled === "stack" ? 100 : 200]]), "with its own rules, or else those of the stack");
      if (ruled === "both") S.reach("own rules");
      if (internal === "yes") {
        const v = d.additionalBehaviors["/internal"].origin, config = cdk.of("CfnVpcOrigin")[0].$props.vpcOriginEndpointConfig;
        S.assert(config.arn === "arn:lb" && v.$type === "VpcOrigin" && v.$args[0].$args[2] === cdk.of("CfnVpcOrigin")[0].ref, "the internal origin");
        S.assert(S.eq(v.$args[1].customHeaders, { "x-api-key": "k" }), "with its key");
        S.reach("internal");
      }
      // another distribution of the stack has origins of its own
      stack.withDistribution("second", "arn:certificate2", (b) => { b.withLogConfig("arn:second").withBehaviors(Behavior.nginx("*", "nginx2.example.com").withReadTimeout(10)); });
      const e = cdk.of("Distribution")[1].$props;
      S.assert(e.defaultBehavior.origin.$args[0] === "nginx2.example.com" && e.defaultBehavior.realtimeLogConfig.realtimeLogConfigRef.realtimeLogConfigArn === "arn:second" && Object.keys(e.additionalBehaviors).length === 0, "distributions do not mix");
      S.reach("built");
    },
  },
  limits: {
    bounds: "any limits from 0 to 1000 given or not, in all three ways to give them; time limits from -5 to 100",
    reach: ["blocked", "counted", "too low", "selected", "missing", "timeout", "bad timeout"],
    async run(S) {
      const calls = [];
      const b = new Proxy({}, { get: (t, k) => (k === "build" ? () => ({ attrArn: "acl" }) : (...a) => { calls.push([k, ...a]); return b; }) });
      quiet(S);
      const cdk = cdkRecorder(S);
      S.stub("aws/infra/acl-builder", { AclBuilder: class { constructor() { return b; } } });
      const way = S.choose("way", ["per5min", "count", "selected", "missing", "timeout"]);
      if (way === "timeout") {
        const { CFDomain } = S.load(P + "app-props.ts"), t = S.int("seconds", -5, 100), d = new CFDomain("d"), out = S.sync(() => d.withResponseTimeout(t));
        if (S.decide(S.or(t < 1, t > 60))) { S.assert(out.error !== undefined, "a time limit the network does not accept is refused"); return S.reach("bad timeout"); }
        S.assert(!out.error && S.eq(d.responseTimeout.toSeconds(), t), "other limits are taken"); return S.reach("timeout");
      }
      const { WafRules } = S.load(P + "acl/waf-rules.ts"), { createWebAcl } = S.load(P + "acl/acl-creator.ts");
      if (way === "missing") { S.assert(S.sync(() => new WafRules("all", true, S.choose("with", [undefined, 100]), undefined)).error !== undefined, "blocking needs limits"); return S.reach("missing"); }
      const lim = (k) => S.int(k, 0, 1000), maybe = (k) => (S.choose("has" + k, [false, true]) ? lim(k) : undefined);
      const a = way === "count" ? maybe("a") : lim("a"), c = way === "count" ? maybe("c") : lim("c"), p = maybe("p"), q = maybe("q"), by = way === "per5min" && S.choose("by", [false, true]) ? { path: /^\/api/, limit: lim("byLimit") } : undefined;
      const excluded = { CommonRuleSet: ["RuleA"] }, groups = ["SQLiRuleSet"];
      const out = S.sync(() => (way === "per5min" ? WafRules.per5min(a, c, p, q, by, excluded) : way === "count" ? WafRules.per5minCount(a, c, p, q) : WafRules.per5minWithSelectedCommon(groups, a, c, p, q, excluded)));
      const low = way !== "count" && S.decide(S.or(...[a, c, p, q, by?.limit].filter((x) => x !== undefined).map((x) => x < 50)));
      if (low) { S.assert(out.error !== undefined, "limits that the firewall does not accept are refused"); return S.reach("too low"); }
      if (out.error) S.fail("other limits are accepted");
      createWebAcl(cdk.make("aws-cdk-lib", "Stack", undefined, "s", {}), "test", [out.value], "d");
      const one = (k) => { const x = calls.filter((y) => y[0] === k); S.assert(x.length <= 1, "each limit once"); return x[0]?.slice(1) ?? []; };
      const [mine, other] = way === "count" ? ["withCount", "withThrottle"] : ["withThrottle", "withCount"];
      S.assert(S.eq([one(mine + "DigitrafficUserIp")[0], one(mine + "AnonymousUserIp")[0], one(mine + "DigitrafficUserIpAndUriPath")[0], one(mine + "AnonymousUserIpAndUriPath")[0]], [a, c, p, q]), "each limit for its callers");
      S.assert(!calls.some(([k, x]) => k.startsWith(other) && x !== undefined), way === "count" ? "counting never blocks" : "and nothing else");
      if (way === "count") { S.assert(one("withAWSManagedRules").length === 0, "nor do managed rules"); return S.reach("counted"); }
      S.assert(S.eq(one("withThrottleAnonymousUserIpByUriPath"), [by?.limit, by?.path]), "and its paths");
      S.assert(S.eq(one("withAWSManagedRules"), [way === "selected" ? groups : "all", excluded]), "with the managed rules");
      S.reach(way === "selected" ? "selected" : "blocked");
    },
  },
};
