import { LIB, quiet } from "./_util.js";
import { cdkRecorder } from "./_cdk.js";
export const property = {
  id: "C17",
  title: "Infrastructure that breaks the house rules is reported, and nothing else is",
  statement: "Every stack is inspected, and each resource that breaks a house rule is reported exactly once: wrong production flag for the name, missing tag, functions without or with too much reserved concurrency, without time limit or memory, with an old runtime or a foreign name, public buckets, unencrypted queues, log groups kept for ever, and badly cased paths and query parameters. Everything is reported as an error except badly cased paths, and nothing is reported for resources that follow the rules. Excepting a resource lowers the report by one step for that resource and rule only: errors become warnings and warnings disappear.",
  quantifier: { over: ["inputs"], text: "any numbers, names of up to 4 (thorough: 6) characters, all flags and their absence, any exceptions" },
  why_tests_cant: "There are no tests for the rules; they depend on combinations of names, flags and exceptions that deployments meet one by one.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts", "lib/digitraffic-common/src/aws/infra/stack/stack.ts"],
    mechanism: [{ name: "StackCheckingAspect.visit", where: "lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts" }, { name: "DigitrafficStack.addAspects", where: "lib/digitraffic-common/src/aws/infra/stack/stack.ts" }],
    observe_at: "the annotations made for each resource",
  },
  assumptions: ["exceptions are regular expressions for the place and rule of a report, as /place/rule", "paths are checked up to their first dot or brace; paths that begin with one, and the casing of names with digits, are not judged"],
};
const FILE = LIB + "aws/infra/stack/stack-checking-aspect.js", STACK = LIB + "aws/infra/stack/stack.js";
const LAMBDA = "aws-cdk-lib/aws-lambda";
function stackOf(cdk, m, conf, id = "Plain") {
  const app = cdk.make("aws-cdk-lib", "App");
  return new m.DigitrafficStack(app, id, { shortName: "Foo", trafficType: null, production: false, stackProps: {}, ...conf });
}
const base = (S) => {
  quiet(S);
  const tags = {};
  const cdk = cdkRecorder(S, { props: { Stack: { tags: () => ({ tagValues: () => tags }) } } });
  return { cdk, tags, m: S.load(STACK), A: S.load(FILE).StackCheckingAspect };
};
// the reports are exactly these: [condition, rule, level]
function reports(S, cdk, node, expected) {
  for (const a of cdk.annotations) S.assert(a.node === node, "the resource itself is reported");
  for (const [cond, rule, level = "error", n = 1] of expected) {
    const got = cdk.annotations.filter((a) => a.message.startsWith(node.node.path + "/" + rule + ":"));
    if (S.decide(cond)) {
      S.reach("reported");
      S.assert(got.length === n, "broken rules are reported once");
      for (const a of got) S.assert(a.level === level, "with the right level");
      for (const a of got) S.assert(a.message.length > (node.node.path + "/" + rule + ":").length, "with an explanation");
    } else { S.assert(got.length === 0, "followed rules are not reported"); S.reach("fine"); }
  }
  const known = expected.map((e) => node.node.path + "/" + e[1] + ":");
  S.assert(cdk.annotations.every((a) => known.some((k) => a.message.startsWith(k))), "nothing else is reported");
}
export const harnesses = {
  functions: {
    bounds: "any or no concurrency, time limit and memory; five kinds of runtimes and none; names of 0..4 characters and none, with and without a short name",
    reach: ["reported", "fine"],
    async run(S) {
      const { cdk, A } = base(S);
      const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "Stack");
      const focus = S.choose("focus", ["concurrency", "limits", "runtime", "name"]);
      const num = (n, hi) => (S.choose(n + "?", [true, false]) ? S.int(n, 0, hi) : undefined);
      const p = { reservedConcurrentExecutions: 2, timeout: 60, memorySize: 128, runtime: "nodejs24.x", functionName: "Foo-Bar" };
      let short = "Foo";
      if (focus === "concurrency") p.reservedConcurrentExecutions = num("conc", 5000);
      if (focus === "limits") { p.timeout = num("timeout", 900); p.memorySize = num("memory", 10240); }
      if (focus === "runtime") p.runtime = S.choose("runtime", ["nodejs24.x", "nodejs22.x", "python3.12", "python3.13", "nodejs20.x", "nodejs18.x", "python3.11", "java21", undefined]);
      if (focus === "name") { p.functionName = S.choose("named", [true, false]) ? S.str("name", [0, S.thorough ? 6 : 4], "Fo-a") : undefined; short = S.choose("short", ["Fo", "F-", undefined]); }
      const fn = cdk.make(LAMBDA, "CfnFunction", stack, "fn", p);
      new A(short).visit(fn);
      const c = p.reservedConcurrentExecutions, name = p.functionName;
      reports(S, cdk, fn, [
        [c === undefined ? true : S.or(c === 0, c > 100), "RESERVED_CONCURRENT_CONCURRENCY"],
        [p.timeout === undefined ? true : p.timeout === 0, "FUNCTION_TIMEOUT"],
        [p.memorySize === undefined ? true : p.memorySize === 0, "FUNCTION_MEMORY_SIZE"],
        [p.runtime !== undefined && !["nodejs24.x", "nodejs22.x", "python3.12", "python3.13"].includes(p.runtime), "FUNCTION_RUNTIME"],
        [short === undefined || name === undefined ? false : S.and(name.length > 0, S.not(S.eq(name.slice(0, short.length), short))), "FUNCTION_NAME"],
      ]);
    },
  },
  stacks: {
    bounds: "names with any prefix and suffix of one character around or instead of the marked words; production or not; the tag with a value, empty or missing",
    reach: ["reported", "fine", "plain"],
    async run(S) {
      const { cdk, tags, m, A } = base(S);
      const production = S.choose("production", [true, false]);
      const tag = S.choose("tag", ["value", "", undefined]);
      if (tag !== undefined) tags.Solution = tag;
      tags.Other = "x";
      if (S.choose("plain", [true, false])) {
        const plain = cdk.make("aws-cdk-lib", "Stack", undefined, "FooTest");
        new A("Foo").visit(plain);
        reports(S, cdk, plain, [[!tag, "TAG_SOLUTION"]]);
        S.reach("plain");
        return;
      }
      const word = S.choose("word", ["Test", "Tst", "Prod", "Prd", "", "Te", "test", "Pro"]);
      const stack = stackOf(cdk, m, { production });
      const name = S.str("before", [0, 1], "A-Za-z") + word + S.str("after", [0, 2], "A-Za-z");
      Object.defineProperty(stack, "stackName", { value: name });
      new A("Foo").visit(stack);
      const has = (w) => S.or(false, ...Array.from({ length: Math.max(0, S.concrete(name.length) - w.length + 1) }, (_, i) => S.eq(name.slice(i, i + w.length), w)));
      reports(S, cdk, stack, [
        [production ? S.or(has("Test"), has("Tst")) : S.or(has("Prod"), has("Prd")), "STACK_NAME"],
        [!tag, "TAG_SOLUTION"],
      ]);
    },
  },
  storage: {
    bounds: "buckets with every combination of flags set, unset and missing; queues with and without a key; log groups with any or no retention",
    reach: ["reported", "fine"],
    async run(S) {
      const { cdk, A } = base(S);
      const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "Stack");
      const kind = S.choose("kind", ["bucket", "queue", "log", "other"]);
      const aspect = new A("Foo");
      if (kind === "bucket") {
        const keys = ["blockPublicAcls", "blockPublicPolicy", "ignorePublicAcls", "restrictPublicBuckets"];
        const conf = S.choose("conf", [true, false]) ? {} : undefined;
        let bad = false;
        if (conf) for (const k of keys) {
          if (S.choose("has-" + k, [true, false])) { conf[k] = S.bool(k); bad = S.or(bad, S.not(conf[k])); } else bad = true;
        }
        const b = cdk.make("aws-cdk-lib/aws-s3", "CfnBucket", stack, "b", { publicAccessBlockConfiguration: conf });
        aspect.visit(b);
        reports(S, cdk, b, [[bad, "BUCKET_PUBLICITY"]]);
      } else if (kind === "queue") {
        const key = S.choose("key", [undefined, "", "alias/aws/sqs"]);
        const q = cdk.make("aws-cdk-lib/aws-sqs", "CfnQueue", stack, "q", { kmsMasterKeyId: key });
        aspect.visit(q);
        reports(S, cdk, q, [[!key, "QUEUE_ENCRYPTION"]]);
      } else if (kind === "log") {
        const l = cdk.make("aws-cdk-lib/aws-logs", "LogRetention", stack, "l", {});
        const shape = S.choose("shape", ["value", "missing", "noprops"]);
        const days = S.int("days", 0, 3653);
        Object.defineProperty(l.node, "defaultChild", { value: shape === "value" ? { _cfnProperties: { RetentionInDays: days } } : shape === "missing" ? { _cfnProperties: {} } : undefined });
        aspect.visit(l);
        reports(S, cdk, l, [[shape === "value" ? days === 0 : true, "LOG_GROUP_RETENTION"]]);
      } else {
        const o = cdk.make("aws-cdk-lib/aws-sns", S.choose("class", ["CfnTopic", "Topic"]), stack, "o", {});
        aspect.visit(o);
        S.assert(cdk.annotations.length === 0, "other resources are not reported");
      }
    },
  },
  casing: {
    bounds: "paths of 1..4 (thorough: 5) letters, dashes, underscores, dots and braces; methods with 0..3 parameters of all places, query parameters of 1..3 (thorough: 4) letters, dashes and underscores",
    reach: ["reported", "fine", "path", "query"],
    budgetMs: 200000,
    async run(S) {
      const { cdk, A } = base(S);
      const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "Stack");
      const aspect = new A("Foo");
      const word = (s, joiner) => {
        // words of small letters, joined with single joiners
        let ok = true;
        const n = S.len(s);
        for (let i = 0; i < n; i++) {
          const c = s.charCodeAt(i), small = S.and(c >= 97, c <= 122), j = c === joiner.charCodeAt(0);
          ok = S.and(ok, S.or(small, i > 0 && i < n - 1 ? S.and(j, S.not(s.charCodeAt(i - 1) === joiner.charCodeAt(0))) : false));
        }
        return ok;
      };
      if (S.choose("kind", ["path", "query"]) === "path") {
        const head = S.str("head", [1, S.thorough ? 4 : 3], "ab-B_c");
        const tail = S.choose("tail", ["", ".json", "{id}", ".Bad_tail", "{Bad_id}", "{id}.Json"]);
        const r = cdk.make("aws-cdk-lib/aws-apigateway", "CfnResource", stack, "r", { pathPart: head + tail });
        aspect.visit(r);
        reports(S, cdk, r, [[S.not(word(head, "-")), "RESOURCE_PATH", "warning"]]);
        S.reach("path");
      } else {
        const n = S.choose("n", [0, 1, 2]);
        const params = {}, expected = [];
        for (let i = 0; i < n; i++) {
          const place = S.choose("place" + i, ["querystring", "path", "header"]);
          const name = i === 0 ? S.str("name", [1, S.thorough ? 4 : 3], "ab_B-") : S.choose("second", ["goodName", "good_name"]);
          const key = `integration.request.${place}.` + name;
          params[S.concrete(key)] = "x";
          expected.push([place === "querystring" ? S.not(word(name, "_")) : false, S.concrete(name)]);
        }
        const method = cdk.make("aws-cdk-lib/aws-apigateway", "CfnMethod", stack, "m", { integration: n === 0 ? S.choose("none", [undefined, {}]) : { requestParameters: params } });
        aspect.visit(method);
        reports(S, cdk, method, expected);
        S.reach("query");
      }
    },
  },
  exceptions: {
    bounds: "no list and lists of 0..2 exceptions that match the resource and rule, another rule, another resource or everything; errors and warnings",
    reach: ["error", "lowered", "warning", "silent"],
    async run(S) {
      const { cdk, m, A } = base(S);
      const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "Stack");
      const kind = S.choose("kind", ["error", "warning"]);
      const path = kind === "error" ? "Stack/q/QUEUE_ENCRYPTION" : "Stack/r/RESOURCE_PATH";
      const matching = [path, "^" + path + "$", ".*", kind === "error" ? "QUEUE" : "PATH", "Stack/./"];
      const not = ["Stack/x/", "FUNCTION_NAME", "^QUEUE", "queue", "q/RESOURCE_PATH$x"];
      const n = S.choose("n", [undefined, 0, 1, 2]);
      const list = n === undefined ? undefined : [];
      let excepted = false;
      for (let i = 0; i < (n ?? 0); i++) {
        const hit = S.choose("hit" + i, [true, false]);
        list.push(S.choose("which" + i, hit ? matching : not));
        excepted ||= hit;
      }
      const stack2 = stackOf(cdk, m, { whitelistedResources: list });
      // the aspect the stack itself has added
      const add = cdk.called("add").filter((c) => c.args[0] instanceof A);
      S.assert(add.length === 1, "every stack is inspected");
      const aspect = add[0].args[0];
      const node = kind === "error" ? cdk.make("aws-cdk-lib/aws-sqs", "CfnQueue", stack, "q", {}) : cdk.make("aws-cdk-lib/aws-apigateway", "CfnResource", stack, "r", { pathPart: "Bad_Path" });
      aspect.visit(node);
      if (kind === "error") reports(S, cdk, node, [[true, "QUEUE_ENCRYPTION", excepted ? "warning" : "error"]]);
      else reports(S, cdk, node, [[!excepted, "RESOURCE_PATH", "warning"]]);
      // the same for every other resource, in any order, and for another rule of the same resource
      if (kind === "error") {
        const more = S.choose("more", [0, 1, 3]);
        for (let i = 0; i < more; i++) {
          const other = cdk.make("aws-cdk-lib/aws-sqs", "CfnQueue", stack, "o" + i, {});
          const key = `Stack/o${i}/QUEUE_ENCRYPTION`;
          cdk.annotations.length = 0;
          aspect.visit(other);
          reports(S, cdk, other, [[true, "QUEUE_ENCRYPTION", (list ?? []).some((x) => key.match(x) !== null) ? "warning" : "error"]]);
          cdk.annotations.length = 0;
          aspect.visit(node);
          reports(S, cdk, node, [[true, "QUEUE_ENCRYPTION", excepted ? "warning" : "error"]]);
        }
      }
      S.reach(kind === "error" ? (excepted ? "lowered" : "error") : excepted ? "silent" : "warning");
      // the short name of the stack is the one functions begin with
      cdk.annotations.length = 0;
      const f = (functionName, id) => cdk.make(LAMBDA, "CfnFunction", stack, id, { functionName, reservedConcurrentExecutions: 1, timeout: 1, memorySize: 128, runtime: "nodejs24.x" });
      if (!n) { aspect.visit(f("Foo-x", "f1")); S.assert(cdk.annotations.length === 0, "own names are fine"); aspect.visit(f("Bar-x", "f2")); S.assert(cdk.annotations.length === 1, "foreign names are reported"); }
      void stack2;
    },
  },
};
