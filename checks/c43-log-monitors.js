import { quiet } from "./_util.js";
const M = "other/opensearch-monitors/src/";
export const property = {
  id: "C43",
  title: "Log monitors alert exactly when asked and are replaced whole or with an alarm",
  statement: "A monitor watches exactly the log lines that were asked for, of its own environment and time window, and fires for exactly the counts its rule names, telling every destination with its throttle and runbook links. Updating monitors removes the earlier ones and adds the given ones; success is told only when exactly the given ones are found afterwards, and every failure is told to the alarm channel and ends the run as failed. An empty list of monitors changes nothing.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "any count of lines, sum or buckets, symbolic windows and throttles, sequences of up to 4 building steps; up to 2 earlier and 2 new monitors, any request failing in any of four ways" },
  why_tests_cant: "There are no tests; firing depends on counts and on the clusters' answers.",
  anchors: {
    files: ["api/opensearch.ts", "lambda/update-os-monitors.ts", "monitor/monitor-builder.ts", "monitor/triggers.ts", "monitor/monitor.ts", "monitor/slack.ts"].map((f) => M + f),
    mechanism: [{ name: "OsMonitorBuilder", where: M + "monitor/monitor-builder.ts" }, { name: "trigger conditions", where: M + "monitor/triggers.ts" }, { name: "handler, checkMonitorsUptodate", where: M + "lambda/update-os-monitors.ts, api/opensearch.ts" }],
    observe_at: "monitor documents, with their conditions and templates evaluated; requests to a small cluster; messages to the channels",
  },
  assumptions: ["the cluster finds what it has stored at once", "at most 200 monitors", "sums are of transferred bytes"],
};
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
// evaluates a trigger's condition for given values
function fires(S, text, value) {
  const ts = text.match(/\s*(&&|\|\||>=|<=|==|!=|[!()<>]|-?\d+(?:\.\d+)?|[A-Za-z_][\w.[\]]*)/g)?.map((t) => t.trim());
  if (!ts || ts.join("").length !== text.replace(/\s/g, "").length) return S.gap("condition not understood: " + text);
  let i = 0;
  const atom = () => { const t = ts[i++]; if (t === "(") { const v = or(); if (ts[i++] !== ")") S.gap("condition not understood: " + text); return v; } if (t === "true") return true; if (t === "false") return false; if (/^-?\d/.test(t)) return Number(t); const v = value(t); if (v === undefined) S.fail("a condition is about what is counted: " + t); return v; };
  const not = () => { if (ts[i] === "!") { i++; return S.not(not()); } return cmp(); };
  const cmp = () => { const l = atom(); const o = ts[i]; if (!["<", ">", "<=", ">=", "==", "!="].includes(o)) return l; i++; const r = atom(); return o === "<" ? l < r : o === ">" ? l > r : o === "<=" ? l <= r : o === ">=" ? l >= r : o === "==" ? S.eq(l, r) : S.not(S.eq(l, r)); };
  const and = () => { let l = not(); while (ts[i] === "&&") { i++; l = S.and(l, not()); } return l; };
  const or = () => { let l = and(); while (ts[i] === "||") { i++; l = S.or(l, and()); } return l; };
  const v = or();
  if (i !== ts.length) S.gap("condition not understood: " + text);
  return v;
}
const HITS = "ctx.results[0].hits.total.value";
// fills in a template: sections of the number of lines found
const fill = (t, found) => t.replace(/\{\{#ctx\.results\.0\.hits\.total\.value\}\}(.*?)\{\{\/ctx\.results\.0\.hits\.total\.value\}\}/g, found ? "$1" : "").replace(/\{\{\^ctx\.results\.0\.hits\.total\.value\}\}(.*?)\{\{\/ctx\.results\.0\.hits\.total\.value\}\}/g, found ? "" : "$1");
function config(S, o) {
  return { domain: "road", env: "prod", index: "idx", cron: "0 * * * ?", rangeInMinutes: 60, phrases: [], slackDestinations: ["d1"], throttleMinutes: 30, messageSubject: "message", runbookSearchLink: "http://r/SEARCH_TERM?x", ...o };
}
export const harnesses = {
  rules: {
    bounds: "each rule with limits of 4 sizes, any count up to 10^7 of lines, buckets or megabytes",
    reach: ["fires", "quiet", "default", "more", "range", "always", "buckets", "sum"],
    async run(S) {
      quiet(S);
      const { OsMonitorBuilder } = S.load(M + "monitor/monitor-builder.ts");
      const { opensearchMonitor } = S.load(M + "monitor/monitor.ts");
      const rule = S.choose("rule", ["default", "more", "more default", "range", "always", "buckets", "buckets default", "sum"]);
      const n = S.choose("limit", ["default", "always", "more default", "buckets default"].includes(rule) ? [0] : [0, 1, 7, 100]), up = rule === "range" || rule === "sum" ? S.choose("upper", [n, n + 1, 5000]) : 0;
      const name = S.choose("name", ["errors", "errors RUNBOOK-A1", "RUNBOOK-A1 and RUNBOOK-B2"]);
      const dest = S.choose("destinations", [["d1"], ["d1", "d2"], []]);
      const throttle = S.choose("throttle", ["given", "not given"]) === "given" ? S.int("minutes", 0, 1000) : undefined;
      const range = S.int("range", 1, 720);
      const b = new OsMonitorBuilder(name, config(S, { slackDestinations: dest, throttleMinutes: throttle, rangeInMinutes: range }));
      if (rule === "more") b.moreThan(n);
      if (rule === "more default") b.moreThan();
      if (rule === "range") b.notInRange(n, up);
      if (rule === "always") b.always();
      if (rule === "buckets") b.aggregationBucketsMoreThan("per_user", n);
      if (rule === "buckets default") b.aggregationBucketsMoreThan("per_user");
      if (rule === "sum") b.sum("bytes", n, up);
      const doc = opensearchMonitor(b.build());
      const t = doc?.triggers?.[0]?.query_level_trigger;
      if (!t || doc.triggers.length !== 1) S.fail("a monitor has one trigger");
      const count = S.int("count", 0, 10000000);
      const where = rule.startsWith("buckets") ? "ctx.results[0].aggregations.per_user.buckets.length" : rule === "sum" ? "ctx.results[0].aggregations.sum_bytes.value" : HITS;
      const got = fires(S, t.condition.script.source, (k) => (k === where ? count : undefined));
      const want = rule === "always" ? true : rule === "range" || rule === "sum" ? S.or(count < n, count > up) : count > n;
      S.assert(S.eq(got, want), "a monitor fires for exactly the counts its rule names");
      S.assert(t.condition.script.lang === "painless", "the condition is a script");
      S.reach(S.decide(want) ? "fires" : "quiet");
      S.reach(rule.split(" ")[0]);
      if (rule === "sum") { const sums = doc.inputs[0].search.query.aggs; for (const [k, div] of [["sum_bytes", "(1000*1000)"], ["sum_bytes_gb", "(1000*1000*1000)"]]) { const m = sums?.[k]?.scripted_metric; S.assert(m && m.map_script.includes("doc['bytes'].value") && m.reduce_script.replace(/\s/g, "").includes("return(sum.total/" + div + ")"), "sums are in the units told"); } }
      S.assert(t.actions.length === dest.length && t.actions.every((a, i) => a.destination_id === dest[i]), "every destination is told");
      const link = (x) => x.replace(/RUNBOOK-[A-Z0-9]+/g, (m) => `<http://r/${m}?x|${m}>`);
      t.actions.forEach((a) => {
        S.assert(a.throttle_enabled === true && a.throttle.unit === "MINUTES" && S.decide(S.eq(a.throttle.value, throttle === undefined ? range * 2 : throttle)), "repeated messages are held back as long as agreed");
        S.assert(a.message_template.source === "message" && a.message_template.lang === "mustache", "the message is as given");
        const text = [fill(a.subject_template.source, true), fill(a.subject_template.source, false)];
        S.assert(text.every((x) => x.includes(link("ROAD PROD " + name))), "the subject has the name, with links to its runbooks");
        if (rule === "always") S.assert(text[0].startsWith(":red_circle:") && !text[0].includes("green") && text[1].startsWith(":large_green_circle:") && !text[1].includes("red_circle"), "the sign tells whether lines were found");
        else { S.assert(text[0].startsWith(":red_circle: "), "an alert is red"); const rest = text[0].slice(text[0].indexOf(link("ROAD PROD " + name)) + link("ROAD PROD " + name).length); if (rule === "range") S.assert(rest.includes(`between ${n} and ${up}, was {{ctx.results.0.hits.total.value}}`), "the limits and the count are told"); else if (rule === "sum") S.assert(rest.includes(`(${n} MB and ${up} MB)`) && rest.includes(`${n / 1000} GB and ${up / 1000} GB`) && rest.includes("{{ctx.results.0.aggregations.sum_bytes_gb.value}} GB") && rest.includes("{{ctx.results.0.aggregations.sum_bytes.value}} MB"), "the limits and the sum are told"); else S.assert(rest.includes(`more than ${n}, was {{ctx.results.0.${rule.startsWith("buckets") ? "aggregations.per_user.buckets.length" : "hits.total.value"}}}`), "the limit and the count are told"); }
      });
    },
  },
  queries: {
    bounds: "sequences of 0..3 of 14 building steps on two monitors with one configuration, symbolic windows and delays",
    reach: ["window", "delayed", "asked", "excluded", "aggregated"],
    async run(S) {
      quiet(S);
      const B = S.load(M + "monitor/monitor-builder.ts");
      const { opensearchMonitor } = S.load(M + "monitor/monitor.ts");
      const base = S.choose("phrases", [[], [{ exists: { field: "f" } }]]);
      const delay = S.choose("delay", ["none", "configured"]) === "none" ? undefined : S.int("delayed", 0, 600);
      const range = S.int("range", 1, 720);
      const c = config(S, { phrases: [...base], delayInMinutes: delay, rangeInMinutes: range, env: "test" });
      const one = new B.OsMonitorBuilder("one", c), other = new B.OsMonitorBuilder("two", c);
      const must = [...base], not = [];
      let r = range, d = delay, aggs = {};
      const phrase = (f, v) => ({ match_phrase: { [f]: { query: v } } });
      const steps = {
        level: () => { one.level("ERROR"); must.push(phrase("level", "ERROR")); }, line: () => { one.logLine("x"); must.push(phrase("log_line", "x")); }, app: () => { one.app("a"); must.push(phrase("app", "a")); }, logger: () => { one.loggerName("l"); must.push(phrase("logger_name", "l")); },
        group: () => { one.logGroup("g"); must.push(phrase("@log_group", "g")); }, stream: () => { one.logStream("s"); must.push(phrase("@log_stream", "s")); }, match: () => { one.match("method", "m"); must.push(phrase("method", "m")); },
        and: () => { one.and(B.or(B.matchPrefix("method", "p"), B.exists("e")), B.matchRange("count", 1, null)); must.push({ bool: { should: [{ prefix: { method: "p" } }, { exists: { field: "e" } }] } }, { range: { count: { from: 1, to: null } } }); S.reach("asked"); },
        not: () => { one.not(B.matchWildcardPhrase("request", "/a*"), B.matchRegExpPhrase("request", "b.*")); not.push({ wildcard: { request: { value: "/a*" } } }, { regexp: { request: { value: "b.*" } } }); S.reach("excluded"); },
        more: () => { one.and(B.multiMatchPhrase("app", "q"), B.multiMatchPhrase(["app", "type"], "q"), B.queryString("z:1"), B.script("s > 1")); must.push({ multi_match: { query: "q", fields: ["app"], type: "phrase" } }, { multi_match: { query: "q", fields: ["app", "type"], type: "phrase" } }, { query_string: { query: "z:1" } }, { script: { script: "s > 1" } }); },
        minutes: () => { r = S.int("minutes", 1, 720); one.minutes(r); }, delay: () => { d = S.int("delay given", 0, 600); one.delay(d); },
        aggregate: () => { one.aggregate(B.aggregateTerms("record.status", { bucketFilter: { name: "f", bucketPaths: { c: "_count" }, script: "c > 1" } })); aggs = { ...aggs, record_status: { terms: { field: "record.status" }, aggregations: { f: { bucket_selector: { buckets_path: { c: "_count" }, script: "c > 1" } } } } }; S.reach("aggregated"); },
        nested: () => { one.aggregate(B.aggregateTerms("app", { name: "outer", innerAggregate: B.aggregateTerms("type", {}) })); aggs = { ...aggs, outer: { terms: { field: "app" }, aggregations: { type: { terms: { field: "type" } } } } }; },
      };
      const n = S.choose("steps", [0, 1, 2, ...(S.thorough ? [3] : [])]);
      for (let i = 0; i < n; i++) steps[S.choose("step" + i, i ? ["level", "and", "not", "minutes", "delay", "nested"] : Object.keys(steps))]();
      const judge = (doc, m, x, rr, dd, a, nm) => {
        S.assert(doc.name === "ROAD TEST " + nm && doc.type === "monitor" && doc.monitor_type === "query_level_monitor" && doc.schedule.cron.expression === "0 * * * ?" && doc.schedule.cron.timezone === "UTC", "the monitor runs by its name and schedule");
        const s = doc.inputs[0]?.search;
        S.assert(doc.inputs.length === 1 && same(s.indices, ["idx"]) && s.query.track_total_hits === true, "all lines of its index are counted");
        const b = s.query.query.bool;
        const time = b.must.filter((q) => q.range?.["@timestamp"]);
        S.assert(time.length === 1, "there is one window");
        const w = time[0].range["@timestamp"];
        S.assert(S.decide(S.eq(w.from, `now-${rr}m`)) && (dd === undefined ? w.to === null : S.decide(S.eq(w.to, `now-${dd}m`))) && w.include_lower !== false && w.include_upper !== false, "the window is as long as agreed");
        S.reach(dd === undefined ? "window" : "delayed");
        const rest = b.must.filter((q) => q !== time[0]).map((q) => JSON.stringify(q)).sort();
        S.assert(same(rest, [phrase("env", "test"), ...m].map((q) => JSON.stringify(q)).sort()), "exactly the lines asked for, of its own environment");
        S.assert(same(b.must_not.map((q) => JSON.stringify(q)).sort(), x.map((q) => JSON.stringify(q)).sort()), "exactly what is excluded");
        S.assert(same(s.query.aggs, a) && same(s.query.sort, [{ "@timestamp": { order: "desc" } }]) && s.query.size === 1, "the newest line is shown, and what is asked is gathered");
      };
      judge(opensearchMonitor(one.build()), must, not, r, d, aggs, "one");
      judge(opensearchMonitor(other.build()), base, [], range, delay, {}, "two");
      const message = S.choose("message", [undefined, "text", "link"]);
      if (message) { one.withMessage("subject", message === "link" ? "http://os" : undefined).moreThan(3); const a = opensearchMonitor(one.build()).triggers[0].query_level_trigger.actions; S.assert(a.length === 1 && a[0].message_template.source === (message === "link" ? "subject <http://os|Opensearch>" : "subject"), "a message given is told"); }
    },
  },
  updates: {
    bounds: "0..2 earlier and 0..2 new monitors of equal or different names; the list missing or unreadable, the role refused, or any of the requests refused, unreachable, unreadable or broken off",
    reach: ["updated", "failed", "empty", "no list", "no role", "left over", "missing"],
    async run(S) {
      const w = { posted: [], cluster: [], requests: [] };
      w.log = quiet(S);
      S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: { create: () => ({ get: async () => { await null; return { reportUrl: "http://report", slackAlarmHook: "http://alarm" }; } }) } });
      const noSlack = S.bool("channel fails");
      S.stub("ky", { __esModule: true, default: { post: async (url, o) => { await null; w.posted.push([url, o?.json?.text]); if (noSlack) throw new Error("no channel"); } } });
      const old = S.choose("earlier", [[], ["a"], ["a", "x"]]), fresh = S.choose("given", [[], ["a"], ["b"], ["a", "b"], ["a", "a"]]);
      const trouble = S.choose("trouble", fresh.length ? ["none", "role", "request"] : ["none", "no list", "unreadable"]);
      const at = trouble === "request" ? S.choose("at", [0, 1, 2, 3, 4, 5]) : -1, how = trouble === "request" ? S.choose("how", ["refused", "unreachable", "unreadable", "broken off"]) : "";
      old.forEach((name, i) => w.cluster.push({ id: "old" + i, doc: { name, old: true } }));
      S.stub("node:fs", { readFileSync: (p) => { if (!String(p).endsWith("monitors.json")) S.fail("the list of monitors is read"); if (trouble === "no list") throw new Error("no file"); return { toString: () => (trouble === "unreadable" ? "{" : JSON.stringify(fresh.map((name, i) => ({ name, cron: "c" + i, indices: ["i"], query: { query: {} }, triggers: [] })))) }; } });
      S.stub("@aws-sdk/client-sts", { STS: class { assumeRole(o, cb) { w.role = o.RoleArn; Promise.resolve().then(() => (trouble === "role" ? cb(new Error("no role")) : cb(null, { Credentials: { AccessKeyId: "AK", SecretAccessKey: "SK", SessionToken: "ST" } }))); } } });
      class HttpRequest { constructor(o) { Object.assign(this, o); } }
      class SignatureV4 { constructor(o) { this.o = o; } async sign(r) { await null; return { ...r, by: this.o.credentials }; } }
      let hit = false, seq = 0;
      class NodeHttpHandler { async handle(r) {
        await null;
        if (r.by?.accessKeyId !== "AK" || r.by.secretAccessKey !== "SK" || r.by.sessionToken !== "ST" || r.hostname !== "vpce" || r.headers?.host !== "oshost") S.fail("requests are signed and go to the cluster");
        const i = w.requests.length;
        w.requests.push([r.method, r.path]);
        const bad = i === at;
        if (bad) hit = true;
        if (bad && how === "unreachable") throw new Error("unreachable");
        const on = {}, body = { on: (e, cb) => { on[e] = cb; return body; } };
        let text;
        if (bad && how === "refused") text = '{"error":"refused","status":500}';
        else if (r.method === "POST" && r.path === "/_plugins/_alerting/monitors/_search") { const q = JSON.parse(r.body); if (!(q.size >= 200) || q.query?.exists?.field !== "monitor") S.fail("all monitors are looked for"); text = JSON.stringify({ hits: { hits: w.cluster.map((m) => ({ _id: m.id, _source: { name: m.doc.name } })) } }); }
        else if (r.method === "POST" && r.path === "/_plugins/_alerting/monitors/") { w.cluster.push({ id: "new" + seq++, doc: JSON.parse(r.body) }); text = '{"result":"created"}'; }
        else if (r.method === "DELETE") { const id = r.path.slice("/_plugins/_alerting/monitors/".length); if (!w.cluster.some((m) => m.id === id)) S.fail("what is removed exists"); w.cluster = w.cluster.filter((m) => m.id !== id); text = '{"result":"deleted"}'; }
        else S.fail("only monitors are touched");
        setTimeout(() => { if (bad && how === "unreadable") { on.data("<html>"); on.end(); } else if (bad && how === "broken off") { on.data("{"); if (!on.error) S.fail("an answer that breaks off is handled"); on.error(new Error("broke off")); } else { on.data(text); on.end(); } });
        return { response: { statusCode: bad && how === "refused" ? 500 : r.method === "POST" && !r.path.endsWith("_search") ? 201 : 200, body } };
      } }
      S.stub("@smithy/protocol-http", { HttpRequest });
      S.stub("@smithy/signature-v4", { SignatureV4 });
      S.stub("@smithy/node-http-handler", { NodeHttpHandler });
      S.stub("@aws-crypto/sha256-browser", { Sha256: class {} });
      S.stub("node:util", { inspect: () => "x" });
      Object.assign(S.world.process.env, { ROLE: "role", OS_HOST: "oshost", OS_VPC_ENDPOINT: "vpce" });
      const { handler } = S.load(M + "lambda/update-os-monitors.ts");
      const before = JSON.stringify(w.cluster);
      const r = await S.settle(() => handler());
      const failed = !("value" in r);
      const told = (u) => w.posted.filter(([x, t]) => x === u && typeof t === "string" && t !== "").length;
      if (failed) S.assert(told("http://alarm") === 1 && told("http://report") === 0, "a failure is told to the alarm channel");
      else S.assert(told("http://alarm") === 0 && told("http://report") === (fresh.length ? 1 : 0), "a success is told once");
      if (trouble === "no list" || trouble === "unreadable") { S.reach("no list"); S.assert(failed && JSON.stringify(w.cluster) === before, "without a list nothing is changed"); return; }
      if (!fresh.length) { S.reach("empty"); S.assert(!failed && w.requests.length === 0 && JSON.stringify(w.cluster) === before && w.log.some(([l]) => l === "error"), "an empty list changes nothing"); return; }
      if (trouble === "role") { S.reach("no role"); S.assert(failed && JSON.stringify(w.cluster) === before, "without the role nothing is changed"); return; }
      const names = w.cluster.map((m) => m.doc.name).sort();
      const exact = same(names, [...fresh].sort()) && w.cluster.every((m) => !m.doc.old);
      if (!hit) { S.reach("updated"); S.assert(!failed && exact, "the earlier ones are replaced by the given ones"); for (const m of w.cluster) S.assert(m.doc.type === "monitor" && fresh.some((f, i) => f === m.doc.name && m.doc.schedule.cron.expression === "c" + i), "each is added as given"); return; }
      S.reach("failed");
      if (w.cluster.some((m) => m.doc.old)) S.reach("left over");
      if (fresh.some((f) => !names.includes(f))) S.reach("missing");
      if (!failed) S.assert(exact, "success is told only when exactly the given ones are there");
      S.assert(exact || failed, "a failure ends the run as failed");
    },
  },
};
