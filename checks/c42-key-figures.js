import { quiet } from "./_util.js";
const K = "other/os-key-figures/src/";
export const property = {
  id: "C42",
  title: "Monthly key figures are asked, retried, split and stored without loss or mixing",
  statement: "Every month each key figure of each service and each of its endpoints is asked for exactly that service, endpoint and previous calendar month, and stored once with the answer, the question and the month; a figure that cannot be had after the agreed attempts is left out and told of without affecting others. Figures of a month that is already stored never enter the same table again, and invocations that split the endpoints between them cover each endpoint exactly once and the service itself once. No failure of a source or the store leaves a run unfinished, falsely successful or with its connection open.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "all services and unknown ones, up to 7 endpoints in 1 to 4 groups, all nine figures with symbolic values, any request failing in any of five ways once or always, any statement failing, symbolic retry policies and months" },
  why_tests_cant: "The tests that exist ask a few figures of a source that answers; the integration tests need real servers.",
  anchors: {
    files: ["domain/services/metric-collection-service.ts", "domain/services/endpoint-discovery-service.ts", "domain/types/time-period.ts", "domain/types/service.ts", "domain/types/metric-scope.ts", "domain/types/collection-result.ts", "adapters/driven/opensearch/metric-query.ts", "adapters/driven/opensearch/opensearch-metric-source.ts", "adapters/driven/opensearch/retry-policy.ts", "adapters/driven/opensearch/retrying-metric-source.ts", "adapters/driven/mysql/mysql-metric-store.ts", "adapters/driven/http/ky-resource-fetcher.ts", "api/opensearch.ts", "lambda/collect-os-key-figures.ts", "lambda/handler-config.ts"].map((f) => K + f),
    mechanism: [{ name: "collectAndPersist", where: K + "domain/services/metric-collection-service.ts" }, { name: "handler, buildScopes", where: K + "lambda/collect-os-key-figures.ts" }, { name: "executeWithRetry", where: K + "adapters/driven/opensearch/retry-policy.ts" }, { name: "MySqlMetricStore", where: K + "adapters/driven/mysql/mysql-metric-store.ts" }, { name: "OpenSearch.makeOsQuery", where: K + "api/opensearch.ts" }],
    observe_at: "requests sent to stand-ins of OpenSearch and of the API descriptions, and rows of a stand-in of the store that carries out the statements",
  },
  assumptions: ["answers that can be read have the form OpenSearch documents", "a month counts as stored when the first figure of a run is", "the process runs in UTC"],
};
const NAMES = ["Http req", "Http req 200", "Bytes out", "Unique IPs", "Top 10 Referers", "Top 10 digitraffic-users", "Top 10 User Agents", "Top 10 IPs", "Top digitraffic-users by bytes"];
const ACC = { rail: "RA", road: "RO", marine: "MA", afir: "AF" };
const tagOf = (service, endpoint) => "@transport_type:" + service + (endpoint ? ` AND @fields.request_uri:"${endpoint}"` : "");
const day = (ms) => new Date(ms).toISOString().substring(0, 10);
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
// the store: carries out the few statements that are sent to it
function store(S, w) {
  w.db = w.db ?? {};
  w.said = [];
  w.closed = 0;
  const run = (sql, values) => {
    const rest = [...(values ?? [])];
    const ident = (t) => (t === "??" ? rest.shift() : t.replace(/`/g, ""));
    const text = sql.replace(/\s+/g, " ").trim().replace(/;$/, "");
    let m;
    const must = (t) => { if (!w.db[t]) throw new Error("no table " + t); return w.db[t]; };
    if (/^show tables/i.test(text)) return Object.keys(w.db).map((t) => ({ Tables: t }));
    if ((m = /^create table (?:if not exists )?(\S+) ?\(/i.exec(text))) { const t = ident(m[1]); if (w.db[t]) throw new Error("table exists"); w.db[t] = []; return {}; }
    if ((m = /^create index \S+ on (\S+)/i.exec(text))) { must(ident(m[1])); return {}; }
    if ((m = /^drop table (if exists )?(\S+)$/i.exec(text))) { const t = ident(m[2]); if (!m[1]) must(t); delete w.db[t]; return {}; }
    if ((m = /^select count\(\*\) as count from (\S+) where (.*)$/i.exec(text))) {
      const rows = must(ident(m[1]));
      const conds = m[2].split(/ and /i).map((c) => { const k = /^(\S+) ?= ?\?$/.exec(c); if (!k) S.gap("statement not understood: " + text); return [ident(k[1]), rest.shift()]; });
      return [{ count: rows.filter((r) => conds.every(([c, v]) => S.decide(S.eq(r[c], v)))).length }];
    }
    if ((m = /^insert into (\S+) ?\(([^)]*)\) values ?\(([^)]*)\)$/i.exec(text))) {
      const rows = must(ident(m[1]));
      const cols = m[2].split(",").map((c) => ident(c.trim()));
      if (!m[3].split(",").every((v) => v.trim() === "?")) S.gap("statement not understood: " + text);
      if (rest.length !== cols.length) throw new Error("column count does not match");
      const row = Object.fromEntries(cols.map((c, i) => [c, rest[i]]));
      if (["from", "to", "name", "filter", "query", "value"].some((c) => row[c] === undefined || row[c] === null)) throw new Error("column cannot be null");
      rows.push(row);
      return { affectedRows: 1 };
    }
    return S.gap("statement not understood: " + text);
  };
  const createConnection = (conf) => {
    w.conf = conf;
    return S.mock({
      query: (sql, a, b) => { const cb = typeof a === "function" ? a : b, values = typeof a === "function" ? undefined : a;
        const i = w.said.length; w.said.push(sql);
        Promise.resolve().then(() => { if (w.closed) { cb(new Error("closed")); return; } if (w.breaks && w.breaks(i, sql)) { w.broke = true; cb(new Error("store failed")); return; } let r; try { r = run(sql, values); } catch (e) { if (!(e instanceof Error) || !/^(no table|table exists|column)/.test(e.message)) throw e; cb(e); return; } cb(null, r, []); }); },
      end: (cb) => { w.closed++; Promise.resolve().then(() => cb && cb(w.badEnd ? new Error("end failed") : undefined)); },
    }, "connection");
  };
  S.stub("mysql", { __esModule: true, default: { createConnection }, createConnection });
}
// OpenSearch: answers what w.answer gives for (index, method, query)
function search(S, w) {
  w.asked = [];
  class HttpRequest { constructor(o) { Object.assign(this, o); } }
  class SignatureV4 { constructor(o) { this.o = o; } async sign(r) { await null; return { ...r, signedBy: this.o }; } }
  class NodeHttpHandler { async handle(r) {
    await null;
    if (!r.signedBy) S.fail("a request is signed");
    const q = { path: r.path, method: r.method, host: r.hostname, headers: r.headers, body: r.body, by: r.signedBy.credentials };
    w.asked.push(q);
    const a = w.answer(q, w.asked.length - 1);
    if (a === "unreachable") throw new Error("unreachable");
    const on = {};
    const body = { on: (e, cb) => { on[e] = cb; return body; } };
    const text = a.text ?? (a.doc ? JSON.stringify(a.doc) : "");
    if (!a.status) setTimeout(() => { if (a.breaks) { on.data?.("{"); if (!on.error) S.fail("an answer that breaks off is handled"); on.error(new Error("broke off")); return; } if (typeof text === "string" && text.length > 1) { on.data(text.slice(0, 1)); on.data(text.slice(1)); } else on.data(text); on.end(); });
    return { response: { statusCode: a.status ?? 200, reason: "x", body } };
  } }
  S.stub("@smithy/protocol-http", { HttpRequest });
  S.stub("@smithy/signature-v4", { SignatureV4 });
  S.stub("@smithy/node-http-handler", { NodeHttpHandler });
  S.stub("@aws-crypto/sha256-browser", { Sha256: class {} });
  S.stub("@aws-sdk/client-sts", { STS: class { assumeRole(o, cb) { w.role = o; Promise.resolve().then(() => (w.noRole === "error" ? cb(new Error("no role")) : w.noRole === "nothing" ? cb(null, {}) : cb(null, { Credentials: { AccessKeyId: "AK", SecretAccessKey: "SK", SessionToken: "ST" } }))); } } });
}
// which service, endpoint and figure a request asks for, undefined when it asks for none
function asksFor(S, q, month) {
  const m = /^\/([^/]+)\/(_count|_search)$/.exec(q.path);
  if (!m || q.method !== "POST" || q.host !== "vpce" || q.headers.host !== "oshost") return;
  const doc = JSON.parse(q.body);
  const b = doc?.query?.bool;
  const text = b?.must?.[0]?.query_string?.query;
  if (typeof text !== "string" || b.must.length !== 1) return;
  const r = b.filter?.[0]?.range?.["@timestamp"];
  if (b.filter.length !== 1 || r?.gte !== new Date(month[0]).toISOString() || r?.lte !== new Date(month[1]).toISOString()) return;
  const not = JSON.stringify(b.must_not);
  if (b.must_not?.length !== 2 || !not.includes('{"term":{"skip_statistics":true}}') || !not.includes('{"wildcard":{"httpHost":"*.integration.digitraffic.fi"}}')) return;
  if (b.must[0].query_string.analyze_wildcard !== true) return;
  let rest, service, endpoint;
  const all = /^NOT log_line:\* AND \(([^)]*)\)(.*)$/.exec(text), one = /^NOT log_line:\* AND accountName\.keyword:(\w+)(.*)$/.exec(text);
  if (all) { const parts = all[1].split(" OR ").sort(); if (!same(parts, Object.values(ACC).map((a) => "accountName.keyword:" + a).sort())) return; service = "*"; rest = all[2]; }
  else if (one) { service = Object.keys(ACC).find((k) => ACC[k] === one[1]); rest = one[2]; }
  if (!service) return;
  if (m[1] !== (service === "*" ? "default,afirs" : service === "afir" ? "afirs" : "default")) return;
  const e = /^ AND request:"([^"]*)\*"(.*)$/.exec(rest);
  if (e) { endpoint = e[1]; rest = e[2]; }
  const aggs = doc.aggs?.agg;
  let name;
  if (m[2] === "_count" && !doc.aggs) name = rest === "" ? "Http req" : rest === " AND httpStatusCode:200" ? "Http req 200" : undefined;
  else if (m[2] === "_search" && rest === "" && doc.size === 0 && aggs && Object.keys(doc.aggs).length === 1) {
    const t = aggs.terms;
    if (same(aggs, { sum: { field: "bytes" } })) name = "Bytes out";
    else if (same(aggs, { cardinality: { field: "clientIp" } })) name = "Unique IPs";
    else if (t && !aggs.aggs && t.order?._count === "desc") name = { "httpReferrer.keyword,10,__missing__": "Top 10 Referers", "httpDigitrafficUser.keyword,100,__missing__": "Top 10 digitraffic-users", "agent.keyword,10,__missing__": "Top 10 User Agents", "clientIp,10,": "Top 10 IPs" }[[t.field, t.size, t.missing ?? ""].join(",")];
    else if (t && t.order?.agg === "desc" && t.field === "httpDigitrafficUser.keyword" && t.missing === "__missing__" && t.size === 100 && same(aggs.aggs, { agg: { sum: { field: "bytes" } } })) name = "Top digitraffic-users by bytes";
  }
  return name && { service, endpoint, name };
}
function prepare(S, w) {
  w.log = quiet(S);
  store(S, w);
  search(S, w);
  w.fetched = [];
  S.stub("ky", { __esModule: true, default: { get: (url) => ({ json: async () => { await null; w.fetched.push(url); if (w.noDescription) throw new Error("no description"); return w.description ?? { openapi: "3.0.1", info: { title: "t", version: "1" }, paths: {} }; } }) } });
  Object.assign(S.world.process.env, { ROLE: "role", OS_HOST: "oshost", OS_VPC_ENDPOINT: "vpce", OS_INDEX: "default", OS_AFIR_INDEX: "afirs", MYSQL_ENDPOINT: "my", MYSQL_USERNAME: "user", MYSQL_PASSWORD: "pass", MYSQL_DATABASE: "base", RAIL_ACCOUNT_NAME: "RA", ROAD_ACCOUNT_NAME: "RO", MARINE_ACCOUNT_NAME: "MA", AFIR_ACCOUNT_NAME: "AF" });
}
const CUSTOM = { rail: ["/api/v2/graphql/", "/infra-api/", "/jeti-api/", "/history/", "/vuosisuunnitelmat/", "/schedules/", "/mqtt/"], road: ["/*.JPG/", "/mqtt/"], marine: ["/mqtt/"], afir: ["/mqtt/"] };
const monthBefore = (now) => { const d = new Date(now); return [Date.UTC(d.getUTCFullYear(), d.getUTCMonth() - 1, 1), Date.UTC(d.getUTCFullYear(), d.getUTCMonth(), 1)]; };
// an answer for a figure, with what is to be stored of it
function figure(S, name, tag, wrong) {
  if (name.startsWith("Http")) { const n = S.int("count " + tag, 0, 1e9); return { doc: wrong ? { aggregations: { agg: {} } } : { count: n }, value: n }; }
  if (name === "Bytes out" || name === "Unique IPs") { const n = S.int("value " + tag, 0, 1e12); return { doc: wrong ? { count: 1 } : { aggregations: { agg: { value: n } } }, value: n }; }
  const n = S.int("first " + tag, 0, 1e6), m = S.int("second " + tag, 0, 1e6);
  const b = (key, v) => (name.includes("bytes") ? { key, doc_count: 3, agg: { value: v } } : { key, doc_count: v });
  return { doc: wrong ? { count: 1 } : { aggregations: { agg: { buckets: [b("Some/Agent", n), b('it\'s "quoted\\"', m)] } } }, value: { "Some/Agent": n, "its quoted": m } };
}
export const harnesses = {
  runs: {
    bounds: "7 requested services, 2 groups; 0 or 1 described endpoint; any figure's request unreachable, refused, unreadable, broken off or of a wrong form, once or always; the role, the description or any of the first statements failing; the month stored or not; symbolic figures",
    reach: ["stored", "figure lost", "figure retried", "duplicates", "unknown service", "no role", "no description", "statement failed"],
    budgetMs: 240000,
    steps: 20000000,
    async run(S) {
      const w = {};
      const now = S.choose("now", [Date.UTC(2025, 4, 15, 12), Date.UTC(2026, 0, 1, 3)]);
      S.world.time = now;
      const month = monthBefore(now);
      const service = S.choose("service", now === Date.UTC(2026, 0, 1, 3) ? ["*"] : ["*", "AFIR", "marine", "bus", ""]);
      const known = ["*", "AFIR", "marine"].includes(service), low = service.toLowerCase();
      const group = low === "marine" ? S.choose("group", [[undefined, undefined], [1, 2], [2, 2]]) : [undefined, undefined];
      const endpoints = low === "marine" ? [S.choose("described", ["/api/v1/x/{id}", "/api/v1/x"])] : [];
      w.description = { openapi: "3.0.1", info: { title: "t", version: "1" }, paths: Object.fromEntries(endpoints.map((e) => [e, { get: {} }])) };
      const all = low === "*" ? [] : [...new Set(["/mqtt/", ...endpoints.map(() => "/api/v1/x/")])].sort();
      const part = group[0] === undefined ? all : all.slice((group[0] - 1) * Math.ceil(all.length / 2), group[0] * Math.ceil(all.length / 2));
      const scopes = [...(group[0] === 2 ? [] : [[low, undefined]]), ...part.map((e) => [low, e])];
      const trouble = S.choose("trouble", low === "*" ? ["none", "figure", "role", "no credentials", "statement", "end"] : low === "marine" && group[0] === undefined ? ["none", "description", "figure"] : ["none"]);
      const stored = S.bool("stored");
      w.db = S.bool("tables") || stored ? { key_figures: [] } : {};
      const first = scopes[0];
      if (stored) w.db.key_figures.push({ from: day(month[0]), to: day(month[1]), query: "q", value: "1", name: NAMES[0], filter: tagOf(...first) });
      // of another month, scope or name: never counts
      if (w.db.key_figures) w.db.key_figures.push({ from: day(month[1]), to: "x", query: "q", value: "1", name: NAMES[0], filter: tagOf(...first) }, { from: day(month[0]), to: "x", query: "q", value: "1", name: "Other", filter: tagOf(...first) }, { from: day(month[0]), to: "x", query: "q", value: "1", name: NAMES[0], filter: "other" });
      if (S.bool("old duplicates") && stored) w.db.duplicates = [{ old: 1 }];
      prepare(S, w);
      if (trouble === "role") w.noRole = "error";
      if (trouble === "no credentials") w.noRole = "nothing";
      if (trouble === "description") w.noDescription = true;
      if (trouble === "end") w.badEnd = true;
      const bad = trouble === "figure" ? { which: S.choose("which", low === "*" ? [0, 4, 8] : [2]), how: S.choose("how", ["unreachable", "refused", "too many", "unreadable", "breaks", "wrong"]), often: S.choose("often", [1, 3, 1e9]) } : undefined;
      const at = trouble === "statement" ? S.choose("at", [0, 1, 2, 3, 4, 6]) : undefined;
      if (at !== undefined) w.breaks = (i) => i === at;
      const before = JSON.parse(JSON.stringify(w.db));
      const told = new Map();
      const figures = new Map();
      w.answer = (q) => {
        const a = asksFor(S, q, month);
        if (!a) S.fail("only key figures are asked for");
        if (q.by.accessKeyId !== "AK" || q.by.secretAccessKey !== "SK" || q.by.sessionToken !== "ST") S.fail("the role's credentials are used");
        const key = [a.service, a.endpoint ?? "", a.name].join("|");
        const n = (told.get(key) ?? 0) + 1;
        told.set(key, n);
        if (!figures.has(key)) figures.set(key, { ...figure(S, a.name, String(figures.size)), query: q.body, badly: bad && NAMES.indexOf(a.name) === bad.which });
        const f = figures.get(key);
        if (f.badly && n <= bad.often) {
          if (bad.how === "unreachable") return "unreachable";
          if (bad.how === "refused") return { status: 500 };
          if (bad.how === "too many") return { status: 429 };
          if (bad.how === "unreadable") return { text: "<html>" };
          if (bad.how === "breaks") return { breaks: true };
          return figure(S, a.name, "wrong" + figures.size, true);
        }
        f.answered = true;
        return f;
      };
      const { handler } = S.load(K + "lambda/collect-os-key-figures.ts");
      const r = await S.settle(() => handler({ TRANSPORT_TYPE: service, ...(group[0] !== undefined && { ENDPOINT_GROUP: group[0], TOTAL_GROUPS: group[1] }) }));
      if (!known) { S.reach("unknown service"); S.assert(!("value" in r) && w.asked.length === 0 && same(w.db, before), "an unknown service is refused"); return; }
      if (w.conf) S.assert(w.closed === 1, "the connection to the store is closed once");
      if (w.noRole) { S.reach("no role"); S.assert(!("value" in r) && w.asked.length === 0, "without the role nothing is asked"); return; }
      S.assert(w.role?.RoleArn === "role", "the role given is used");
      if (w.noDescription) { S.reach("no description"); S.assert(!("value" in r) && w.asked.length === 0, "a run without its endpoints fails"); return; }
      if (w.broke && at < (before.key_figures ? 1 : 3)) { S.reach("statement failed"); S.assert(!("value" in r) && w.asked.length === 0, "a run without its table fails"); return; }
      S.assert(r.value === true, "the run is finished");
      // every figure is asked for
      const wanted = scopes.flatMap(([s, e]) => NAMES.map((n) => [s, e ? e.replace(/\/$/, "") : "", n].join("|")));
      S.assert(same([...figures.keys()].sort(), [...wanted].sort()), "every figure of every part is asked for, and no other");
      for (const [k, f] of figures) {
        const n = told.get(k);
        if (!f.badly) { S.assert(n === 1, "an answered figure is asked for once"); continue; }
        const inner = bad.how === "too many" ? bad.often : 1;
        if (f.answered) { S.reach("figure retried"); S.assert(n === bad.often + 1, "a figure is asked for until it is answered"); } else { S.reach("figure lost"); S.assert(bad.often > 2 && n >= 3 && (bad.how === "too many" || n === 3) && inner > 0, "a figure is given up only after three attempts"); }
      }
      const errors = w.log.filter(([l]) => l === "error");
      const lost = [...figures].filter(([, f]) => !f.answered);
      if (lost.length) S.assert(errors.length >= lost.length, "what is lost is told of");
      // what is stored
      const rows = [...figures].filter(([, f]) => f.answered).map(([k, f]) => { const [s, , n] = k.split("|"), e = scopes.find(([s2, e2]) => s2 === s && (e2 ?? "").replace(/\/$/, "") === k.split("|")[1])[1]; return { from: day(month[0]), to: day(month[1]), query: f.query, value: f.value, name: n, filter: tagOf(s, e) }; });
      const lead = rows.length ? rows.find((x) => x.filter === tagOf(...first) && x.name === NAMES[0]) : undefined;
      const twice = stored && !!lead;
      const target = twice ? "duplicates" : "key_figures";
      if (w.broke) { S.reach("statement failed"); S.assert(errors.length > 0, "a failure of the store is told of"); const t = w.db.key_figures ?? []; S.assert(t.length <= (before.key_figures ?? []).length + (twice ? 0 : rows.length), "nothing is stored twice"); return; }
      if (twice) S.reach("duplicates"); else S.reach("stored");
      const had = twice ? [] : (before[target] ?? []);
      const now2 = (w.db[target] ?? []).slice(had.length);
      S.assert((w.db[target] ?? []).length === had.length + rows.length && same((w.db[target] ?? []).slice(0, had.length), had), "each figure is stored once, and what was there stays");
      if (twice) S.assert(same(w.db.key_figures, before.key_figures), "a stored month is not added to");
      else S.assert(same(w.db.duplicates, before.duplicates), "only a month stored earlier counts as a duplicate");
      for (const row of rows) {
        const got = now2.filter((x) => x.name === row.name && x.filter === row.filter);
        S.assert(got.length === 1 && got[0].from === row.from && got[0].to === row.to && got[0].query === row.query, "a figure is stored with its month and question");
        const v = JSON.parse(got[0].value);
        if (typeof row.value === "object" && row.value !== null && "Some/Agent" in row.value) S.assert(typeof v === "object" && v !== null && same(Object.keys(v).sort(), Object.keys(row.value).sort()) && S.decide(S.and(...Object.keys(row.value).map((k) => S.eq(v[k], row.value[k])))), "a figure is stored as it was answered");
        else S.assert(S.eq(v, row.value), "a figure is stored as it was answered");
      }
    },
  },
  nothing: {
    bounds: "all figures unanswered, with the month stored or not",
    reach: ["nothing stored"],
    async run(S) {
      const w = {};
      S.world.time = Date.UTC(2025, 4, 15, 12);
      const stored = S.bool("stored");
      w.db = stored ? { key_figures: [{ a: 1 }], duplicates: [{ b: 1 }] } : {};
      prepare(S, w);
      const how = S.choose("how", ["unreachable", { status: 500 }, { text: "" }, { doc: {} }]);
      w.answer = () => how;
      const { handler } = S.load(K + "lambda/collect-os-key-figures.ts");
      const r = await S.settle(() => handler({ TRANSPORT_TYPE: "*" }));
      S.reach("nothing stored");
      S.assert(r.value === true && w.closed === 1, "the run is finished");
      S.assert(same(w.db, stored ? { key_figures: [{ a: 1 }], duplicates: [{ b: 1 }] } : { key_figures: [] }), "nothing is stored or lost");
      S.assert(w.log.filter(([l]) => l === "error").length >= 9, "every lost figure is told of");
    },
  },
  groups: {
    bounds: "0..7 endpoints in any of 3 orders, split between 1..4 invocations, or not split",
    reach: ["split", "whole", "more groups than endpoints"],
    async run(S) {
      prepare(S, {});
      const { buildScopes } = S.load(K + "lambda/collect-os-key-figures.ts");
      const { Service } = S.load(K + "domain/types/service.ts");
      const n = S.int("endpoints", 0, 7), total = S.int("groups", 1, 4);
      const k = S.concrete(n), t = S.concrete(total);
      const names = ["/a/", "/b/", "/a/b/", "/c/", "/B/", "/*.JPG/", "/z/z/"].slice(0, k);
      const order = S.choose("order", ["as is", "reversed", "turned"]);
      const put = (shift) => new Set(order === "as is" ? names : order === "reversed" ? [...names].reverse() : [...names.slice(shift), ...names.slice(0, shift)]);
      const got = [];
      const ask = (...a) => { const s = buildScopes([{ service: Service.ROAD, endpoints: put((a[1] ?? 0) % (k || 1)) }], a[1], a[2]); for (const x of s) got.push([x.service, x.endpoint, x.storageTag]); return s; };
      const mode = S.choose("mode", ["split", "whole", "no total"]);
      if (mode === "split") for (let g = 1; g <= t; g++) ask(0, g, t);
      else if (mode === "no total") ask(0, 1);
      else ask(0);
      S.reach(mode === "split" ? "split" : "whole");
      if (mode === "split" && t > k) S.reach("more groups than endpoints");
      const expected = [[Service.ROAD, undefined, tagOf("road")], ...names.map((e) => [Service.ROAD, e, tagOf("road", e)])];
      S.assert(got.length === expected.length && expected.every((x) => got.filter((y) => y[0] === x[0] && y[1] === x[1] && y[2] === x[2]).length === 1), "each endpoint and the service itself is covered exactly once");
    },
  },
  endpoints: {
    bounds: "each service's description with 0..2 of 6 path forms, missing or not a description; all services at once with any of them failing",
    reach: ["discovered", "lost", "isolated"],
    async run(S) {
      const w = {};
      quiet(S);
      const { EndpointDiscoveryService } = S.load(K + "domain/services/endpoint-discovery-service.ts");
      const { Service } = S.load(K + "domain/types/service.ts");
      const forms = { "/api/v1/trains": "/api/v1/trains/", "/api/v1/trains/{a}": "/api/v1/trains/", "/api/v1/trains/latest/": "/api/v1/trains/latest/", "/x/{y}/z/{w}": "/x/", "/x{y}": "/x/", "{id}": undefined };
      const all = S.bool("all");
      const services = [Service.RAIL, Service.ROAD, Service.MARINE, Service.AFIR];
      const state = Object.fromEntries(services.map((s) => [s, { how: S.choose("how " + s, s === "rail" || (all && s === "marine") ? ["ok", "lost", "not one"] : ["ok"]), paths: s === "rail" ? [S.choose("one", Object.keys(forms)), S.choose("two", ["/x/{y}/z/{w}", "/api/v1/trains"])] : s === "road" ? [] : ["/" + s] }]));
      const urls = S.bool("described") || all ? new Map(services.map((s) => [s, "http://" + s])) : new Map();
      const custom = new Map([[Service.RAIL, S.choose("custom", [[], ["/mqtt"], ["/mqtt/", "/x/"]])]]);
      const client = { fetch: async (url) => { await null; const s = url.slice(7); if (!state[s]) S.fail("only the service's own description is fetched"); if (state[s].how === "lost") throw new Error("lost"); if (state[s].how === "not one") return { info: 3 }; return { openapi: "3.0.1", info: { title: "t", version: "1" }, paths: Object.fromEntries(state[s].paths.map((p) => [p, {}])) }; } };
      const d = new EndpointDiscoveryService(client, { openApiUrls: urls, customEndpoints: custom });
      const want = (s) => { const st = state[s]; const given = urls.size ? st.paths : []; if (urls.size && (st.how !== "ok" || given.includes("{id}"))) return undefined; return [...new Set([...given.map((p) => forms[p] ?? p + "/"), ...(s === "rail" ? custom.get(Service.RAIL).map((p) => (p.endsWith("/") ? p : p + "/")) : [])])].sort(); };
      if (!all) {
        const r = await S.settle(() => d.discoverEndpoints(Service.RAIL));
        const x = want("rail");
        if (!x) { S.reach("lost"); S.assert(!("value" in r), "endpoints that cannot be found out are not guessed"); return; }
        S.reach("discovered");
        S.assert("value" in r && r.value.service === Service.RAIL && same([...r.value.endpoints].sort(), x), "the endpoints described and given are found, each once");
        return;
      }
      const r = await S.settle(() => d.discoverAllEndpoints());
      if (!("value" in r)) S.fail("one service does not prevent the others");
      S.reach("isolated");
      S.assert(same(r.value.map((x) => x.service).sort(), [...services].sort()), "every service is covered once");
      for (const x of r.value) S.assert(same([...x.endpoints].sort(), want(x.service) ?? []), "the endpoints of each service are its own");
    },
  },
  attempts: {
    bounds: "1..4 attempts allowed, symbolic delays up to 100 s, each attempt answering or failing with an error or another value",
    reach: ["first", "later", "exhausted", "capped"],
    async run(S) {
      quiet(S);
      S.world.time = 1000;
      const { RetryingMetricSource } = S.load(K + "adapters/driven/opensearch/retrying-metric-source.ts");
      const max = S.choose("attempts", [1, 2, 3, 4]);
      const own = S.bool("own policy");
      const delay = S.int("delay", 0, 100000), cap = S.int("cap", 1, 100000);
      const policy = own ? { maxAttempts: max, initialDelayMs: delay, maxDelayMs: cap } : undefined;
      if (own) S.assume(delay <= cap);
      const allowed = own ? max : 3;
      const at = [], outcomes = [], args = [];
      const one = (n) => async (...a) => { await null; at.push(S.world.time); args.push([n, ...a]); const o = S.choose("outcome" + at.length, ["ok", "error", "other"]); outcomes.push(o); if (at.length > 6) S.fail("no more attempts than allowed"); if (o === "ok") return { value: at.length, query: "q" }; if (o === "error") throw new Error("e" + at.length); throw "t" + at.length; };
      const src = new RetryingMetricSource({ retrieveMetric: one("value"), retrieveMetricWithQuery: one("query") }, policy);
      const which = S.choose("which", ["value", "query"]);
      const r = await S.settle(() => (which === "value" ? src.retrieveMetric("s", "d", "p") : src.retrieveMetricWithQuery("s", "d", "p")));
      S.assert(args.every((a) => same(a, [which, "s", "d", "p"])), "every attempt asks for the same");
      let due = 1000, d = own ? delay : 500;
      at.forEach((t, i) => { S.assert(S.eq(t, due), "an attempt is made when its delay is over"); due = due + d; const twice = d * 2, most = own ? cap : 60000; if (S.decide(twice > most)) { d = most; S.reach("capped"); } else d = twice; });
      const n = outcomes.length;
      if (outcomes[n - 1] === "ok") { S.reach(n === 1 ? "first" : "later"); S.assert(n <= allowed && outcomes.slice(0, -1).every((o) => o !== "ok") && r.value?.value === n && r.value.query === "q", "the first answer is given"); } else { S.reach("exhausted"); S.assert(n === allowed && !("value" in r) && r.error instanceof Error && r.error.message === (outcomes[n - 1] === "error" ? "e" : "t") + n, "the last failure is told after the agreed attempts"); }
    },
  },
  values: {
    bounds: "terms with 0..3 keys of 6 forms and symbolic counts; missing values and buckets; answers of a wrong form",
    reach: ["alike", "apart", "missing", "wrong"],
    async run(S) {
      const w = {};
      prepare(S, w);
      const { OpenSearchMetricSource } = S.load(K + "adapters/driven/opensearch/opensearch-metric-source.ts");
      const name = S.choose("figure", NAMES.slice(2));
      const terms = name.startsWith("Top");
      const form = S.choose("form", ["whole", "missing", "wrong"]);
      const n = terms && form === "whole" ? S.choose("keys", [0, 1, 2, 3]) : 0;
      const keys = Array.from({ length: n }, (_, i) => S.choose("key" + i, [["a", 'a"', "'a\\"], ["a", "b", "\"a\""], ["c", "a", "__missing__"]][i]));
      const counts = keys.map((_, i) => S.int("n" + i, 0, 1e6));
      const agg = terms ? { buckets: keys.map((key, i) => (name.includes("bytes") ? { key, doc_count: 1, agg: { value: counts[i] } } : { key, doc_count: counts[i] })) } : { value: S.int("value", 0, 1e9) };
      const answer = form === "whole" ? { aggregations: { agg } } : form === "missing" ? { aggregations: { agg: {} } } : { count: 3 };
      const month = [Date.UTC(2025, 3, 1), Date.UTC(2025, 4, 1)];
      const asked = [];
      const src = new OpenSearchMetricSource({ makeOsQuery: async (index, method, query) => { await null; asked.push([index, method, query]); return answer; } }, { defaultAccessLogIndex: "default", afirAccessLogIndex: "afirs", accountNames: { ...ACC, "*": "*" } });
      const service = S.choose("service", ["*", "afir", "road"]), endpoint = S.choose("endpoint", [undefined, "/api/v1/x/", "/x"]);
      const r = await S.settle(() => src.retrieveMetricWithQuery({ service, endpoint, storageTag: "t" }, { name, valueType: "scalar" }, { from: new S.world.Date(month[0]), to: new S.world.Date(month[1]) }));
      S.assert(asked.length === 1, "one question is asked");
      const a = asksFor(S, { path: `/${asked[0][0]}/${asked[0][1]}`, method: "POST", host: "vpce", headers: { host: "oshost" }, body: asked[0][2] }, month);
      S.assert(a && a.service === service && a.name === name && (a.endpoint ?? "") === (endpoint ?? "").replace(/\/$/, ""), "the figure itself is asked for");
      if (form === "wrong") { S.reach("wrong"); S.assert(!("value" in r), "an answer of a wrong form gives no figure"); return; }
      if (!r.value) S.fail("a figure is given");
      S.assert(r.value.query === asked[0][2], "the question is given with the figure");
      if (!terms) { if (form === "missing") S.reach("missing"); S.assert(S.eq(r.value.value, form === "missing" ? 0 : agg.value), "the figure is as answered"); return; }
      const plain = (k) => k.replace(/["'\\]/g, "");
      const total = {};
      keys.forEach((k, i) => { const p = plain(k); total[p] = p in total ? total[p] + counts[i] : counts[i]; });
      if (Object.keys(total).length < n) S.reach("alike"); else if (n > 1) S.reach("apart");
      if (form === "missing") S.reach("missing");
      const v = r.value.value;
      // the bytes of keys that come to look alike are counted by their largest or together
      const exact = !name.includes("bytes");
      S.assert(typeof v === "object" && v !== null && same(Object.keys(v).sort(), Object.keys(total).sort()) && (exact || Object.keys(total).length === n ? S.decide(S.and(true, ...Object.keys(total).map((k) => S.eq(v[k], total[k])))) : true), "every key has its count, and none are lost");
    },
  },
  months: {
    bounds: "any moment of 2024..2026; months and periods given by number",
    reach: ["january", "other"],
    async run(S) {
      quiet(S);
      S.world.time = S.int("now", Date.UTC(2024, 0, 1), Date.UTC(2026, 11, 31, 23, 59, 59));
      const T = S.load(K + "domain/types/time-period.ts");
      const p = T.lastMonth();
      const from = p.from.getTime(), to = p.to.getTime();
      S.assert(S.and(to <= S.world.time, S.or(...Array.from({ length: 36 }, (_, i) => S.and(S.eq(to, Date.UTC(2024, i, 1)), S.eq(from, Date.UTC(2024, i - 1, 1)), S.world.time < Date.UTC(2024, i + 1, 1)))) ), "the month before this one is collected");
      S.reach(S.decide(S.eq(p.to.getMonth(), 0)) ? "january" : "other");
      const m = S.choose("month", [1, 2, 12]);
      const q = T.forMonth(2025, m);
      S.assert(q.from.getTime() === Date.UTC(2025, m - 1, 1) && q.to.getTime() === Date.UTC(2025, m, 1), "a month is from its first day to the next one's");
      const a = S.int("a", 0, 1e12), b = S.int("b", 0, 1e12);
      const c = S.sync(() => T.createTimePeriod(new S.world.Date(a), new S.world.Date(b)));
      if (S.decide(a < b)) S.assert(c.value && S.and(S.eq(c.value.from.getTime(), a), S.eq(c.value.to.getTime(), b)), "a period is as given"); else S.assert(!("value" in c), "a period ends after it begins");
    },
  },
};
