import { quiet } from "./_util.js";
const P = "other/status/src/";
const N = "https://api.nodeping.com/api/1";
export const property = {
  id: "C38",
  title: "Monitoring follows the published interfaces, the status page and its breaks",
  statement: "Every published path that can be called without knowing anything more, and every separately configured address, ends up with exactly one check that calls it as configured, with the service's own limits and headers and with the right people to tell, and once that is so nothing more is changed; a failure on the way changes nothing wrongly and the next run completes the work. Every component that one side has and the other lacks, and every component whose state differs, is reported and nothing else is, each application's components being compared with its own. While a maintenance break is on every check is off and its start is told once, after it every check is turned on again, those that did not come on are told of, and an unreadable status page changes nothing.",
  quantifier: { over: ["inputs", "fault_sequences", "histories"], text: "any published description of up to 2 paths of 11 kinds with any default values, any limits and any differing existing checks, any request failing before or after it took effect, any states of up to 2 components and 2 checks, any time around the start of a break" },
  why_tests_cant: "The tests replace the monitoring service by counters of calls and look at one component at a time; nothing is run twice, fails, or has two applications.",
  anchors: {
    files: [P + "service", P + "api", P + "lambda"],
    mechanism: [{ name: "updateComponentsAndChecks, getNodePingAndStatuspageComponentNotInSyncStatuses", where: P + "service/status-service.ts" }, { name: "handleMaintenance", where: P + "service/maintenance-service.ts" }, { name: "NodePingApi", where: P + "api/nodeping-api.ts" }, { name: "DigitrafficApi.getAppWithEndpoints", where: P + "api/digitraffic-api.ts" }, { name: "CStateStatuspageApi", where: P + "api/cstate-statuspage-api.ts" }],
    observe_at: "the requests sent to the monitoring service, the status page's workflow and the chat",
  },
  assumptions: ["a component of the status page is named in small letters, beginning with its application", "an application's separately configured addresses have names and addresses of their own", "no other application's name occurs in a check's name"],
};
const SECRET = { nodePingToken: "TOKEN", nodePingSubAccountId: "SUB", nodePingContactIdSlack1: "slack1", nodePingContactIdSlack2: "slack2", reportUrl: "https://chat.example.com/hook", gitHubPat: "PAT" };
const HOLDER = { create: () => ({ get: async () => SECRET }) };
const DISPATCH = "https://api.github.com/repos/own/rep/actions/workflows/";
const copy = (x) => (Array.isArray(x) ? x.map(copy) : x && typeof x === "object" && Object.getPrototypeOf(x) === Object.prototype ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, copy(v)])) : x);
// the monitoring service, the status page, the interfaces' descriptions, the workflow and the chat
function world(S, w) {
  const log = quiet(S);
  Object.assign(w, { checks: w.checks ?? [], contacts: w.contacts ?? {}, calls: [], changes: [], n: 0, next: 1, log });
  class HTTPError extends Error {}
  const done = (v) => ({ ok: true, status: 200, statusText: "OK", json: async () => copy(v), text: async () => "" });
  const basic = "Basic " + btoa(SECRET.nodePingToken);
  const request = (verb) => async (url, o) => {
    const call = { verb, url, json: o && o.json !== undefined ? copy(o.json) : undefined, headers: o && o.headers };
    w.calls.push(call);
    const k = w.n++;
    await null;
    if (w.failAt === k && !w.late) throw new Error("unreachable");
    const v = serve(call);
    if (w.failAt === k && w.late) throw new Error("timed out");
    return done(v);
  };
  const auth = (call) => { if (!call.json || call.json.token !== "TOKEN" || call.json.customerid !== "SUB") S.fail("a change is made as the service itself"); };
  const list = () => Object.fromEntries(w.checks.map((c) => [c._id, c]));
  function serve(call) {
    const { verb, url, json } = call;
    if (verb === "get") {
      if (url === `${N}/contacts?customerid=SUB` || url === `${N}/checks?customerid=SUB`) {
        if (call.headers.Authorization !== basic) S.fail("the service is asked as itself");
        return url.startsWith(N + "/contacts") ? w.contacts : list();
      }
      if (Object.hasOwn(w.pages ?? {}, url)) return w.pages[url];
      S.fail("only known addresses are read: " + url);
    }
    if (url === SECRET.reportUrl && verb === "post") { w.said = [...(w.said ?? []), json.text]; return "ok"; }
    if (url.startsWith(DISPATCH) && verb === "post") { w.started = [...(w.started ?? []), call]; return ""; }
    auth(call);
    w.changes.push(call);
    if (verb === "post" && url === N + "/contacts") { const id = "k" + w.next++; w.contacts[id + "-c"] = { name: json.name, custrole: json.custrole, addresses: Object.fromEntries(json.newaddresses.map((a) => [id, { address: a.address, type: a.type }])) }; w.made = json; return {}; }
    if (verb === "post" && url === N + "/checks") { const c = { _id: "n" + w.next++, enable: json.enabled ? "active" : "inactive", state: 1, ...settings(json) }; w.checks.push(c); return c; }
    if (verb === "put" && url === N + "/checks") { const c = w.checks.find((x) => x._id === json.id); if (!c) S.fail("a check that exists is changed"); Object.assign(c, settings({ label: c.label, ...json })); return c; }
    if (verb === "put" && /^https:\/\/api.nodeping.com\/api\/1\/checks\?disableall=(true|false)$/.test(url)) {
      const off = url.endsWith("true");
      for (const c of w.checks) {
        if (off && c.enable === "active") { c.enable = "inactive"; c.byAll = true; }
        if (!off && c.byAll) { c.enable = "active"; c.byAll = false; }
      }
      const disabled = w.checks.filter((c) => c.enable !== "active").length;
      return { enabled: w.checks.length - disabled, disabled, disableall: off ? 1 : 0 };
    }
    const one = w.checks.find((c) => verb === "put" && url === `${N}/checks/${c._id}`);
    if (one && json.enabled === true) { if (!one.stuck) one.enable = "active"; return one; }
    S.fail("only known changes are made: " + verb + " " + url);
  }
  S.stub("ky", { __esModule: true, HTTPError, default: { get: request("get"), post: request("post"), put: request("put") } });
  S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: HOLDER });
  return w;
}
const settings = (j) => ({ label: j.label, type: j.type, interval: j.interval, notifications: copy(j.notifications), parameters: { target: j.target, method: j.method, threshold: j.threshold, sendheaders: copy(j.sendheaders), postdata: j.postdata, contentstring: j.contentstring, invert: j.invert, regex: j.regex } });
const OWN = { "accept-encoding": "gzip", "digitraffic-user": "internal-digitraffic-status" };
const people = (c) => [...new Set(c.notifications.flatMap((n) => Object.keys(n)))].sort();
const HTTP = 0, WS = 1;
const CONTACT = "GitHub Actions for status main";
function services(S, w, timeout, interval) {
  const { NodePingApi } = S.load(P + "api/nodeping-api.ts");
  const { DigitrafficApi } = S.load(P + "api/digitraffic-api.ts");
  const { updateComponentsAndChecks } = S.load(P + "service/status-service.ts");
  return (apps) => S.settle(() => updateComponentsAndChecks(apps, new DigitrafficApi(), new NodePingApi(HOLDER.create(), 1000, timeout, interval), HOLDER.create(), "own", "rep", "main", "wf.yml"));
}
const doc = (...paths) => ({ paths: Object.fromEntries(paths.map((p) => [p, { get: {} }])) });
const app = (name, doc, endpoints = [], excluded = []) => ({ name, hostPart: `https://${name.toLowerCase()}.example.com`, url: `https://${name.toLowerCase()}.example.com/openapi.json`, endpoints, excluded });
const EXTRA = {
  post: { name: "Road GraphQL", url: "https://road.example.com/graphql", protocol: HTTP, method: "POST", sendData: '{"q": 1}' },
  mqtt: { name: "Road MQTT", url: "wss://road.example.com/mqtt", protocol: WS },
  content: { name: "/api/h/v1/raw", url: "https://road.example.com/api/h/v1/raw/1.csv", protocol: HTTP, method: "GET", contentstring: "101" },
  inverted: { name: "Road data is up to date", url: "https://road.example.com/updated", protocol: HTTP, method: "GET", contentstring: "false", invert: true, regex: true },
  beta: { name: "Road Beta page", url: "https://road.example.com/beta", protocol: HTTP },
};
// what a check must be for it to watch an endpoint
function watches(S, w, label, extra, target, timeout, interval, touched, tag) {
  const own = w.checks.filter((c) => c.label === label);
  S.assert(own.length === 1, "exactly one check: " + tag);
  const c = own[0], p = c.parameters;
  const websocket = extra?.protocol === WS;
  S.assert(p.target === target, "it calls the right address");
  if (!websocket) S.assert(p.method === (extra?.method ?? "HEAD"), "as configured");
  S.assert(c.type === (websocket ? "WEBSOCKET" : "HTTPADV"), "over the right protocol");
  S.assert(S.and(S.eq(p.threshold, timeout), S.eq(c.interval, interval)), "with the service's limits");
  S.assert(c.enable === "active", "it is on");
  const gh = Object.keys(Object.values(w.contacts).find((x) => x.name === CONTACT).addresses)[0];
  S.assert(people(c).join() === (/beta/i.test(label) ? ["slack1", "slack2"] : [gh, "slack1", "slack2"].sort()).join(), "the right people are told");
  S.assert(c.notifications.every((n) => Object.values(n).every((x) => x.delay === 0 && x.schedule === "All")), "at once and always");
  if (!touched.has(c._id)) return;
  S.assert(S.eq(copy(p.sendheaders), { ...OWN, ...(extra?.sendData ? { "content-type": "application/json" } : {}) }), "with its own headers");
  S.assert(p.postdata === extra?.sendData, "with its own body");
  S.assert(p.contentstring === extra?.contentstring && (!extra?.contentstring || (p.invert === (extra.invert ?? false) && p.regex === (extra.regex ?? false))), "looking for what is configured");
}
const touchedBy = (w) => new Set([...w.changes.filter((c) => c.url === N + "/checks").map((c) => c.json.id ?? w.checks.find((x) => x.label === c.json.label)?._id)]);
export const harnesses = {
  paths: {
    bounds: "up to 2 paths of 11 kinds, default values of up to 2 characters, excluded or not; a description that cannot be read",
    reach: ["listed", "left out", "excluded", "none published", "unreadable"],
    budgetMs: 240000,
    run: async (S) => {
      const KINDS = ["plain", "post", "segment", "beta", "optional", "default", "list", "lacking", "mixed", "mixed lacking", "no parameters"];
      const kinds = [S.choose("first", KINDS), S.choose("second", ["none", ...KINDS])].filter((x) => x !== "none");
      const kindsText = new Set(["default", "list", "mixed", "mixed lacking"]);
      const outcome = S.choose("outcome", ["published", "published", "none published", "unreadable"]);
      if (outcome !== "published" && kinds.length > 1) return;
      const d = (i) => S.str("d" + i, [1, 2], "ab&1");
      const paths = {}, wanted = [];
      kinds.forEach((kind, i) => {
        const path = (i ? "/api/a/v1/" : "/api/b/v1/") + { segment: "{id}", beta: "beta" }[kind] + "x";
        const v = kindsText.has(kind) ? d(i) : undefined;
        const par = (name, required, def) => ({ name, in: "query", required, schema: def === undefined ? {} : { default: def } });
        const [item, query] = {
          plain: [{ get: {} }, ""], post: [{ post: {} }], segment: [{ get: {} }], beta: [{ get: {} }], "no parameters": [{ get: { parameters: [] }, post: {} }, ""],
          optional: [{ get: { parameters: [par("p", false), par("q", false, "z")] } }, ""],
          default: [{ get: { parameters: [par("p", true, v)] } }, ["?p=", v]],
          list: [{ get: { parameters: [par("p", true, [v, "w"]), par("q", true, "z")] } }, ["?p=", v, "&p=w&q=z"]],
          lacking: [{ get: { parameters: [par("p", true)] } }],
          mixed: [{ get: { parameters: [par("o", false), par("p", true, v), par("r", false, "z")] } }, ["?p=", v]],
          "mixed lacking": [{ get: { parameters: [par("p", true, v), par("q", true, i ? "" : [])] } }],
        }[kind];
        paths[path] = item;
        if (query !== undefined) wanted.push([path, query === "" ? path : query.reduce((a, b) => a + b, path)]);
      });
      const excluded = S.choose("excluded", [[], ["/api/a/v1/undefinedx", "/api/b/v1/beta"]]);
      const w = world(S, { pages: { "https://road.example.com/openapi.json": { paths } } });
      if (outcome === "unreadable") w.failAt = 0;
      const { DigitrafficApi } = S.load(P + "api/digitraffic-api.ts");
      const one = { ...app("Road", paths, [EXTRA.mqtt], excluded), ...(outcome === "none published" ? { hasOpenApiSpec: false } : S.bool("said") ? { hasOpenApiSpec: true } : {}) };
      const r = await S.settle(() => new DigitrafficApi().getAppWithEndpoints(one));
      if (outcome === "unreadable") { S.assert(r.error !== undefined, "an unreadable description is a failure"); S.reach("unreadable"); return; }
      if (r.error) S.fail("a description is understood");
      const a = r.value;
      S.assert(a.app === "Road" && a.hostPart === one.hostPart && a.extraEndpoints.length === 1 && a.extraEndpoints[0] === EXTRA.mqtt, "the application's own facts");
      if (outcome === "none published") { S.assert(w.calls.length === 0 && a.endpoints.length === 0, "nothing is asked for"); S.reach("none published"); return; }
      const expected = wanted.map((x) => x[1]).filter((x) => !(typeof x === "string" && excluded.includes(x)));
      S.assert(a.endpoints.length === expected.length, "as many as can be called");
      for (const x of expected) S.assert(S.or(...a.endpoints.map((e) => S.eq(e, x))), "each that can be called");
      if (expected.length) S.reach("listed");
      if (wanted.length < kinds.length) S.reach("left out");
      if (expected.length < wanted.length) S.reach("excluded");
    },
  },
  follows: {
    bounds: "an application with a published path and one of 5 separately configured addresses, with no check, or checks differing in any limit, header, method, address or contact; then run again; another application's checks beside",
    reach: ["created", "changed", "left", "contact made"],
    budgetMs: 300000,
    run: async (S) => {
      const extraName = S.choose("extra", Object.keys(EXTRA)), extra = EXTRA[extraName];
      const timeout = S.int("timeout", 1, 60), interval = S.int("interval", 1, 60);
      const state = S.choose("state", ["none", "path", "extra", "both"]);
      const label = extra.name.includes("Road") ? extra.name : "Road " + extra.name;
      const contacts = { s: { name: "slack", custrole: "notify", addresses: { slack1: { address: "a" }, slack2: { address: "b" } } } };
      const known = state === "none" ? S.choose("contact known", [false, true]) : true;
      if (known) contacts.g = { name: CONTACT, custrole: "notify", addresses: { gh: { address: "x" } } };
      const differs = state === "none" ? "no" : S.choose("differs", ["limits", "header", "no headers", "method", "target", "people", "more people", "twice the people"]);
      const threshold = S.int("threshold", 1, 60), every = S.int("every", 1, 60);
      const make = (id, lbl, e, target) => {
        const beta = /beta/i.test(lbl);
        const told = differs === "people" ? ["slack1"] : [...["slack1", "slack2"], ...(beta ? [] : ["gh"]), ...(differs === "more people" ? [beta ? "gh" : "someone"] : [])];
        return { _id: id, label: lbl, type: e?.protocol === WS ? "WEBSOCKET" : "HTTPADV", enable: "active", state: 1, interval: every,
          notifications: differs === "twice the people" ? [...told, "slack1"].map((x) => ({ [x]: { delay: 0, schedule: "All" } })) : told.map((x) => ({ [x]: { delay: 0, schedule: "All" } })),
          parameters: { target: differs === "target" && e ? "https://old.example.com/" : target, method: differs === "method" ? "POST" : (e?.method ?? "HEAD"), threshold, sendheaders: differs === "no headers" ? undefined : differs === "header" ? { "accept-encoding": "gzip" } : { "Accept-Encoding": "gzip", "Digitraffic-User": "internal-digitraffic-status" }, postdata: e?.sendData, contentstring: e?.contentstring, invert: e?.invert ?? false, regex: e?.regex ?? false } };
      };
      const checks = [];
      if (state === "path" || state === "both") checks.push(make("c1", "Road /api/a/v1/x", undefined, "https://road.example.com/api/a/v1/x"));
      if (state === "extra" || state === "both") checks.push(make("c2", label, extra, extra.url));
      const marine = { _id: "m1", label: "Marine /api/a/v1/x", type: "HTTPADV", enable: "inactive", state: 0, interval: 5, notifications: [], parameters: { target: "https://marine.example.com/api/a/v1/x", method: "GET", threshold: 3, sendheaders: {} } };
      checks.push(marine);
      const before = JSON.stringify(marine);
      const w = world(S, { checks, contacts, pages: { "https://road.example.com/openapi.json": doc("/api/a/v1/x") } });
      const run = services(S, w, timeout, interval);
      const one = app("Road", undefined, [extra]);
      const r = await run([one]);
      if (r.error) S.fail("the checks are brought up to date");
      const touched = touchedBy(w);
      watches(S, w, "Road /api/a/v1/x", undefined, "https://road.example.com/api/a/v1/x", timeout, interval, touched, "a published path");
      watches(S, w, label, extra, extra.url, timeout, interval, touched, "a configured address");
      S.assert(w.checks.length === 3 && JSON.stringify(marine) === before, "other applications' checks are left");
      if (!known) {
        S.assert(w.changes.filter((c) => c.url === N + "/contacts").length === 1, "the workflow is made known once");
        const m = w.made, a = m.newaddresses?.[0];
        S.assert(m.name === CONTACT && m.custrole === "notify" && m.newaddresses.length === 1 && a.address === DISPATCH + "wf.yml/dispatches" && a.type === "webhook" && a.action === "post" && a.headers.Authorization === "token PAT" && a.headers.Accept === "application/vnd.github+json" && S.decide(S.eq(a.data, { ref: "refs/heads/main" })), "so that it can be started");
        S.reach("contact made");
      } else S.assert(w.changes.every((c) => c.url === N + "/checks"), "nobody is made known again");
      const made = w.changes.filter((c) => c.url === N + "/checks" && c.verb === "post").length, changed = w.changes.filter((c) => c.verb === "put").length;
      S.assert(made === { none: 2, path: 1, extra: 1, both: 0 }[state], "only what lacks is created");
      if (made) S.reach("created");
      if (changed) S.reach("changed");
      if (state === "both" && !changed) S.reach("left");
      if (made) S.assert(w.changes.filter((c) => c.verb === "post" && c.url === N + "/checks").every((c) => c.json.follow === true && c.json.enabled === true), "redirections are followed");
      const count = w.changes.length;
      const again = await run([one]);
      S.assert(!again.error && w.changes.length === count, "and then nothing is changed");
    },
  },
  interrupted: {
    bounds: "two applications with two paths, a configured address with a body, and one without; any request failing before or after it took effect; run again",
    reach: ["interrupted", "complete", "no address"],
    budgetMs: 200000,
    run: async (S) => {
      const contact = S.choose("contact", ["known", "unknown", "no address"]);
      const contacts = { s: { name: "slack", custrole: "notify", addresses: { slack1: { address: "a" } } } };
      if (contact !== "unknown") contacts.g = { name: CONTACT, custrole: "notify", addresses: contact === "known" ? { gh: { address: "x" } } : {} };
      const old = S.bool("an old check");
      const checks = old ? [{ _id: "o1", label: "Road /api/a/v1/x", type: "HTTPADV", enable: "active", state: 1, interval: 9, notifications: [], parameters: { target: "https://road.example.com/api/a/v1/x", method: "GET", threshold: 9, sendheaders: {} } }] : [];
      const w = world(S, { checks, contacts, pages: { "https://road.example.com/openapi.json": doc("/api/a/v1/x", "/v1/x"), "https://marine.example.com/openapi.json": doc("/api/a/v1/x") } });
      const run = services(S, w, 10, 2);
      const apps = [app("Road", undefined, [EXTRA.post, EXTRA.mqtt]), app("Marine", undefined)];
      if (contact === "no address") {
        const r = await run(apps);
        S.assert(r.error !== undefined && w.changes.length === 0, "without anyone to tell nothing is changed");
        S.reach("no address");
        return;
      }
      w.failAt = S.choose("failing", Array.from({ length: 15 }, (_, i) => i));
      w.late = S.bool("late");
      const first = await run(apps);
      const failed = w.n > w.failAt;
      S.assert((first.error !== undefined) === failed, "a failed request is a failure");
      if (failed) {
        S.reach("interrupted");
        if (w.failAt < 2) S.assert(w.changes.length === 0, "without the descriptions nothing is changed");
      }
      w.failAt = undefined;
      const r = await run(apps);
      if (r.error) S.fail("the next run completes the work");
      const t = touchedBy(w);
      watches(S, w, "Road /api/a/v1/x", undefined, "https://road.example.com/api/a/v1/x", 10, 2, t, "one");
      watches(S, w, "Road /v1/x", undefined, "https://road.example.com/v1/x", 10, 2, t, "two");
      watches(S, w, "Road GraphQL", EXTRA.post, EXTRA.post.url, 10, 2, t, "three");
      watches(S, w, "Road MQTT", EXTRA.mqtt, EXTRA.mqtt.url, 10, 2, t, "four");
      watches(S, w, "Marine /api/a/v1/x", undefined, "https://marine.example.com/api/a/v1/x", 10, 2, t, "five");
      S.assert(w.checks.length === 5 && Object.values(w.contacts).filter((c) => c.name === CONTACT).length === 1, "and nothing else");
      S.reach("complete");
    },
  },
  moved: {
    bounds: "a configured address that was given another address, its name with or without its application's, the check named in any case; several configured addresses of the same application",
    reach: ["moved"],
    run: async (S) => {
      const named = S.bool("named with its application");
      const extra = { ...(named ? EXTRA.inverted : EXTRA.content), url: "https://new.example.com/1" };
      const label = (named ? EXTRA.inverted.name : "Road " + EXTRA.content.name);
      const shown = named && S.bool("capitals") ? label.toUpperCase().replace("ROAD", "Road") : label;
      const check = { _id: "c1", label: shown, type: "HTTPADV", enable: "active", state: 1, interval: 2, notifications: ["slack1", "slack2", "gh"].map((x) => ({ [x]: { delay: 0, schedule: "All" } })), parameters: { target: "https://old.example.com/", method: "GET", threshold: 10, sendheaders: { ...OWN } } };
      const w = world(S, { checks: [check] });
      const { updateChecks } = S.load(P + "service/status-service.ts");
      const others = [EXTRA.post, EXTRA.mqtt];
      const api = new (S.load(P + "api/nodeping-api.ts").NodePingApi)(HOLDER.create(), 1000, 10, 2);
      const r = await S.settle(() => updateChecks([check], ["slack1", "slack2"], "gh", api, S.bool("last") ? [...others, extra] : [extra, ...others], "Road"));
      if (r.error) S.fail("the check is brought up to date");
      S.assert(w.changes.length === 1 && check.parameters.target === extra.url && check.parameters.method === "GET" && check.parameters.contentstring === extra.contentstring && check.label === shown, "the check calls the new address");
      S.reach("moved");
    },
  },
  differences: {
    bounds: "up to 2 components of 2 applications and up to 2 checks with any states, a break on or off; the notification",
    reach: ["alike", "component missing", "check missing", "up and down", "during a break", "two applications"],
    budgetMs: 240000,
    run: async (S) => {
      // component: [the page's name, the checks' name, the application]
      const NAMES = [["road/api/x/v1/y", "Road /api/x/v1/y"], ["marine/api/x/v1/y", "Marine /api/x/v1/y"], ["road/swagger-ui", "Road Swagger UI"], ["rail/swagger-ui", "Rail Swagger UI"], ["rail/infra-api/ui", "Rail infra-api UI"], ["road/api/z/v1/list", "Road /api/z/v1/list/"]];
      const a = S.choose("one", NAMES), b = S.choose("other", [undefined, ...NAMES]);
      if (a === b) return;
      const comps = [a, b].filter(Boolean);
      if (comps.length === 2 && NAMES.indexOf(a) > NAMES.indexOf(b)) return;
      const onPage = comps.map((c, i) => i === 0 && !b ? S.bool("page" + i) : S.bool("page" + i));
      const watched = comps.map((c, i) => S.bool("watched" + i));
      const systems = [], checks = [], expected = [];
      const inBreak = S.bool("break");
      comps.forEach(([page, label], i) => {
        const status = onPage[i] ? S.choose("status" + i, ["ok", "down", "disrupted"]) : undefined;
        const state = watched[i] ? (S.bool("up" + i) ? 1 : 0) : undefined;
        if (status) systems.push({ name: page, status, description: "", category: "Road" });
        if (state !== undefined) checks.push({ _id: "c" + i, label, state, enable: "active" });
        if (status && state === undefined) { expected.push(`${page}: NodePing check missing`); S.reach("check missing"); }
        if (!status && state !== undefined) { expected.push(`${label}: cState Statuspage system missing`); S.reach("component missing"); }
        if (status && state !== undefined && (state === 1) === (status === "down")) {
          if (inBreak) S.reach("during a break");
          else { expected.push(state === 1 ? `${page}: NodePing check is UP, cState statuspage component is DOWN` : `${page}: NodePing check is DOWN, cState statuspage component is UP`); S.reach("up and down"); }
        }
      });
      if (S.bool("a beta check")) checks.push({ _id: "b", label: "Road /api/beta/v1", state: 0, enable: "active" });
      const page = { baseURL: "https://page.example.com", pinnedIssues: inBreak ? [{ title: "t", createdAt: "2024-02-20 08:36:51.671186 +0000 UTC", permalink: "https://page.example.com/digitraffic-maintenance/1" }] : [{ title: "t", createdAt: "2024-02-20 08:36:51.671186 +0000 UTC", permalink: "https://page.example.com/issues/1" }], systems };
      const w = world(S, { checks, pages: { "https://page.example.com/index.json": page } });
      S.world.time = Date.parse("2024-02-20T10:00:00Z");
      Object.assign(S.world.process.env, { SECRET_ID: "s", CHECK_TIMEOUT_SECONDS: "10", INTERVAL_MINUTES: "2", C_STATE_PAGE_URL: "https://page.example.com", GITHUB_OWNER: "own", GITHUB_REPO: "rep", GITHUB_BRANCH: "main", GITHUB_UPDATE_MAINTENANCE_WORKFLOW_FILE: "m.yml" });
      const { handler } = S.load(P + "lambda/check-component-states/lambda-check-component-states.ts");
      const r = await S.settle(() => handler());
      if (r.error) S.fail("the states are compared");
      S.assert(w.changes.length === 0 && !w.started, "nothing is changed");
      if (!expected.length) { S.assert(!w.said, "nothing is said when all is alike"); S.reach("alike"); return; }
      S.assert(w.said?.length === 1, "the differences are told once");
      S.assert(typeof w.said[0] === "string" && w.said[0].split("\n").sort().join("\n") === expected.sort().join("\n"), "exactly the differences are told");
      if (comps.length === 2 && a[0].split("/")[1] === b[0].split("/")[1] && a[0] !== b[0]) S.reach("two applications");
    },
  },
  breaks: {
    bounds: "a break starting at any time within three minutes, among other notices; checks on, off or refusing to come on; any request failing; then the break's end",
    reach: ["begins", "already on", "not yet", "ends", "left off", "interrupted", "unreadable"],
    budgetMs: 240000,
    run: async (S) => {
      const START = Date.parse("2024-02-20T08:36:51.671Z");
      const now = START + S.int("now", -180000, 180000);
      const notice = { title: "n", createdAt: "2024-02-19 08:36:51.671186 +0000 UTC", permalink: "https://page.example.com/issues/1" };
      const later = { title: "l", createdAt: "2024-02-21 08:36:51 +0000 UTC", permalink: "https://page.example.com/digitraffic-maintenance/2" };
      const brk = { title: "b", createdAt: "2024-02-20 08:36:51.671186 +0000 UTC", permalink: "https://page.example.com/digitraffic-maintenance/1" };
      const shape = S.choose("notices", ["break", "notice", "both"]);
      const issues = shape === "break" ? [brk] : shape === "notice" ? [notice, later] : [notice, later, brk];
      const initial = S.choose("checks", ["on", "off", "some off"]);
      const checks = ["a", "b"].map((id, i) => { const off = initial === "off" || (initial === "some off" && i); return { _id: id, label: "Road " + id, state: 1, enable: off ? "inactive" : "active", byAll: off && initial === "off" }; });
      if (initial === "some off" && S.bool("refuses")) checks[1].stuck = true;
      const w = world(S, { checks, pages: { "https://page.example.com/index.json": { baseURL: "https://page.example.com", pinnedIssues: issues, systems: [] } } });
      S.world.time = now;
      Object.assign(S.world.process.env, { SECRET_ID: "s", CHECK_TIMEOUT_SECONDS: "10", INTERVAL_MINUTES: "2", C_STATE_PAGE_URL: "https://page.example.com", GITHUB_OWNER: "own", GITHUB_REPO: "rep", GITHUB_BRANCH: "main", GITHUB_UPDATE_MAINTENANCE_WORKFLOW_FILE: "m.yml" });
      const { handler } = S.load(P + "lambda/handle-maintenance/lambda-handle-maintenance.ts");
      const active = shape !== "notice" && S.decide(START < now + 60000);
      const on = () => w.checks.filter((c) => c.enable === "active").length;
      const wasOn = on();
      w.failAt = S.choose("failing", [undefined, 0, 1, 2, 3, 4, 5]);
      const r = await S.settle(() => handler());
      const failed = w.failAt !== undefined && w.n > w.failAt;
      if (failed && w.failAt === 0) { S.reach("unreadable"); S.assert(r.error !== undefined && w.changes.length === 0 && !w.said && !w.started, "without the page nothing is changed"); }
      if (failed) {
        const k = w.calls[w.failAt];
        S.assert((r.error !== undefined) === (k.url !== SECRET.reportUrl), "a failure to change is a failure");
        S.reach("interrupted");
        w.failAt = undefined;
        const again = await S.settle(() => handler());
        if (again.error) S.fail("the next run succeeds");
      } else if (r.error) S.fail("the break is handled");
      w.failAt = undefined;
      if (active) {
        S.assert(on() === 0, "during a break every check is off");
        if (!failed) {
          const told = wasOn ? 1 : 0;
          S.assert((w.said ?? []).length === told && (w.started ?? []).length === told && w.changes.length === told, "its start is told once");
          if (told) {
            const s = w.started[0];
            S.assert(s.url === DISPATCH + "m.yml/dispatches" && s.headers.Authorization === "token PAT" && S.decide(S.eq(s.json, { ref: "refs/heads/main", inputs: { baseUrl: "https://page.example.com", permalink: brk.permalink } })), "and the page is told which break it is");
            S.assert(w.said[0].includes(String(wasOn)), "with the number of checks");
            S.reach("begins");
          } else S.reach("already on");
        }
        // the break ends
        w.pages["https://page.example.com/index.json"].pinnedIssues = [notice];
        const saidBefore = (w.said ?? []).length, startedBefore = (w.started ?? []).length;
        const end = await S.settle(() => handler());
        if (end.error) S.fail("the end is handled");
        const stuck = w.checks.filter((c) => c.stuck);
        S.assert(w.checks.every((c) => c.stuck || c.enable === "active") && (w.started ?? []).length === startedBefore, "after it every check is on");
        S.assert(w.said?.length === saidBefore + 1, "its end is told");
        if (stuck.some((c) => c.enable !== "active")) { S.assert(w.said.at(-1).includes('"Road b"') && !w.said.at(-1).includes('"Road a"'), "with those that did not come on"); S.reach("left off"); } else S.assert(!/Road/.test(w.said.at(-1)), "and nothing is said to be off");
        S.reach("ends");
        return;
      }
      S.assert(!w.started, "no break is begun");
      S.assert(w.checks.every((c) => c.stuck || c.enable === "active"), "without a break every check is on");
      if (wasOn === 2) { S.assert(!w.said && w.changes.length === 0, "and nothing is changed or told"); S.reach("not yet"); }
      else if (!failed) S.assert(w.said?.length === 1, "coming on is told");
      const left = w.checks.filter((c) => c.enable !== "active");
      if (left.length) S.assert(w.said?.at(-1).includes('"Road b"'), "with those that did not come on");
    },
  },
};
