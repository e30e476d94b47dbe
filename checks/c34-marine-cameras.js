import { quiet, connections, LIB } from "./_util.js";
import { database, sessions } from "./_sql.js";
const P = "marine/marinecam/src/";
export const property = {
  id: "C34",
  title: "Marine cameras: pictures reach only those allowed, each the camera's newest",
  statement: "A request with a user name and password is allowed exactly when both log in and the asked group is one of the user's groups or the list of cameras; without credentials it is refused, and every attempt to log in gets an answer. The list of cameras holds exactly the cameras of the caller's groups. An update logs in once with the given name and password, takes for each camera of the group a picture of its own stream moved to the present, closes each stream it opened, stores the picture bytes under the camera's name, and records the time of exactly the cameras whose picture was stored; trouble with one camera does not touch the others, and no failure makes the update itself fail.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "any credentials of up to 7 characters, any groups and paths, all outcomes of logging in; up to 3 cameras (7 for the limit), any single command to the camera server failing in 3 ways, any store or record failing" },
  why_tests_cant: "The tests read and write the camera table only; there is no test of the authorizer, of the session with the camera server, or of any failure.",
  anchors: {
    files: [P + "lambda/authorizer/authorizer.ts", P + "lambda/authorizer/cognito_backend.ts", P + "lambda/list-cameras/list-cameras.ts", P + "service/image-fetcher.ts", P + "service/session.ts", P + "service/command.ts", P + "service/image-store.ts", P + "db/metadata.ts"],
    mechanism: [{ name: "handler, checkAuthorization", where: P + "lambda/authorizer/authorizer.ts" }, { name: "updateAllImages, getImageFromCamera", where: P + "service/image-fetcher.ts" }, { name: "sendMessage, getFrameFromStream", where: P + "service/session.ts" }],
    observe_at: "policies, lists, commands and video requests to a stand-in of the camera server, stored objects, rows of the camera table",
  },
  assumptions: ["the camera server answers as its protocol says", "the gateway gives the groups as it renders lists: [a, b]"],
};
const NOW = Date.UTC(2024, 5, 1, 8);
const settle = (S, p) => S.settle(p);
function cognito(S, outcome, groups, seen) {
  class Pool { constructor(d) { seen.pool = d; } }
  class Details { constructor(d) { this.d = d; } }
  const session = S.mock({ getAccessToken: () => S.mock({ payload: groups === undefined ? {} : { "cognito:groups": groups } }, "token") }, "session");
  class User {
    constructor(d) { this.d = d; }
    authenticateUser(details, cb) {
      seen.logins.push({ user: this.d.Username, name: details.d.Username, password: details.d.Password });
      if (outcome === "throws") throw new Error("no network");
      if (outcome === "ok") cb.onSuccess(session);
      else if (outcome === "refused") cb.onFailure({ code: "NotAuthorizedException" });
      else cb.newPasswordRequired({ email: "e" });
    }
    completeNewPasswordChallenge(password, attributes, cb) { seen.changed = password; if (outcome === "new password") cb.onSuccess(session); else cb.onFailure({ code: "InvalidPassword" }); }
  }
  S.stub("amazon-cognito-identity-js", { CognitoUserPool: Pool, AuthenticationDetails: Details, CognitoUser: User });
}
const attr = (x, n) => { const m = new RegExp(`<Param Name="${n}" Value="([^"<>]*)"/>`).exec(x); return m ? m[1].replaceAll("&lt;", "<").replaceAll("&gt;", ">").replaceAll("&quot;", '"').replaceAll("&apos;", "'").replaceAll("&amp;", "&") : undefined; };
const wellFormed = (x) => { const rest = x.replace(/<\?[^<>]*\?>/g, "").replace(/<(\/?)([A-Za-z]+)((?:\s+[A-Za-z:]+="[^"<>]*")*)\s*(\/?)>/g, " "); return !/[<>"]/.test(rest) && !/&(?!(amp|lt|gt|quot|apos);)/.test(x); };
export const harnesses = {
  permission: {
    bounds: "user names and passwords of 0..3 characters of the set ab:, separated by a colon or not; up to 2 groups of the user, asked group of any of 3; logging in works or not",
    reach: ["allowed", "denied", "metadata", "no credentials", "half credentials", "colon in password"],
    async run(S) {
      quiet(S);
      Object.assign(S.world.process.env, { USERPOOL_ID: "pool", POOLCLIENT_ID: "client" });
      const seen = { logins: [] };
      const outcome = S.choose("login", ["ok", "refused", "throws", "new password", "new password refused"]);
      const groups = S.choose("groups", [undefined, [], ["Saimaa"], ["Kemi", "Saimaa2"]]);
      cognito(S, outcome, groups, seen);
      const kind = S.choose("kind", ["none", "no headers", "empty", "no credentials", "given"]);
      const full = outcome === "ok" && groups?.length === 1;
      const text = kind === "given" ? (full ? S.str("credentials", [0, S.thorough ? 6 : 4], "ab:") : "a:b") : "";
      const headers = kind === "no headers" ? null : kind === "none" ? {} : { authorization: kind === "empty" ? "" : kind === "no credentials" ? "Basic" : "Basic " + Buffer.from(S.concrete(text)).toString("base64") };
      const group = S.choose("group", ["Saimaa", "Kemi", "metadata", "Saimaa2"]);
      const { handler } = S.load(P + "lambda/authorizer/authorizer.js");
      const r = await settle(S, () => handler({ headers, path: `/cameras/${group}/x.jpg`, methodArn: "arn:method" }));
      const creds = S.concrete(text), at = creds.indexOf(":");
      if (at < 1 || at === creds.length - 1) {
        S.reach(kind === "given" ? "half credentials" : "no credentials");
        S.assert(!!r.error && r.error.message === "Unauthorized" && !seen.logins.length, "without name and password a request is refused");
        return;
      }
      const name = creds.slice(0, at), password = creds.slice(at + 1);
      if (password.includes(":")) S.reach("colon in password");
      S.assert(!r.error, "the caller gets an answer");
      S.assert(seen.logins.length === 1 && seen.logins[0].user === name && seen.logins[0].name === name && seen.logins[0].password === password, "the given name and password log in");
      S.assert(seen.pool.UserPoolId === "pool" && seen.pool.ClientId === "client", "at the configured pool");
      const logged = outcome === "ok" || outcome === "new password";
      const allowed = logged && (group === "metadata" || (groups ?? []).includes(group));
      S.reach(allowed ? "allowed" : "denied");
      if (group === "metadata") S.reach("metadata");
      const st = r.value.policyDocument.Statement;
      S.assert(st.length === 1 && st[0].Resource === "arn:method" && st[0].Action === "execute-api:Invoke", "the answer is about the asked method");
      S.assert(st[0].Effect === (allowed ? "Allow" : "Deny"), "allowed exactly with a permitted group");
      const given = r.value.context.groups;
      S.assert(S.eq(given === undefined ? undefined : JSON.parse(given), logged ? groups : []), "the groups of the user go on");
    },
  },
  list: {
    bounds: "3 cameras of symbolic groups of one letter, 0..2 groups of the caller, or the list for everyone; the database failing or not",
    reach: ["no groups", "listed", "left out", "two groups", "everyone", "failed"],
    async run(S) {
      quiet(S); connections(S);
      const cams = [1, 2, 3].map((n) => ({ id: "c" + n, name: "Cam" + n, camera_group_id: S.str("group" + n, 1, "ABC"), last_updated: NOW + n, location: n }));
      const mine = S.choose("kind", [0, 1, 2, "all"]);
      const gs = mine === "all" ? ["Saimaa"] : Array.from({ length: mine }, (_, n) => S.str("mine" + n, 1, "ABC"));
      if (mine === "all") { cams[0].camera_group_id = "Saimaa"; cams[1].camera_group_id = "Other"; }
      const db = sessions(S, database(S, { camera: { cols: ["id", "name", "camera_group_id", "last_updated", "location"], unique: [["id"]], rows: cams } }, { fns: { st_x: (l) => l + 20, st_y: (l) => l + 60 } }));
      const failing = S.choose("failing", [false, true]);
      if (failing) db.failing = () => true;
      let r;
      if (mine === "all") {
        S.reach("everyone");
        S.stub("aws/types/lambda-response", { LambdaResponse: S.mock({ okJson: (x) => ({ status: 200, x }), internalError: () => ({ status: 500 }) }, "LambdaResponse") });
        const { handler } = S.load(P + "lambda/get-metadata/get-metadata.js");
        r = await settle(S, () => handler());
        S.assert(!r.error, "the handler answers");
        S.assert(r.value.status === (failing ? 500 : 200), "a failure is answered with 500");
        if (failing) { S.reach("failed"); return; }
        r = { value: r.value.x };
      } else {
        const { handler } = S.load(P + "lambda/list-cameras/list-cameras.js");
        r = await settle(S, () => handler({ groups: mine === 0 ? "" : mine === 1 ? `[${gs[0]}]` : `[${gs[0]}, ${gs[1]}]` }));
        if (failing && mine) { S.reach("failed"); S.assert(!!r.error, "no list without the database"); return; }
        S.assert(!r.error, "the handler answers");
      }
      if (mine === 0) { S.reach("no groups"); S.assert(r.value.length === 0, "without groups there are no cameras"); return; }
      if (mine === 2) S.reach("two groups");
      const want = cams.filter((c) => { const has = S.decide(S.or(...gs.map((g) => S.eq(g, c.camera_group_id)))); S.reach(has ? "listed" : "left out"); return has; });
      S.assert(S.eq(r.value, want.map((c) => ({ id: c.id, name: c.name, cameraGroupId: c.camera_group_id, lastUpdated: c.last_updated, latitude: c.location + 60, longitude: c.location + 20 }))), "exactly the cameras of the groups");
    },
  },
  pictures: {
    bounds: "1..3 cameras of the group (7 for the limit) and one of another; one command of any (of up to 17) failing as refused, as an error or not answered; no picture, or headers of any of 3 lengths; one store or record failing; names and passwords with characters special to XML",
    reach: ["all stored", "login failed", "command failed", "no picture", "store failed", "record failed", "many", "long header"],
    async run(S) {
      const log = quiet(S); connections(S);
      S.world.time = NOW;
      const fault = S.choose("fault", ["none", "command", "store", "record"]);
      const n = fault === "none" ? S.choose("n", [0, 1, 3, 7]) : 3;
      if (n === 7) S.reach("many");
      const password = S.choose("password", fault === "none" && n === 1 ? ["plain", 'a&b"<c>\'d', "&amp;"] : ["p&w"]);
      const header = S.choose("header", n === 1 ? [36, 50, 300] : [36]);
      if (header > 36) S.reach("long header");
      const ids = Array.from({ length: n }, (_, k) => "cam" + k);
      const empty = fault === "none" && n ? S.choose("empty", [undefined, ids[n - 1]]) : undefined;
      const how = fault === "command" ? S.choose("how", ["status", "error", "no answer"]) : undefined;
      const at = fault === "none" ? 0 : S.int("at", 1, fault === "command" ? 3 + 4 * n + 1 : n);
      const rows = [...ids.map((id) => ({ id, name: id, camera_group_id: "Saimaa", last_updated: 0 })), { id: "other", name: "o", camera_group_id: "Kemi", last_updated: 0 }];
      const db = sessions(S, database(S, { camera: { cols: ["id", "name", "camera_group_id", "last_updated"], unique: [["id"]], rows } }));
      let records = 0, failedRecord;
      db.failing = ({ kind, params }) => { if (fault !== "record" || kind !== "update") return false; const f = S.decide(S.eq(at, ++records)); if (f) failedRecord = params[1]; return f; };
      // the camera server
      const server = { count: 0, seq: [], open: new Map(), closed: [], videos: new Map(), logins: [], active: 0, most: 0, failed: undefined, connected: 0, gone: 0 };
      const bodies = [];
      const fails = (what) => { if (fault === "command" && !server.failed && S.decide(S.eq(at, server.count))) { server.failed = what; return true; } return false; };
      const reply = (statusCode, o) => S.mock({ statusCode, body: S.mock({ text: async () => { await null; return String(bodies.push(o) - 1); } }, "body") }, "response");
      const request = async (url, o) => {
        await null;
        S.assert(o.method === "POST" && o.headers.host === "host", "commands go to the configured host");
        server.count++;
        if (url.startsWith("http://cam/Video/")) {
          const id = url.slice("http://cam/Video/".length), v = server.videos.get(id);
          S.assert(!!v && server.open.has(id), "only open streams are read");
          if (fails({ name: "frame", camera: v.camera })) { if (how !== "no answer") return S.mock({ statusCode: 500, body: S.mock({ arrayBuffer: async () => { await null; throw new Error("aborted"); } }, "body") }, "response"); throw new Error("timeout"); }
          const none = v.camera === empty, data = Buffer.from("picture of " + v.camera + " at " + v.time);
          const b = Buffer.alloc(header + (none ? 0 : data.length));
          b.writeUInt32LE(none ? 0 : data.length, 28); b.writeUInt16LE(header, 32);
          if (!none) data.copy(b, header);
          return S.mock({ statusCode: 200, body: S.mock({ arrayBuffer: async () => { await null; return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); } }, "body") }, "response");
        }
        S.assert(url === "http://cam/Communication", "commands go to the configured address");
        const x = S.concrete(o.body);
        S.assert(wellFormed(x), "commands are well formed");
        const name = /<Name>([A-Za-z]+)<\/Name>/.exec(x)[1], seq = Number(/SequenceId="(\d+)"/.exec(x)[1]);
        S.assert(!server.seq.includes(seq), "commands are numbered apart");
        server.seq.push(seq);
        const conn = /<ConnectionId>([^<]*)<\/ConnectionId>/.exec(x)?.[1];
        S.assert(name === "Connect" ? conn === undefined : conn === "conn1", "commands use the connection");
        const camera = name === "RequestStream" ? attr(x, "CameraId") : server.videos.get(attr(x, "VideoId"))?.camera;
        if (fails({ name, camera })) { if (how === "status") return reply(500, {}); if (how === "no answer") throw new Error("timeout"); return reply(200, { Communication: { Command: [{ Name: [name], Result: ["Error"], ErrorCode: ["7"] }] } }); }
        const out = (Param) => reply(200, { Communication: { Command: [{ Name: [name], Result: ["OK"], OutputParams: [{ Param }] }] } });
        if (name === "Connect") { server.connected++; return out([{ $: { Name: "ConnectionId", Value: "conn1" } }]); }
        if (name === "Login") { server.logins.push([attr(x, "Username"), attr(x, "Password")]); return out([]); }
        if (name === "RequestStream") {
          S.assert(server.logins.length === 1, "streams are asked for after logging in");
          const id = "v" + server.videos.size;
          server.videos.set(id, { camera }); server.open.set(id, camera);
          server.most = Math.max(server.most, server.open.size);
          return out([{ $: { Name: "Other", Value: "x" } }, { $: { Name: "VideoId", Value: id } }]);
        }
        if (name === "ChangeStream") { const v = server.videos.get(attr(x, "VideoId")); S.assert(!!v, "a known stream is moved"); v.time = attr(x, "Time") ?? v.time; return out([]); }
        if (name === "CloseStream") { S.assert(server.open.delete(attr(x, "VideoId")), "an open stream is closed"); return out([]); }
        if (name === "Disconnect") { server.gone++; S.assert(server.open.size === 0 || server.failed !== undefined, "no stream is open at the end"); return out([]); }
        S.gap("command " + name);
      };
      S.stub("undici", { request, interceptors: S.mock({ retry: () => "retry" }, "interceptors"), Agent: class { constructor(o) { server.agent = o; } compose() { return "dispatcher"; } } });
      S.stub("xml2js", { parseString: (text, cb) => cb(null, bodies[Number(text)]) });
      S.stub("p-limit", { __esModule: true, default: (limit) => { let busy = 0; const waiting = []; const next = () => { busy--; waiting.shift()?.(); }; return async (f) => { if (busy >= limit) await new Promise((go) => waiting.push(go)); busy++; try { return await f(); } finally { next(); } }; } });
      const stored = []; let stores = 0, failedStore;
      class Put { constructor(i) { this.i = i; } }
      S.stub("@aws-sdk/client-s3", { PutObjectCommand: Put, S3Client: class { async send(c) { await null; if (fault === "store" && S.decide(S.eq(at, ++stores))) { failedStore = c.i.Key; throw new Error("no room"); } stored.push(c.i); } } });
      S.stub("aws/runtime/secrets/secret-holder", { SecretHolder: { create: () => S.mock({ get: async () => { await null; return { url: "http://cam", username: "us&er", password, certificate: "Y2VydA==", ca: "Y2E=", hostname: "host" }; } }, "secretHolder") } });
      Object.assign(S.world.process.env, { BUCKET_NAME: "bucket" });
      const { handler } = S.load(P + "lambda/update-images/update-images.js");
      const r = await settle(S, () => handler());
      S.assert(!r.error, "the update does not fail");
      S.assert(server.agent.connect.cert === "cert" && server.agent.connect.ca === "ca", "with the given certificate");
      const f = server.failed, fatal = f && (f.name === "Connect" || f.name === "Login");
      if (fatal) { S.reach("login failed"); S.assert(stored.length === 0 && rows.every((x) => x.last_updated === 0) && log.some(([l]) => l === "error"), "nothing happens without logging in, and it is logged"); return; }
      S.assert(server.logins.length === 1 && server.logins[0][0] === "us&er" && server.logins[0][1] === password, "with the given name and password");
      if (f?.name !== "Disconnect") S.assert(server.gone === 1, "the session is ended");
      S.assert(server.most <= 5 || n <= 5, "at most 5 streams at a time");
      // the streams that were opened are closed, unless closing itself failed
      S.assert([...server.open.values()].every((c) => f && f.name === "CloseStream" && f.camera === c), "opened streams are closed");
      for (const id of ids) {
        const broken = (f && f.camera === id && f.name !== "CloseStream") || id === empty;
        const mine = stored.filter((o) => o.Key === `images/Saimaa/${id}.jpg`);
        const shut = f && f.camera === id && f.name === "CloseStream"; // whether the picture is used is open
        const spoilt = failedStore === `images/Saimaa/${id}.jpg`;
        if (id === empty) S.reach("no picture");
        if (f?.camera === id) S.reach("command failed");
        if (spoilt) S.reach("store failed");
        if (!shut) S.assert(mine.length === (broken || spoilt ? 0 : 1), "each picture is stored once");
        S.assert(mine.every((o) => o.Bucket === "bucket" && o.ContentType === "image/jpeg" && Buffer.from(o.Body).toString() === `picture of ${id} at ${NOW}`), "the picture is the camera's at present");
        const row = rows.find((x) => x.id === id), time = row.last_updated === 0 ? 0 : row.last_updated.getTime();
        if (failedRecord === id) S.reach("record failed");
        if (f?.name === "Disconnect") continue;
        S.assert(time === (mine.length && failedRecord !== id ? NOW : 0), "exactly the cameras with a stored picture are recorded");
      }
      S.assert(stored.length <= n && rows[n].last_updated === 0, "no other camera is touched");
      if (fault === "none" && !empty) S.reach("all stored");
    },
  },
};
