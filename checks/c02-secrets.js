import { quiet, LIB } from "./_util.js";
export const property = {
  id: "C02",
  title: "Secrets: bounded caching, prefix selection, expected keys, credentials",
  statement: "For every sequence of reads at any times, a secret holder never serves a secret fetched longer ago than its time to live, fetches again only when that time is over, rejects when the fetch fails or returns nothing, and with a prefix returns exactly the non-empty entries under that prefix with the prefix removed. A read rejects whenever an expected key is missing, and the database credential holders put exactly the user, password, host and read-only host of the secret into the environment. A value looked up from environment or secret comes from the environment when it is set there, otherwise from the secret, otherwise the lookup rejects.",
  quantifier: { over: ["inputs", "histories", "fault_sequences"], text: "all secret contents over a small key set, all read times, all fetch failures" },
  why_tests_cant: "Cache expiry depends on arbitrary read times and the selection on arbitrary secret contents; tests use one secret and one sleep.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/runtime/secrets/secret-holder.ts", "lib/digitraffic-common/src/aws/runtime/secrets/secret.ts", "lib/digitraffic-common/src/aws/runtime/secrets/proxy-holder.ts", "lib/digitraffic-common/src/aws/runtime/secrets/rds-holder.ts", "lib/digitraffic-common/src/aws/runtime/secrets/dbsecret.ts"],
    mechanism: [{ name: "SecretHolder.get / getSecret", where: "lib/digitraffic-common/src/aws/runtime/secrets/secret-holder.ts" }, { name: "getSecret, getFromEnvOrSecret", where: "lib/digitraffic-common/src/aws/runtime/secrets/secret.ts" }, { name: "setCredentials", where: "lib/digitraffic-common/src/aws/runtime/secrets/proxy-holder.ts" }],
    observe_at: "returned secrets, requests to the secret store, environment variables",
  },
  assumptions: ["the secret store is a stand-in that returns or fails as the harness decides"],
};
const DIR = LIB + "aws/runtime/secrets/";
// a secret store whose answers the harness chooses
function store(S, answer) {
  quiet(S);
  const st = { calls: [], options: [] };
  S.stub("@aws-sdk/client-secrets-manager", {
    SecretsManager: class {
      constructor(o) { st.options.push(o); }
      async getSecretValue(q) { st.calls.push(q); return answer(st.calls.length, q); }
    },
  });
  S.world.process.env.AWS_REGION = "eu-west-1";
  return st;
}
export const harnesses = {
  cache: {
    bounds: "3 reads (thorough: 5) with symbolic pauses 0..20 minutes between them, every fetch succeeds, fails or is empty, default and configured ttl of 1..900 s",
    reach: ["cached", "refetched", "failed", "empty"],
    async run(S) {
      const outcomes = [];
      const st = store(S, (n) => {
        const o = S.choose("fetch" + n, ["ok", "fail", "empty"]);
        outcomes.push(o);
        if (o === "fail") throw new Error("store down");
        return o === "empty" ? {} : { SecretString: JSON.stringify({ a: "value" + n }) };
      });
      const { SecretHolder } = S.load(DIR + "secret-holder.js");
      const custom = S.choose("config", [false, true]);
      const ttl = custom ? S.int("ttl", 1, 900) : 300;
      const h = custom ? new SecretHolder("my-secret", "", [], { ttl }) : new SecretHolder("my-secret");
      let fetched = undefined; // time of the last successful fetch
      let version = 0;
      const n = S.thorough ? 5 : 3;
      for (let i = 0; i < n; i++) {
        if (i > 0) S.world.time = S.world.time + S.int("pause" + i, 0, 1200000);
        const before = st.calls.length;
        const r = await S.settle(() => h.get());
        const k = st.calls.length - before;
        S.assert(k <= 1, "at most one fetch per read");
        const o = k === 1 ? outcomes[outcomes.length - 1] : undefined;
        if (o === "ok") { fetched = S.world.time; version = st.calls.length; S.reach("refetched"); }
        if (o === "fail" || o === "empty") { S.reach(o === "fail" ? "failed" : "empty"); S.assert(!!r.error, "a failed or empty fetch is reported"); }
        else {
          S.assert(!r.error, "a read succeeds when the secret is known");
          S.assert(r.value.a === "value" + version, "the latest fetched secret is returned");
          S.assert(S.world.time - fetched <= ttl * 1000, "no secret older than the time to live is served");
        }
        if (k === 1 && i > 0 && fetched !== undefined && o !== "ok") S.assert(S.world.time - fetched >= ttl * 1000, "no refetch before the time to live is over");
        if (k === 0) S.reach("cached");
        if (i === 0) S.assert(k === 1, "the first read fetches");
      }
      for (const q of st.calls) S.assert(q.SecretId === "my-secret", "the configured secret is requested");
    },
  },
  refetch: {
    bounds: "two reads, symbolic pause 0..20 minutes, symbolic ttl",
    reach: ["cached", "refetched"],
    async run(S) {
      const st = store(S, (n) => ({ SecretString: JSON.stringify({ a: "value" + n }) }));
      const { SecretHolder } = S.load(DIR + "secret-holder.js");
      const ttl = S.int("ttl", 1, 900);
      const h = new SecretHolder("s", "", [], { ttl });
      await h.get();
      const pause = S.int("pause", 0, 1200000);
      S.world.time = S.world.time + pause;
      const v = await h.get();
      if (st.calls.length === 1) { S.reach("cached"); S.assert(v.a === "value1", "cached value"); S.assert(pause <= ttl * 1000, "no secret older than the time to live is served"); }
      else { S.reach("refetched"); S.assert(v.a === "value2" && st.calls.length === 2, "fresh value"); S.assert(pause >= ttl * 1000, "no refetch before the time to live is over"); }
    },
  },
  prefix: {
    bounds: "up to 5 entries with prefixed, similarly prefixed and plain keys, each absent, empty or a symbolic value; prefix empty or not; any subset of expected keys",
    reach: ["missing", "found", "unprefixed"],
    async run(S) {
      const keys = ["my.user", "my.pass.word", "mypass", "other.user", "user"];
      const secret = {};
      for (let i = 0; i < keys.length; i++) {
        const k = S.choose("has" + i, ["no", "empty", "value"]);
        if (k === "empty") secret[keys[i]] = "";
        if (k === "value") secret[keys[i]] = S.str("v" + i, [1, S.thorough ? 3 : 1], " -~");
      }
      store(S, () => ({ SecretString: JSON.stringify(secret) }));
      const prefix = S.choose("prefix", ["", "my"]);
      const expected = ["user", "pass.word"].filter((k, i) => S.choose("expect" + i, [true, false]));
      const want = {};
      if (prefix === "") Object.assign(want, secret);
      else for (const k of Object.keys(secret)) if (k.startsWith("my.") && !(secret[k] === "")) want[k.substring(3)] = secret[k];
      const via = S.choose("via", ["holder", "function", "create"]);
      const { SecretHolder } = S.load(DIR + "secret-holder.js");
      const { getSecret } = S.load(DIR + "secret.js");
      S.world.process.env.SECRET_ID = "sid";
      const r = await S.settle(() => via === "function" ? getSecret("sid", prefix) : via === "create" ? SecretHolder.create(prefix, expected).get() : new SecretHolder("sid", prefix, expected).get());
      const missing = via !== "function" && expected.some((k) => !(k in want));
      if (missing) { S.reach("missing"); S.assert(!!r.error, "a missing expected key is reported"); }
      else {
        S.assert(!r.error, "no error when the expected keys are there");
        S.reach(prefix ? "found" : "unprefixed");
        S.assert(Object.keys(r.value).length === Object.keys(want).length, "exactly the entries under the prefix");
        for (const k of Object.keys(want)) S.assert(S.eq(r.value[k], want[k]), "the value under the prefix is returned unchanged");
      }
    },
  },
  credentials: {
    bounds: "RDS and proxy secrets with any subset of their 4 keys and symbolic values",
    reach: ["proxy set", "rds set", "incomplete"],
    async run(S) {
      const kind = S.choose("kind", ["proxy", "rds"]);
      const names = kind === "proxy" ? ["username", "password", "proxy_host", "proxy_ro_host"] : ["username", "password", "host", "ro_host"];
      const secret = {};
      for (const n of names) if (S.choose("has " + n, [true, false])) secret[n] = S.str(n, 2, " -~");
      secret.other = "x"; secret.host2 = "y";
      if (S.choose("both", [false, true])) { secret[kind === "proxy" ? "host" : "proxy_host"] = "wrong1"; secret[kind === "proxy" ? "ro_host" : "proxy_ro_host"] = "wrong2"; }
      const st = store(S, () => ({ SecretString: JSON.stringify(secret) }));
      const { ProxyHolder } = S.load(DIR + "proxy-holder.js");
      const { RdsHolder } = S.load(DIR + "rds-holder.js");
      const env = S.world.process.env;
      env.SECRET_ID = "db-secret";
      const r = await S.settle(() => (kind === "proxy" ? ProxyHolder : RdsHolder).create().setCredentials());
      if (names.some((n) => !(n in secret))) {
        S.reach("incomplete");
        S.assert(!!r.error, "an incomplete secret is reported");
        S.assert(env.DB_USER === undefined && env.DB_URI === undefined, "no credentials are set from an incomplete secret");
      } else {
        S.reach(kind + " set");
        S.assert(!r.error, "a complete secret is accepted");
        S.assert(S.eq(env.DB_USER, secret[names[0]]), "user");
        S.assert(S.eq(env.DB_PASS, secret[names[1]]), "password");
        S.assert(S.eq(env.DB_URI, secret[names[2]]), "host");
        S.assert(S.eq(env.DB_RO_URI, secret[names[3]]), "read-only host");
      }
      S.assert(st.calls.every((q) => q.SecretId === "db-secret"), "the secret named in the environment is read");
    },
  },
  lookup: {
    bounds: "key set or not in environment and in the secret, symbolic values",
    reach: ["env", "secret", "neither"],
    async run(S) {
      const inEnv = S.choose("env", ["no", "yes"]), inSecret = S.choose("secret", ["no", "yes"]);
      const ev = S.str("ev", [1, 2]), sv = S.str("sv", [1, 2]);
      const secret = { other: "o" };
      if (inSecret === "yes") secret.KEY = sv;
      const st = store(S, () => ({ SecretString: JSON.stringify(secret) }));
      if (inEnv === "yes") S.world.process.env.KEY = ev;
      const override = S.choose("region", [undefined, "us-east-1"]);
      if (override) S.world.process.env.SECRET_OVERRIDE_AWS_REGION = override;
      const { getFromEnvOrSecret } = S.load(DIR + "secret.js");
      const r = await S.settle(() => getFromEnvOrSecret("KEY", "sid"));
      if (inEnv === "yes") { S.reach("env"); S.assert(!r.error && S.eq(r.value, ev), "environment wins"); S.assert(st.calls.length === 0, "no secret read when the environment has the value"); }
      else if (inSecret === "yes") { S.reach("secret"); S.assert(!r.error && S.eq(r.value, sv), "secret value"); S.assert(st.options[0].region === (override ?? "eu-west-1"), "region of the secret store"); }
      else { S.reach("neither"); S.assert(!!r.error, "unknown values are reported"); }
    },
  },
};
