import { quiet, LIB } from "./_util.js";
export const property = {
  id: "C03",
  title: "Database sessions: right endpoint, clean session, always closed",
  statement: "For every outcome of the caller's function and every database failure, a database session connects with the configured user, password and application name to the writer, or for read-only use to the reader, discards previous session state before the caller's function runs, returns exactly the function's result or rejects with its very error, and closes the connection pool exactly once after the function is done. A transactional session runs the function once inside one transaction. Null columns of every row become undefined exactly when that was asked for, and large integer, float and numeric columns arrive as numbers.",
  quantifier: { over: ["inputs", "fault_sequences"], text: "all environments, all outcomes of the session reset, the caller's function and the pool, all result rows over a small column set" },
  why_tests_cant: "Unit tests mock the database away or need a running PostgreSQL; none injects failures at every step.",
  anchors: {
    files: ["lib/digitraffic-common/src/database/database.ts"],
    mechanism: [{ name: "doInDatabase, inDatabase, inDatabaseReadonly, inTransaction, initDbConnection", where: "lib/digitraffic-common/src/database/database.ts" }],
    observe_at: "calls of the database driver and the returned promise",
  },
  assumptions: ["the database driver is a stand-in that records calls and fails where the harness decides"],
};
// a stand-in for the driver; events are recorded in order
function driver(S, plan = {}) {
  const log = quiet(S);
  const d = { events: [], parsers: {}, uris: [], init: [], log };
  const types = { builtins: { INT8: 20, FLOAT8: 701, NUMERIC: 1700, INT4: 23 }, setTypeParser: (k, f) => { d.parsers[k] = f; } };
  const pgp = (init) => {
    d.init.push(init);
    const make = (uri) => {
      d.uris.push(uri);
      d.events.push("connect");
      const db = S.mock({
        none: async (q) => { d.events.push("none " + q); if (plan.reset === "fail") throw plan.resetError; },
        tx: async (f) => { d.events.push("begin"); const t = S.mock({ inTx: true }, "tx"); try { const r = await f(t); d.events.push("commit"); return r; } catch (e) { d.events.push("rollback"); throw e; } },
        $pool: S.mock({ end: async () => { d.events.push("end"); } }, "pool"),
      }, "db");
      d.db = db;
      return db;
    };
    make.pg = { types };
    return make;
  };
  S.stub("pg-promise", pgp);
  return d;
}
const setEnv = (S, skip) => {
  const env = S.world.process.env;
  const vars = { DB_USER: S.str("user", [1, 2], "a-z"), DB_PASS: S.str("pass", [1, 2], "!-~"), DB_URI: "writer.host:5432/db", DB_RO_URI: "reader.host:5432/db" };
  for (const k of Object.keys(vars)) if (k !== skip) env[k] = vars[k];
  return vars;
};
export const harnesses = {
  session: {
    bounds: "writer, reader and transaction sessions; reset and function succeed or fail (errors, texts, undefined); symbolic credentials; application name set or not",
    reach: ["ok", "reset failed", "function failed"],
    async run(S) {
      const plan = { reset: S.choose("reset", ["ok", "fail"]), resetError: new Error("reset failed") };
      const d = driver(S, plan);
      const vars = setEnv(S);
      const app = S.choose("app", [undefined, "my-app"]);
      if (app) S.world.process.env.DB_APPLICATION = app;
      const { inDatabase, inDatabaseReadonly, inTransaction } = S.load(LIB + "database/database.js");
      const kind = S.choose("kind", ["rw", "ro", "tx"]);
      const outcome = S.choose("outcome", ["value", "undefined", "error", "text", "rejects later"]);
      const failure = outcome === "text" ? "a text" : new Error("function failed");
      const result = { rows: S.int("n", 0, 1000) };
      let given;
      const fn = async (db) => {
        d.events.push("fn");
        given = db;
        if (outcome === "rejects later") { await Promise.resolve(); await Promise.resolve(); throw failure; }
        if (outcome === "error" || outcome === "text") throw failure;
        return outcome === "value" ? result : undefined;
      };
      const r = await S.settle(() => (kind === "rw" ? inDatabase : kind === "ro" ? inDatabaseReadonly : inTransaction)(fn));
      const ev = d.events;
      S.assert(d.uris.length === 1, "one connection per session");
      S.assert(S.eq(d.uris[0], `postgresql://${vars.DB_USER}:${vars.DB_PASS}@${kind === "ro" ? "reader" : "writer"}.host:5432/db?application_name=${app ?? "unknown-cdk-application"}`), "connects with the configured credentials to the right endpoint");
      S.assert(ev.filter((e) => e === "end").length === 1 && ev[ev.length - 1] === "end", "the pool is closed exactly once, last");
      if (plan.reset === "fail") {
        S.reach("reset failed");
        S.assert("error" in r && r.error === plan.resetError, "a failed reset is reported");
        S.assert(!ev.includes("fn"), "the function does not run in a session that was not reset");
        return;
      }
      S.assert(ev[0] === "connect" && ev[1] === "none DISCARD ALL", "the session is reset first");
      S.assert(ev.filter((e) => e === "fn").length === 1, "the function runs once");
      const bad = outcome !== "value" && outcome !== "undefined";
      S.assert(S.eq(ev.slice(2), kind === "tx" ? ["begin", "fn", bad ? "rollback" : "commit", "end"] : ["fn", "end"]), "the function runs inside the session");
      S.assert(kind === "tx" ? given.inTx === true : given === d.db, "the function gets the session");
      if (bad) { S.reach("function failed"); S.assert("error" in r && r.error === failure, "the function's error is passed on"); S.assert(d.log.some((l) => l[0] === "error"), "the error is logged"); }
      else { S.reach("ok"); S.assert(!("error" in r) && r.value === (outcome === "value" ? result : undefined), "the function's result is returned"); }
    },
  },
  environment: {
    bounds: "one of the four variables missing, or all set",
    reach: ["missing", "not needed"],
    async run(S) {
      const skip = S.choose("skip", ["DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"]);
      const d = driver(S);
      setEnv(S, skip);
      const { inDatabase, inDatabaseReadonly } = S.load(LIB + "database/database.js");
      const ro = S.choose("ro", [false, true]);
      let ran = false;
      const r = await S.settle(() => (ro ? inDatabaseReadonly : inDatabase)(async () => { ran = true; return 1; }));
      const needed = skip === "DB_USER" || skip === "DB_PASS" || skip === (ro ? "DB_RO_URI" : "DB_URI");
      if (needed) { S.reach("missing"); S.assert("error" in r && !ran && d.uris.length === 0, "no session without its settings"); }
      else { S.reach("not needed"); S.assert(r.value === 1 && d.uris.length === 1, "the other endpoint's setting is not needed"); }
    },
  },
  rows: {
    bounds: "0..3 rows with 3 columns, each null, undefined, 0, false, empty or symbolic; conversion on, off or default; writer, reader and transaction",
    reach: ["converted", "kept"],
    async run(S) {
      const d = driver(S);
      setEnv(S);
      const { inDatabase, inDatabaseReadonly, inTransaction } = S.load(LIB + "database/database.js");
      const kind = S.choose("kind", ["rw", "ro", "tx"]);
      const conv = S.choose("conv", [undefined, false, true]);
      await (kind === "rw" ? inDatabase : kind === "ro" ? inDatabaseReadonly : inTransaction)(async () => 1, conv);
      const n = S.choose("rows", [0, 1, 2]);
      const vals = [null, undefined, 0, false, "", S.str("s", 1), S.int("i", -5, 5)];
      const rows = [], before = [];
      for (let i = 0; i < n; i++) {
        const row = {};
        for (const c of i === 0 ? ["a", "b_c"] : ["a"]) row[c] = S.choose(`v${i}${c}`, vals);
        rows.push(row); before.push({ ...row });
      }
      const init = d.init[0];
      if (init && init.receive) { init.receive({ data: rows, ctx: {}, result: undefined }); if (n === 0) init.receive({ data: undefined }); }
      if (conv) S.reach("converted"); else S.reach("kept");
      if (conv) S.assert(!!init && typeof init.receive === "function", "results are converted on request");
      for (let i = 0; i < n; i++) {
        S.assert(S.eq(Object.keys(rows[i]), Object.keys(before[i])), "no column appears or disappears");
        for (const c of Object.keys(before[i])) {
          const want = conv && before[i][c] === null ? undefined : before[i][c];
          S.assert(want === undefined || want === null ? rows[i][c] === want : S.eq(rows[i][c], want), "only null columns change, and only on request");
        }
      }
    },
  },
  numbers: {
    bounds: "texts of integers of up to 15 digits and of decimals with two and nine digits after the point, and nine extreme ones",
    reach: ["int", "decimal"],
    async run(S) {
      const d = driver(S);
      setEnv(S);
      const { inDatabase } = S.load(LIB + "database/database.js");
      await inDatabase(async () => 1, S.choose("conv", [false, true]));
      const p = S.choose("type", [20, 701, 1700]);
      S.assert(typeof d.parsers[p] === "function", "the type is parsed");
      const i = S.int("i", -999999999999999, 999999999999999);
      S.reach("int");
      S.assert(S.eq(d.parsers[p](String(i)), i), "integers arrive as numbers");
      if (p !== 20) {
        S.reach("decimal");
        const a = S.int("a", 0, 999999), b = S.int("b", 0, 9), c = S.int("c", 0, 9);
        S.assert(S.eq(d.parsers[p](`${a}.${b}${c}`), (a * 100 + b * 10 + c) / 100), "decimals arrive as numbers");
        // many decimals, small and large numbers: exactly what the text says
        const long = `${S.int("w", 0, 99)}.${S.int("f", 100000000, 999999999)}`;
        S.assert(S.eq(d.parsers[p](long), Number(long)), "no decimal is lost");
        const t = S.choose("text", ["-0.5", "1e-7", "6.02214076e+23", "-1.7976931348623157e308", "0.000000000000123", "123456789012345678.25", "NaN", "3.1415926535897931", "10.0000000000000000"]);
        S.assert(Object.is(d.parsers[p](t), Number(t)), "every number is what the text says");
      }
    },
  },
};
