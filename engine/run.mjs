#!/usr/bin/env node
// node engine/run.mjs <property> [--tier quick|thorough] [--harness name]
// node engine/run.mjs --replay <file>
import fs from "node:fs";
import path from "node:path";
import { spawn } from "node:child_process";
import { fileURLToPath } from "node:url";

process.env.TZ = "UTC";
const HERE = path.dirname(fileURLToPath(import.meta.url));
const ROOT = path.dirname(HERE);
const argv = process.argv.slice(2);
const opt = (n, d) => { const i = argv.indexOf("--" + n); return i >= 0 ? argv[i + 1] : d; };
const tier = opt("tier", process.env.VERIF_TIER || "quick");
const seed = Number(process.env.VERIF_SEED || 1);
const checkFile = (id) => { const f = fs.readdirSync(path.join(ROOT, "checks")).find((x) => x.startsWith(id.toLowerCase() + "-") || x === id.toLowerCase() + ".js"); if (!f) throw new Error("no check file for " + id); return path.join(ROOT, "checks", f); };

async function harnessNames(file) {
  const { PlainRunner } = await import("./explore.mjs");
  const p = new PlainRunner(file, "", { tier });
  p.world.reset();
  p.loader.fresh({ world: p.world, cfg: {}, unknownPackage: (n) => p.stubPkg(n) }, {}, p.world.globals);
  const m = p.loader.load(file);
  return { property: m.property, harnesses: Object.entries(m.harnesses).filter(([, h]) => !h.only || h.only === tier).map(([n, h]) => ({ name: n, bounds: h.bounds, assumes: h.assumes })) };
}
function child(args, ms) {
  return new Promise((res) => {
    const p = spawn(process.execPath, ["--stack-size=4000", "--max-old-space-size=3500", fileURLToPath(import.meta.url), ...args], { stdio: ["ignore", "pipe", "pipe"], detached: true, env: { ...process.env, TZ: "UTC" } });
    let out = "", err = "";
    p.stdout.on("data", (d) => { out += d; });
    p.stderr.on("data", (d) => { err += d; if (process.env.VERIF_TRACE) process.stderr.write(d); });
    let killed = false;
    const t = setTimeout(() => { killed = true; try { process.kill(-p.pid, "SIGKILL"); } catch {} }, ms);
    p.on("close", (code) => { clearTimeout(t); try { process.kill(-p.pid, "SIGKILL"); } catch {} res({ code, out, err: err.slice(-2000), killed }); });
  });
}
// the last complete result in the output
const tagged = (out) => {
  for (const p of out.split("\u0001RESULT").slice(1).reverse()) try { return JSON.parse(p); } catch { /* cut off */ }
  return undefined;
};

async function main() {
  // a promise of the code under test that nobody waits for must not end the exploration
  if (argv.includes("--child") || argv.includes("--plain")) process.on("unhandledRejection", (e) => { if (process.env.VERIF_TRACE) console.error("unhandled rejection", e); });
  if (argv.includes("--child")) {
    const { Explorer } = await import("./explore.mjs");
    const ex = new Explorer(opt("file"), opt("harness"), { tier, budgetMs: Number(opt("budget")), onPartial: (r) => fs.writeSync(1, "\u0001RESULT" + JSON.stringify(r) + "\n") });
    const r = await ex.explore();
    fs.writeSync(1, "\u0001RESULT" + JSON.stringify(r) + "\n");
    process.exit(0);
  }
  if (argv.includes("--plain")) {
    const { PlainRunner } = await import("./explore.mjs");
    const rp = JSON.parse(fs.readFileSync(opt("plain"), "utf8"));
    const pr = new PlainRunner(path.join(ROOT, rp.file), rp.harness, { tier: rp.tier });
    const r = await pr.run(new Map(rp.model.map(([k, v]) => [k, decode(v)])));
    fs.writeSync(1, "\u0001RESULT" + JSON.stringify(r) + "\n");
    process.exit(0);
  }
  if (argv.includes("--replay")) {
    const f = opt("replay");
    const rp = JSON.parse(fs.readFileSync(f, "utf8"));
    const r = await replay(f, rp);
    console.log(JSON.stringify(r, null, 1));
    if (r.reproduced) { console.log(`VIOLATION property=${rp.property} replay=${f}`); process.exit(1); }
    process.exit(0);
  }
  await runProperty(argv[0]);
}
const encode = (v) => (typeof v === "number" && (!Number.isFinite(v) || Object.is(v, -0)) ? { n: Object.is(v, -0) ? "-0" : String(v) } : v);
const decode = (v) => (v && typeof v === "object" ? Number(v.n) : v);
async function replay(file, rp) {
  const r = await child(["--plain", file], rp.kind === "steps" ? 20000 : 40000);
  const x = tagged(r.out);
  if (rp.kind === "steps" || rp.kind === "stuck") {
    if (r.killed && !x) return { reproduced: true, how: "the real code did not finish within 20 s" };
    return { reproduced: !!x && (x.status === "stuck" || x.status === "violated" || x.status === "threw-in-repo"), how: x?.status };
  }
  if (!x) return { reproduced: false, how: "no result: " + r.err.slice(-300) };
  return { reproduced: x.status === "violated" || x.status === "threw-in-repo" || x.status === "threw-on-result", how: x.status + (x.label ? " " + x.label : "") + (x.why ? " " + x.why.slice(0, 300) : ""), label: x.label, info: x.info };
}
async function runProperty(id) {
  const t0 = Date.now();
  const file = checkFile(id);
  const { property, harnesses: all } = await harnessNames(file);
  const only = opt("harness");
  const hs = only ? all.filter((h) => h.name === only) : all;
  const slots = Number(opt("jobs", 8));
  const total = Number(opt("total", tier === "thorough" ? 720000 : 300000));
  const rounds = Math.ceil(hs.length / slots);
  const budget = Number(opt("budget", Math.floor(total / rounds)));
  const results = [];
  const queue = [...hs];
  await Promise.all(Array.from({ length: Math.min(slots, hs.length) }, async () => {
    for (;;) {
      const h = queue.shift();
      if (!h) return;
      const r = await child(["--child", "--file", file, "--harness", h.name, "--budget", String(budget), "--tier", tier], budget + 40000);
      const x = tagged(r.out);
      results.push(x ?? { harness: h.name, bounds: h.bounds, complete: false, failed: r.killed ? "stopped by the watchdog" : "exit " + r.code + " " + r.err.slice(-600), stats: { paths: 0, transitions: 0, obligations: 0, byConstruction: 0, discharged: 0, ends: {} }, solver: {}, flags: {}, violations: [], validated: 0, mismatches: [], samples: [], encoded: {}, reached: {}, missingReach: [] });
      if (process.env.VERIF_FAILFAST && x?.violations.length) queue.length = 0;
      if (process.env.VERIF_VERBOSE) console.error(brief(results[results.length - 1]));
    }
  }));
  results.sort((a, b) => hs.findIndex((h) => h.name === a.harness) - hs.findIndex((h) => h.name === b.harness));
  // replay what was found
  const known = fs.existsSync(path.join(ROOT, "known-findings.txt")) ? fs.readFileSync(path.join(ROOT, "known-findings.txt"), "utf8").split("\n").filter((l) => l.startsWith("{")).map((l) => JSON.parse(l)) : [];
  const EV = process.env.VERIF_EVIDENCE ?? path.join(ROOT, "evidence");
  const dir = path.join(EV, "replay");
  fs.mkdirSync(dir, { recursive: true });
  const violations = [], knownHit = [], unconfirmed = [];
  let k = 0;
  for (const r of results) for (const v of r.violations) {
    if (violations.filter((q) => q.harness === r.harness && q.label === v.label).length) continue;
    const rp = { property: id, file: path.relative(ROOT, file), harness: r.harness, tier, label: v.label, kind: v.kind, info: v.info, model: v.model.map(([n, x]) => [n, encode(x)]) };
    const f = path.join(dir, `${id}-${++k}.json`);
    fs.writeFileSync(f, JSON.stringify(rp, null, 1));
    const q = await replay(f, rp);
    const label = q.label ?? v.label;
    if (!q.reproduced) { unconfirmed.push({ harness: r.harness, label: v.label, how: q.how, replay: f }); continue; }
    const kf = known.find((e) => e.property === id && e.harness === r.harness && e.label === label && !e.fixed);
    if (kf) { if (!knownHit.includes(kf)) knownHit.push(kf); continue; }
    violations.push({ harness: r.harness, label, info: q.info ?? v.info, how: q.how, replay: f });
  }
  for (const e of knownHit) console.log(`KNOWN-FINDING: property=${id} ${e.what}`);
  for (const v of violations) { console.log(`harness ${v.harness}: ${v.label}${v.info ? " — " + v.info : ""}`); console.log(`VIOLATION property=${id} replay=${v.replay}`); }
  const sum = (f) => results.reduce((a, r) => a + (f(r) ?? 0), 0);
  const encoded = {};
  for (const r of results) for (const [n, c] of Object.entries(r.encoded)) encoded[n] = (encoded[n] ?? 0) + c;
  const ev = {
    property: id, tier, seed, level: "model_checking",
    coverage: {
      evidence_kind: "solver verdicts over all values within the stated bounds",
      states: sum((r) => r.stats.transitions) + results.length, transitions: sum((r) => r.stats.transitions),
      traces_validated_against_impl: sum((r) => r.validated),
      samples: results.flatMap((r) => r.samples.map((s) => ({ harness: r.harness, ...s }))).slice(0, 12),
      paths_explored: sum((r) => r.stats.paths), obligations: sum((r) => r.stats.obligations),
      obligations_discharged_by_solver: sum((r) => r.stats.discharged), obligations_true_by_construction: sum((r) => r.stats.byConstruction),
      solver_queries: sum((r) => r.solver.queries), solver_unsat: sum((r) => r.solver.unsat), solver_sat: sum((r) => r.solver.sat), solver_unknown: sum((r) => r.solver.unknown), solver_errors: sum((r) => r.solver.errors), solver_s: Math.round(sum((r) => r.solver.timeMs)) / 1000,
      functions_encoded: Object.keys(encoded).sort(),
      harnesses: results.map((r) => ({ name: r.harness, bounds: r.bounds, complete: r.complete, exhausted: r.exhausted, pending_paths: r.pending, failed: r.failed, path_ends: r.stats.ends, flags: r.flags, reached: r.reached, unreached_witnesses: r.missingReach, max_decisions: r.maxDepth, wall_s: (r.wallMs ?? 0) / 1000, unmodelled_packages_called: r.unknownPackages })),
      all_harnesses_complete: results.every((r) => r.complete),
      cross_validation_mismatches: results.flatMap((r) => r.mismatches.map((m) => ({ harness: r.harness, ...m }))).slice(0, 6),
      unconfirmed_counterexamples: unconfirmed,
    },
    assumptions: [...(property.assumptions ?? []), ...hs.flatMap((h) => h.assumes ?? [])],
    violations: violations.length,
    violations_found: violations.map((v) => ({ harness: v.harness, label: v.label, replay: v.replay, detail: String(v.info ?? "").slice(0, 400) })),
    wall_s: (Date.now() - t0) / 1000,
  };
  fs.mkdirSync(EV, { recursive: true });
  if (!only) fs.writeFileSync(path.join(EV, id + ".json"), JSON.stringify(ev, null, 1));
  const inc = results.filter((r) => !r.complete).map((r) => r.harness);
  console.log(`${id} ${tier}: ${results.length} harnesses, ${ev.coverage.paths_explored} paths, ${ev.coverage.obligations} obligations (${ev.coverage.obligations_discharged_by_solver} by solver), ${ev.coverage.solver_queries} queries in ${ev.coverage.solver_s} s, ${ev.coverage.traces_validated_against_impl} paths cross-validated, ${(ev.wall_s).toFixed(1)} s` + (inc.length ? `; incomplete: ${inc.join(", ")}` : "") + (unconfirmed.length ? `; ${unconfirmed.length} unconfirmed` : ""));
  process.exit(violations.length ? 1 : 0);
}
function brief(r) {
  const fl = Object.entries(r.flags).map(([k, n]) => `\n     ${n}x ${k}`).join("");
  return `  ${r.harness}: ${r.complete ? "complete" : "INCOMPLETE"}${r.failed ? " FAILED " + r.failed : ""} paths=${r.stats.paths} ends=${JSON.stringify(r.stats.ends)} obl=${r.stats.obligations}/${r.stats.discharged}/${r.stats.byConstruction} q=${r.solver.queries} solver=${Math.round(r.solver.timeMs)}ms wall=${r.wallMs}ms val=${r.validated} viol=${r.violations.length}${r.missingReach?.length ? " UNREACHED " + r.missingReach : ""} mem=${r.rssMb}${fl}${r.mismatches.length ? "\n     MISMATCH " + JSON.stringify(r.mismatches[0]).slice(0, 900) : ""}`;
}
main().catch((e) => { console.error(e); process.exit(argv.includes("--child") || argv.includes("--plain") ? 3 : 0); });
