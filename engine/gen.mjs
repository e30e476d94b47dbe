// Writes properties.jsonl and MANIFEST.json from the metadata in checks/*.js
// and checks/not-applicable.json.
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { PlainRunner } from "./explore.mjs";
const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const dir = path.join(ROOT, "checks");
const props = [], checks = [];
const oracles = JSON.parse(fs.readFileSync(path.join(dir, "oracles.json"), "utf8"));
const sections = [];
for (const f of fs.readdirSync(dir).filter((x) => /^c\d+-.*\.js$/.test(x)).sort()) {
  const p = new PlainRunner(path.join(dir, f), "", { tier: "quick" });
  p.world.reset();
  p.loader.fresh({ world: p.world, cfg: {}, unknownPackage: (n) => p.stubPkg(n) }, {}, p.world.globals);
  const m = p.loader.load(path.join(dir, f));
  const q = m.property;
  const a = { ...q.anchors };
  if (typeof a.observe_at === "string") a.observe_at = [a.observe_at];
  if (q.title.length > 80) throw new Error(q.id + " title too long");
  for (const x of a.files) if (!fs.existsSync(path.join("/repo", x))) throw new Error(q.id + ": no file " + x);
  props.push({ id: q.id, title: q.title, statement: q.statement, quantifier: q.quantifier, why_tests_cant: q.why_tests_cant, anchors: a });
  const bounds = Object.entries(m.harnesses).map(([n, h]) => n + ": " + h.bounds).join("; ");
  if (!oracles[q.id]) throw new Error(q.id + ": no oracle in oracles.json");
  sections.push(`### ${q.id}. ${q.title}
*Code:* ${a.files.map((x) => "`" + x + "`").join(", ")}.
*Symbolic:* ${q.quantifier.text}.
*Oracle:* ${oracles[q.id]}
*Why not tests:* ${q.why_tests_cant}
*Harnesses and bounds:*
${Object.entries(m.harnesses).map(([n, h]) => `- ${n}: ${h.bounds}`).join("\n")}

*Assumes:* ${(q.assumptions ?? []).join("; ") || "nothing beyond the stand-ins"}.
`);
  checks.push({
    property: q.id,
    quick_cmd: `node engine/run.mjs ${q.id}`,
    thorough_cmd: `node engine/run.mjs ${q.id} --tier thorough`,
    technique: "symbolic execution of the real TypeScript with SMT-decided assertions (z3/cvc5), counterexamples replayed on the real code",
    level: "model_checking",
    level_note: `Every assertion is decided by the solver for all values within the bounds; nothing is claimed outside them. Bounds: ${bounds}. Assumes: ${(q.assumptions ?? []).join("; ") || "none beyond the stand-ins"}. Trusts the symbolic executor's models of JavaScript built-ins (cross-validated on every run against the plain code) and the SMT solver.`,
  });
}
// the part of DESIGN.md that describes the properties
const design = path.join(ROOT, "DESIGN.md"), [from, to] = ["<!-- properties: written by engine/gen.mjs -->", "<!-- end of properties -->"];
const text = fs.readFileSync(design, "utf8");
if (text.includes(from)) fs.writeFileSync(design, text.slice(0, text.indexOf(from)) + from + "\n" + sections.join("\n") + "\n" + text.slice(text.indexOf(to)));
const na = JSON.parse(fs.readFileSync(path.join(dir, "not-applicable.json"), "utf8"));
for (const n of na) props.push(n.properties);
fs.writeFileSync(path.join(ROOT, "properties.jsonl"), props.map((p) => JSON.stringify(p)).join("\n") + "\n");
fs.writeFileSync(path.join(ROOT, "MANIFEST.json"), JSON.stringify({
  version: 1,
  setup_cmd: "node engine/selftest.mjs",
  checks,
  not_applicable: na.map((n) => ({ property: n.properties.id, reason: n.reason })),
  notes: "One symbolic executor for TypeScript (engine/), one file of harnesses per property (checks/). No hooks in /repo. See DESIGN.md.",
}, null, 1) + "\n");
console.log(props.length, "properties");
