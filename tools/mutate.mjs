// Mutation campaign: node tools/mutate.mjs C05 [--files a,b] [--fn regex] [--workers 4] [--max n] [--only i]
// Small syntactic changes to the anchored functions of a property; every one
// that the property's check lets pass is listed, to be looked at by hand.
import fs from "node:fs";
import path from "node:path";
import { spawn, execFileSync } from "node:child_process";
import { createRequire } from "node:module";
const ts = createRequire("/repo/lib/digitraffic-common/package.json")("typescript");
const ROOT = "/verif";
const argv = process.argv.slice(2);
const id = argv[0];
const opt = (n, d) => { const i = argv.indexOf("--" + n); return i >= 0 ? argv[i + 1] : d; };
const props = fs.readFileSync(ROOT + "/properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l));
const prop = props.find((p) => p.id === id);
const expand = (f) => fs.statSync("/repo/" + f).isDirectory() ? fs.readdirSync("/repo/" + f, { recursive: true }).filter((g) => g.endsWith(".ts") && !/__test__|\.test\.|\.d\.ts$/.test(g)).map((g) => path.join(f, g)) : [f];
const files = (opt("files") ? opt("files").split(",") : prop.anchors.files).flatMap(expand);
const ev = JSON.parse(fs.readFileSync(`${ROOT}/evidence/${id}.json`, "utf8"));
const covered = new Set(ev.coverage.functions_encoded);
const fnRe = opt("fn") ? new RegExp(opt("fn")) : undefined;
const muts = [];
const uncovered = new Set();
for (const f of files) {
  const src = fs.readFileSync("/repo/" + f, "utf8");
  const sf = ts.createSourceFile(f, src, ts.ScriptTarget.Latest, true);
  const add = (node, s, e, txt, what) => {
    let fn = "top", q = node;
    while (q) {
      if (ts.isFunctionLike(q)) { const n = q.name ?? q.parent?.name; if (n && n.getText) { fn = n.getText(sf); break; } if (ts.isConstructorDeclaration(q)) { fn = "constructor"; break; } }
      q = q.parent;
    }
    if (fnRe && !fnRe.test(fn)) return;
    if (["string", "number", "drop property", "swap args"].includes(what)) for (let p = node; p; p = p.parent) if ((ts.isCallExpression(p) && /^(logger|console)\b/.test(p.getText(sf))) || (ts.isNewExpression(p) && /Error$/.test(p.expression.getText(sf)))) return;
    if (what === "drop statement" && /^(logger|console)\b/.test(node.getText(sf))) return;
    const { line } = sf.getLineAndCharacterOfPosition(s);
    muts.push({ f, s, e, txt, what, fn, line: line + 1, was: src.slice(s, e).slice(0, 60) });
  };
  const K = ts.SyntaxKind;
  const swaps = new Map([[K.LessThanToken, ["<=", ">"]], [K.LessThanEqualsToken, ["<"]], [K.GreaterThanToken, [">=", "<"]], [K.GreaterThanEqualsToken, [">"]], [K.EqualsEqualsEqualsToken, ["!=="]], [K.ExclamationEqualsEqualsToken, ["==="]], [K.AmpersandAmpersandToken, ["||"]], [K.BarBarToken, ["&&"]], [K.QuestionQuestionToken, ["&&", "||"]], [K.PlusToken, ["-"]], [K.MinusToken, ["+"]], [K.AsteriskToken, ["/"]], [K.SlashToken, ["*"]], [K.AsteriskAsteriskToken, ["*"]], [K.PercentToken, ["*"]]]);
  const inType = (n) => { let q = n; while (q) { if (ts.isTypeNode(q) || ts.isImportDeclaration(q) || ts.isInterfaceDeclaration(q) || ts.isTypeAliasDeclaration(q)) return true; q = q.parent; } return false; };
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isImportDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) { if (!ts.isExpressionWithTypeArguments(n)) return; }
    if (ts.isBinaryExpression(n)) for (const t of swaps.get(n.operatorToken.kind) ?? []) add(n, n.operatorToken.getStart(sf), n.operatorToken.end, t, "operator");
    if (ts.isNumericLiteral(n)) { add(n, n.getStart(sf), n.end, String(Number(n.text.replace(/_/g, "")) + 1), "number"); }
    if ((ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) && !ts.isImportDeclaration(n.parent)) add(n, n.getStart(sf), n.end, n.text === "" ? '"q"' : '"' + "q" + JSON.stringify(n.text).slice(1), "string");
    if (n.kind === K.TrueKeyword) add(n, n.getStart(sf), n.end, "false", "bool");
    if (n.kind === K.FalseKeyword) add(n, n.getStart(sf), n.end, "true", "bool");
    if (ts.isIfStatement(n)) { const c = n.expression; add(n, c.getStart(sf), c.end, "!(" + c.getText(sf) + ")", "negate if"); }
    if (ts.isConditionalExpression(n)) { const c = n.condition; add(n, c.getStart(sf), c.end, "!(" + c.getText(sf) + ")", "negate cond"); }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, n.getStart(sf), n.end, n.operand.getText(sf), "drop not");
    if (ts.isAwaitExpression(n)) add(n, n.getStart(sf), n.end, n.expression.getText(sf), "drop await");
    if (ts.isExpressionStatement(n) && !(ts.isCallExpression(n.expression) && n.expression.expression.kind === K.SuperKeyword)) add(n, n.getStart(sf), n.end, ";", "drop statement");
    if (ts.isReturnStatement(n) && n.expression) add(n, n.getStart(sf), n.end, "return undefined as any;", "return nothing");
    if (ts.isThrowStatement(n)) add(n, n.getStart(sf), n.end, ";", "drop throw");
    if (ts.isPropertyAssignment(n) && ts.isObjectLiteralExpression(n.parent)) add(n, n.getStart(sf), n.end, "", "drop property");
    if (ts.isSpreadAssignment(n)) add(n, n.getStart(sf), n.end, "", "drop spread");
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["filter", "sort", "map", "slice", "trim", "toLowerCase", "toUpperCase", "reverse", "flat"].includes(n.expression.name.text)) add(n, n.getStart(sf), n.end, n.expression.expression.getText(sf), "drop ." + n.expression.name.text);
    if (ts.isCallExpression(n) && n.arguments.length >= 2) { const [a, b] = n.arguments; if (!ts.isFunctionLike(a) && !ts.isFunctionLike(b)) add(n, a.getStart(sf), b.end, b.getText(sf) + ", " + a.getText(sf), "swap args"); }
    if (ts.isPropertyAccessExpression(n)) { const m = { every: "some", some: "every", min: "max", max: "min", floor: "ceil", ceil: "floor", round: "floor", shift: "pop", pop: "shift", push: "unshift", startsWith: "endsWith", endsWith: "startsWith", allSettled: "all", all: "allSettled", find: "findLast", indexOf: "lastIndexOf", replaceAll: "replace", isBefore: "isAfter", first: "last" }[n.name.text]; if (m) add(n, n.name.getStart(sf), n.name.end, m, "method"); }
    if (ts.isBinaryExpression(n) && [K.AmpersandAmpersandToken, K.BarBarToken].includes(n.operatorToken.kind)) { add(n, n.getStart(sf), n.end, n.left.getText(sf), "left only"); add(n, n.getStart(sf), n.end, n.right.getText(sf), "right only"); }
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.QuestionQuestionToken) add(n, n.getStart(sf), n.end, n.left.getText(sf), "left only");
    if (ts.isBlock(n) && ts.isTryStatement(n.parent) && n.parent.finallyBlock === n) add(n, n.getStart(sf), n.end, "{}", "empty finally");
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
// only the functions the check runs
const sel = muts.filter((m) => {
  const ok = [...covered].some((c) => c.startsWith(m.f + ":") ) ? true : true;
  return ok;
});
const max = Number(opt("max", 1e9));
const list = opt("only") ? [sel[Number(opt("only"))]] : sel.slice(0, max);
const workers = Number(opt("workers", 4));
const out = opt("out", `/tmp/mutres/${id}.txt`);
fs.mkdirSync(path.dirname(out), { recursive: true });
const results = [];
async function worker(w) {
  const base = `/tmp/mutw/${id}-${w}`;
  fs.rmSync(base, { recursive: true, force: true });
  fs.mkdirSync(base + "/ev", { recursive: true });
  execFileSync("bash", ["-c", `cd /repo && find . -name node_modules -prune -o -name .git -prune -o -name dist -prune -o -type f -print | cpio -pdl --quiet ${base}/repo 2>/dev/null || (mkdir -p ${base}/repo && tar cf - --exclude=node_modules --exclude=.git --exclude=dist . | tar xf - -C ${base}/repo); ln -s /repo/lib/digitraffic-common/node_modules ${base}/repo/lib/digitraffic-common/node_modules`]);
  for (;;) {
    const m = list.shift();
    if (!m) break;
    const p = `${base}/repo/${m.f}`;
    const src = fs.readFileSync("/repo/" + m.f, "utf8");
    let mut = src.slice(0, m.s) + m.txt + src.slice(m.e);
    if (m.what === "drop property" || m.what === "drop spread") mut = src.slice(0, m.s) + src.slice(m.e).replace(/^\s*,/, "");
    if (ts.transpileModule(mut, { reportDiagnostics: true }).diagnostics.length) continue;
    fs.rmSync(p); fs.writeFileSync(p, mut);
    const t0 = Date.now();
    const r = await new Promise((res) => {
      const c = spawn("node", ["engine/run.mjs", id, "--jobs", "2", "--total", "120000"], { cwd: ROOT, env: { ...process.env, VERIF_REPO: base + "/repo", VERIF_EVIDENCE: base + "/ev", VERIF_FAILFAST: "1" }, stdio: ["ignore", "pipe", "pipe"] });
      let o = "";
      c.stdout.on("data", (d) => { o += d; }); c.stderr.on("data", (d) => { o += d; });
      const t = setTimeout(() => c.kill("SIGKILL"), 400000);
      c.on("close", (code) => { clearTimeout(t); res({ code, o }); });
    });
    const caught = r.code === 1;
    const inc = /incomplete/.test(r.o) ? " INCOMPLETE" : "";
    const line = `${caught ? "caught  " : "SURVIVED"}${inc} ${m.f.split("/").slice(-1)}:${m.line} ${m.fn} [${m.what}] ${JSON.stringify(m.was)} -> ${JSON.stringify(m.txt.slice(0, 60))} ${((Date.now() - t0) / 1000).toFixed(0)}s ${caught ? (r.o.split("\n").find((l) => l.startsWith("harness")) ?? "").slice(0, 100) : r.o.trim().split("\n").slice(-1)[0].slice(0, 0)}`;
    results.push(line);
    fs.appendFileSync(out, line + "\n");
    fs.rmSync(p); fs.writeFileSync(p, src);
  }
  fs.rmSync(base, { recursive: true, force: true });
}
fs.writeFileSync(out, "");
console.log(list.length, "mutants");
await Promise.all(Array.from({ length: workers }, (_, w) => worker(w)));
console.log(results.filter((l) => l.startsWith("SURV")).length, "survived of", results.length);
for (const l of results.filter((l) => l.startsWith("SURV"))) console.log(l);
