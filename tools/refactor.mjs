// Behaviour-preserving rewrites of every source file, to see that the checks stay quiet:
//   node tools/refactor.mjs OUT style,style,…   (styles: see below; "all")
// makes OUT a copy of /repo with the rewrites; then VERIF_REPO=OUT node engine/run.mjs ID
import fs from "node:fs";
import path from "node:path";
import { execFileSync } from "node:child_process";
import { createRequire } from "node:module";
const ts = createRequire("/repo/lib/digitraffic-common/package.json")("typescript");
const [out, styleArg, only] = process.argv.slice(2);
const f = ts.factory, K = ts.SyntaxKind;
let seq = 0;
const fresh = (n) => `${n}_${++seq}`;
const id = (n) => f.createIdentifier(n);
const has = (node, pred, into = true) => { let found = false; const go = (n) => { if (found) return; if (pred(n)) { found = true; return; } if (!into && ts.isFunctionLike(n)) return; ts.forEachChild(n, go); }; ts.forEachChild(node, go); return found; };
const not = (e) => f.createLogicalNot(f.createParenthesizedExpression(e));
const simple = (e) => ts.isIdentifier(e) || e.kind === K.ThisKeyword || (ts.isPropertyAccessExpression(e) && !e.questionDotToken && simple(e.expression));
const pure = (e) => simple(e) || ts.isNumericLiteral(e) || ts.isStringLiteral(e) || e.kind === K.NullKeyword || e.kind === K.TrueKeyword || e.kind === K.FalseKeyword;
const undef = () => id("undefined");
const nullish = (e) => f.createParenthesizedExpression(f.createBinaryExpression(f.createBinaryExpression(e, K.EqualsEqualsEqualsToken, f.createNull()), K.BarBarToken, f.createBinaryExpression(e, K.EqualsEqualsEqualsToken, undef())));
const konst = (name, init, type) => f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(name, undefined, type, init)], ts.NodeFlags.Const));
const styles = {
  // for … of → counted loop over a copy
  loops: (n) => {
    if (!ts.isForOfStatement(n) || n.awaitModifier || !ts.isVariableDeclarationList(n.initializer)) return;
    const xs = fresh("items"), i = fresh("i");
    const body = ts.isBlock(n.statement) ? n.statement.statements : [n.statement];
    const d = n.initializer.declarations[0];
    const each = f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(d.name, undefined, undefined, f.createAsExpression(f.createElementAccessExpression(id(xs), id(i)), f.createKeywordTypeNode(K.AnyKeyword)))], n.initializer.flags));
    return f.createForStatement(f.createVariableDeclarationList([f.createVariableDeclaration(i, undefined, undefined, f.createNumericLiteral(0)), f.createVariableDeclaration(xs, undefined, undefined, f.createArrayLiteralExpression([f.createSpreadElement(n.expression)]))], ts.NodeFlags.Let), f.createBinaryExpression(id(i), K.LessThanToken, f.createPropertyAccessExpression(id(xs), "length")), f.createPostfixIncrement(id(i)), f.createBlock([each, ...body], true));
  },
  // conditions negated and branches exchanged
  branches: (n) => {
    if (ts.isConditionalExpression(n)) return f.createConditionalExpression(not(n.condition), n.questionToken, n.whenFalse, n.colonToken, n.whenTrue);
    if (ts.isIfStatement(n) && n.elseStatement && !ts.isIfStatement(n.elseStatement)) return f.createIfStatement(not(n.expression), n.elseStatement, ts.isBlock(n.thenStatement) ? n.thenStatement : f.createBlock([n.thenStatement]));
  },
  // expression-bodied arrows get a body
  bodies: (n) => {
    if (!ts.isArrowFunction(n) || ts.isBlock(n.body)) return;
    const r = fresh("result");
    const body = ts.isParenthesizedExpression(n.body) ? n.body.expression : n.body;
    return f.createArrowFunction(n.modifiers, n.typeParameters, n.parameters, n.type, n.equalsGreaterThanToken, f.createBlock([konst(r, body, undefined), f.createReturnStatement(id(r))], true));
  },
  // template literals → concatenation
  templates: (n) => {
    if (!ts.isTemplateExpression(n) || ts.isTaggedTemplateExpression(n.parent ?? n) || n.inTag) return;
    let e = f.createStringLiteral(n.head.text);
    for (const s of n.templateSpans) { e = f.createBinaryExpression(e, K.PlusToken, f.createCallExpression(id("String"), undefined, [s.expression])); if (s.literal.text) e = f.createBinaryExpression(e, K.PlusToken, f.createStringLiteral(s.literal.text)); }
    return f.createParenthesizedExpression(e);
  },
  // comparisons the other way round
  flips: (n) => {
    if (!ts.isBinaryExpression(n) || !pure(n.left) || !pure(n.right)) return;
    const flip = { [K.EqualsEqualsEqualsToken]: K.EqualsEqualsEqualsToken, [K.ExclamationEqualsEqualsToken]: K.ExclamationEqualsEqualsToken, [K.LessThanToken]: K.GreaterThanToken, [K.GreaterThanToken]: K.LessThanToken, [K.LessThanEqualsToken]: K.GreaterThanEqualsToken, [K.GreaterThanEqualsToken]: K.LessThanEqualsToken }[n.operatorToken.kind];
    if (flip) return f.createBinaryExpression(n.right, flip, n.left);
  },
  // the body of every function moves into a helper inside it
  helpers: (n) => {
    if (!(ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isFunctionExpression(n)) || !n.body || n.asteriskToken || n.body.statements.length < 2) return;
    if (has(n.body, (m) => ts.isIdentifier(m) && m.text === "arguments") || (n.type && (ts.isTypePredicateNode(n.type) ))) return;
    const asyn = (n.modifiers ?? []).some((m) => m.kind === K.AsyncKeyword), h = fresh("helper");
    const fn = f.createArrowFunction(asyn ? [f.createModifier(K.AsyncKeyword)] : undefined, undefined, [], n.type, undefined, n.body);
    const call = f.createCallExpression(id(h), undefined, []);
    const body = f.createBlock([konst(h, fn), f.createReturnStatement(asyn ? f.createAwaitExpression(call) : call)], true);
    if (ts.isFunctionDeclaration(n)) return f.createFunctionDeclaration(n.modifiers, n.asteriskToken, n.name, n.typeParameters, n.parameters, n.type, body);
    if (ts.isMethodDeclaration(n)) return f.createMethodDeclaration(n.modifiers, n.asteriskToken, n.name, n.questionToken, n.typeParameters, n.parameters, n.type, body);
    return f.createFunctionExpression(n.modifiers, n.asteriskToken, n.name, n.typeParameters, n.parameters, n.type, body);
  },
  // ?. and ?? spelled out
  optional: (n) => {
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.QuestionQuestionToken && simple(n.left)) return f.createParenthesizedExpression(f.createConditionalExpression(nullish(n.left), undefined, n.right, undefined, n.left));
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken && simple(n.expression) && !n.inChain) return f.createParenthesizedExpression(f.createConditionalExpression(nullish(n.expression), undefined, undef(), undefined, f.createPropertyAccessExpression(n.expression, n.name)));
  },
  // what is returned gets a name
  returns: (n) => {
    if (!ts.isReturnStatement(n) || !n.expression || ts.isIdentifier(n.expression) || !n.inBlock) return;
    const r = fresh("value");
    return [konst(r, n.expression), f.createReturnStatement(id(r))];
  },
  // object spreads → Object.assign
  spreads: (n) => {
    if (!ts.isObjectLiteralExpression(n) || !n.properties.some(ts.isSpreadAssignment) || n.properties.some((p) => ts.isAccessor(p)) || n.isTarget) return;
    const args = [f.createObjectLiteralExpression([])];
    let run = [];
    const flush = () => { if (run.length) args.push(f.createObjectLiteralExpression(run, true)); run = []; };
    for (const p of n.properties) if (ts.isSpreadAssignment(p)) { flush(); args.push(f.createAsExpression(p.expression, f.createKeywordTypeNode(K.AnyKeyword))); } else run.push(p);
    flush();
    return f.createCallExpression(f.createPropertyAccessExpression(id("Object"), "assign"), undefined, args);
  },
  // other ways to ask
  asks: (n) => {
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && !n.expression.questionDotToken && n.arguments.length === 1 && !n.inChain) {
      if (n.expression.name.text === "includes") return f.createParenthesizedExpression(f.createBinaryExpression(f.createCallExpression(f.createPropertyAccessExpression(n.expression.expression, "indexOf"), undefined, n.arguments), K.ExclamationEqualsEqualsToken, f.createPrefixMinus(f.createNumericLiteral(1))));
      if (n.expression.name.text === "startsWith") return f.createParenthesizedExpression(f.createBinaryExpression(f.createCallExpression(f.createPropertyAccessExpression(n.expression.expression, "indexOf"), undefined, n.arguments), K.EqualsEqualsEqualsToken, f.createNumericLiteral(0)));
      if (n.expression.name.text === "some" && ts.isArrowFunction(n.arguments[0])) return f.createParenthesizedExpression(f.createBinaryExpression(f.createCallExpression(f.createPropertyAccessExpression(n.expression.expression, "findIndex"), undefined, n.arguments), K.GreaterThanEqualsToken, f.createNumericLiteral(0)));
      if (n.expression.name.text === "entries" && ts.isIdentifier(n.expression.expression) && n.expression.expression.text === "Object" && simple(n.arguments[0])) { const k = fresh("key"); return f.createCallExpression(f.createPropertyAccessExpression(f.createCallExpression(f.createPropertyAccessExpression(id("Object"), "keys"), undefined, n.arguments), "map"), undefined, [f.createArrowFunction(undefined, undefined, [f.createParameterDeclaration(undefined, undefined, k)], undefined, undefined, f.createAsExpression(f.createArrayLiteralExpression([id(k), f.createElementAccessExpression(f.createParenthesizedExpression(f.createAsExpression(n.arguments[0], f.createKeywordTypeNode(K.AnyKeyword))), id(k))]), f.createKeywordTypeNode(K.AnyKeyword)))]); }
    }
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsEqualsEqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.name.text === "length" && ts.isNumericLiteral(n.right) && n.right.text === "0") return f.createBinaryExpression(n.left, K.LessThanToken, f.createNumericLiteral(1));
  },
  // awaiting in a function of its own
  awaits: (n) => {
    if (!ts.isAwaitExpression(n) || n.topLevel || has(n, (m) => ts.isYieldExpression(m))) return;
    const call = f.createCallExpression(f.createParenthesizedExpression(f.createArrowFunction([f.createModifier(K.AsyncKeyword)], undefined, [], undefined, undefined, n.expression.kind === K.ObjectLiteralExpression ? f.createParenthesizedExpression(n.expression) : n.expression)), undefined, []);
    return f.createAwaitExpression(call);
  },
  // what follows an early return moves into an else
  elses: (n) => {
    if (!ts.isBlock(n)) return;
    const at = n.statements.findIndex((s) => ts.isIfStatement(s) && !s.elseStatement && exits(s.thenStatement));
    if (at < 0 || at === n.statements.length - 1) return;
    const s = n.statements[at], rest = n.statements.slice(at + 1);
    if (rest.some((r) => ts.isFunctionDeclaration(r))) return;
    return f.createBlock([...n.statements.slice(0, at), f.createIfStatement(s.expression, s.thenStatement, f.createBlock(rest, true))], true);
  },
  // filter → flatMap, map → a loop that collects
  collects: (n) => {
    if (!ts.isCallExpression(n) || !ts.isPropertyAccessExpression(n.expression) || n.expression.questionDotToken || n.inChain || n.arguments.length !== 1 || !ts.isArrowFunction(n.arguments[0])) return;
    const fn = n.arguments[0], name = n.expression.name.text;
    if (fn.type || fn.parameters.length !== 1 || fn.parameters.some((p) => p.dotDotDotToken)) return;
    if ((fn.modifiers ?? []).some((m) => m.kind === K.AsyncKeyword)) return;
    const x = fresh("x"), any = () => f.createKeywordTypeNode(K.AnyKeyword);
    const call = f.createCallExpression(f.createParenthesizedExpression(fn), undefined, [id(x)]);
    if (name === "filter") return f.createCallExpression(f.createPropertyAccessExpression(n.expression.expression, "flatMap"), undefined, [f.createArrowFunction(undefined, undefined, [f.createParameterDeclaration(undefined, undefined, x, undefined, any())], undefined, undefined, f.createConditionalExpression(call, undefined, f.createArrayLiteralExpression([id(x)]), undefined, f.createArrayLiteralExpression([])))]);
    if (name === "forEach") { return f.createCallExpression(f.createPropertyAccessExpression(n.expression.expression, "forEach"), undefined, [f.createArrowFunction(undefined, undefined, [f.createParameterDeclaration(undefined, undefined, x, undefined, any())], undefined, undefined, f.createBlock([f.createExpressionStatement(call)], true))]); }
  },
  // switch of returns → ifs
  switches: (n) => {
    if (!ts.isSwitchStatement(n) || !simple(n.expression) || !n.inBlock) return;
    const cl = n.caseBlock.clauses;
    const groups = [];
    let tests = [];
    for (const c of cl) { if (ts.isDefaultClause(c)) { if (c !== cl[cl.length - 1] || tests.length) return; groups.push([undefined, c.statements]); continue; } tests.push(c.expression); if (c.statements.length === 0) continue; const st = c.statements.length === 1 && ts.isBlock(c.statements[0]) ? c.statements[0].statements : c.statements; if (!st.length || !(ts.isReturnStatement(st[st.length - 1]) || ts.isThrowStatement(st[st.length - 1])) || has(f.createBlock(st), (m) => ts.isBreakStatement(m), false)) return; groups.push([tests, st]); tests = []; }
    if (tests.length) return;
    return groups.flatMap(([t, st]) => { if (!t) return [f.createBlock(st, true)]; const cond = t.map((e) => f.createBinaryExpression(n.expression, K.EqualsEqualsEqualsToken, e)).reduce((a, b) => f.createBinaryExpression(a, K.BarBarToken, b)); return [f.createIfStatement(cond, f.createBlock(st, true))]; });
  },
  // += and ++ spelled out
  steps: (n) => {
    if (!ts.isExpressionStatement(n)) return;
    const e = n.expression;
    if ((ts.isPostfixUnaryExpression(e) || ts.isPrefixUnaryExpression(e)) && simple(e.operand) && [K.PlusPlusToken, K.MinusMinusToken].includes(e.operator)) return f.createExpressionStatement(f.createBinaryExpression(e.operand, K.EqualsToken, f.createBinaryExpression(e.operand, e.operator === K.PlusPlusToken ? K.PlusToken : K.MinusToken, f.createNumericLiteral(1))));
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.PlusEqualsToken && simple(e.left)) return f.createExpressionStatement(f.createBinaryExpression(e.left, K.EqualsToken, f.createBinaryExpression(e.left, K.PlusToken, f.createParenthesizedExpression(e.right))));
  },
};
const exits = (s) => ts.isReturnStatement(s) || ts.isThrowStatement(s) || (ts.isBlock(s) && s.statements.length > 0 && exits(s.statements[s.statements.length - 1]));
const wanted = styleArg === "all" ? Object.keys(styles) : styleArg.split(",");
const count = {};
// facts about places that are lost when nodes are made anew
function mark(sf) {
  const go = (n) => {
    if (ts.isTaggedTemplateExpression(n)) n.template.inTag = true;
    if (n.parent && (ts.isPropertyAccessExpression(n.parent) || ts.isCallExpression(n.parent) || ts.isElementAccessExpression(n.parent)) && n.parent.expression === n && (n.parent.flags & ts.NodeFlags.OptionalChain)) n.inChain = true;
    if (n.flags & ts.NodeFlags.OptionalChain && !n.questionDotToken) n.inChain = true;
    // a chain goes on after this node: leave it
    if (n.parent && (ts.isPropertyAccessExpression(n.parent) || ts.isCallExpression(n.parent) || ts.isElementAccessExpression(n.parent) || ts.isNonNullExpression(n.parent)) && n.parent.expression === n) n.continues = true;
    if (n.questionDotToken && n.continues) n.inChain = true;
    if (n.parent && ts.isBlock(n.parent)) n.inBlock = true;
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isObjectLiteralExpression(n.left)) n.left.isTarget = true;
    if (ts.isAwaitExpression(n)) { let p = n.parent; while (p && !ts.isFunctionLike(p)) p = p.parent; if (!p) n.topLevel = true; }
    ts.forEachChild(n, go);
  };
  go(sf);
}
const apply = (file, style) => {
  const text = fs.readFileSync(file, "utf8");
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
  mark(sf);
  const tr = (ctx) => (root) => {
    const visit = (n) => {
      if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isEnumDeclaration(n) || ts.isDecorator(n)) return n;
      const keep = {}; for (const k of ["inTag", "inChain", "inBlock", "isTarget", "topLevel"]) if (n[k]) keep[k] = true;
      const m = ts.visitEachChild(n, visit, ctx);
      if (m !== n) Object.assign(m, keep);
      const r = styles[style](m);
      if (r) { count[style] = (count[style] ?? 0) + 1; return r; }
      return m;
    };
    return ts.visitNode(root, visit);
  };
  const before = count[style] ?? 0;
  const res = ts.transform(sf, [tr]);
  if ((count[style] ?? 0) === before) return;
  fs.writeFileSync(file, ts.createPrinter().printFile(res.transformed[0]));
};
fs.rmSync(out, { recursive: true, force: true });
fs.mkdirSync(out, { recursive: true });
execFileSync("bash", ["-c", `cd /repo && tar cf - --exclude=node_modules --exclude=.git --exclude=dist . | tar xf - -C ${out}; ln -s /repo/lib/digitraffic-common/node_modules ${out}/lib/digitraffic-common/node_modules`]);
const files = [];
const walk = (d) => { for (const e of fs.readdirSync(d, { withFileTypes: true })) { const p = path.join(d, e.name); if (e.isDirectory()) { if (!/^(node_modules|dist|__test__|tests?|__mocks__|mocks)$/.test(e.name)) walk(p); } else if (e.isFile() && /\.ts$/.test(e.name) && !/\.d\.ts$|\.test\.ts$|config\.ts$/.test(e.name) && /\/src\//.test(p)) files.push(p); } };
walk(out);
for (const file of files) { if (only && !new RegExp(only).test(file)) continue; for (const s of wanted) apply(file, s); }
console.log(files.length, "files", JSON.stringify(count));
