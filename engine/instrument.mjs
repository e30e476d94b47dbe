// TypeScript/JavaScript source -> CommonJS whose operators, branches, property
// accesses and calls go through the runtime $S.
import { createRequire } from "node:module";
const ts = createRequire("/opt/veriftools/node/node_modules/")("typescript");
const K = ts.SyntaxKind;

export function toCommonJs(code, file, symbolic) {
  const out = ts.transpileModule(code, {
    fileName: file.replace(/\.(cjs|mjs)$/, ".js"),
    compilerOptions: {
      target: symbolic ? ts.ScriptTarget.ES2019 : ts.ScriptTarget.ES2022,
      module: ts.ModuleKind.CommonJS,
      esModuleInterop: true,
      allowJs: true,
      useDefineForClassFields: true,
      removeComments: true,
      experimentalDecorators: false,
    },
  });
  return waits(code, file) ? `module.$ready = (async () => {${out.outputText}\n})();` : out.outputText;
}
// a module that waits at its top level: its functions are there at once, its
// values when $ready is
function waits(code, file) {
  if (!/\bawait\b/.test(code)) return false;
  let found = false;
  const visit = (n) => {
    if (found || ts.isFunctionLike(n) || ts.isClassLike(n)) return;
    if (ts.isAwaitExpression(n)) { found = true; return; }
    ts.forEachChild(n, visit);
  };
  visit(ts.createSourceFile(file, code, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS));
  return found;
}
// the module as it is published
export const toEsModule = (code, file) => ts.transpileModule(code, { fileName: file, compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, useDefineForClassFields: true } }).outputText;
const BIN = new Map([
  [K.PlusToken, "+"], [K.MinusToken, "-"], [K.AsteriskToken, "*"], [K.SlashToken, "/"], [K.PercentToken, "%"], [K.AsteriskAsteriskToken, "**"],
  [K.LessThanToken, "<"], [K.GreaterThanToken, ">"], [K.LessThanEqualsToken, "<="], [K.GreaterThanEqualsToken, ">="],
  [K.EqualsEqualsToken, "=="], [K.EqualsEqualsEqualsToken, "==="], [K.ExclamationEqualsToken, "!="], [K.ExclamationEqualsEqualsToken, "!=="],
  [K.AmpersandToken, "&"], [K.BarToken, "|"], [K.CaretToken, "^"], [K.LessThanLessThanToken, "<<"], [K.GreaterThanGreaterThanToken, ">>"], [K.GreaterThanGreaterThanGreaterThanToken, ">>>"],
  [K.InstanceOfKeyword, "instanceof"],
]);
const CBIN = new Map([
  [K.PlusEqualsToken, "+"], [K.MinusEqualsToken, "-"], [K.AsteriskEqualsToken, "*"], [K.SlashEqualsToken, "/"], [K.PercentEqualsToken, "%"], [K.AsteriskAsteriskEqualsToken, "**"],
  [K.AmpersandEqualsToken, "&"], [K.BarEqualsToken, "|"], [K.CaretEqualsToken, "^"], [K.LessThanLessThanEqualsToken, "<<"], [K.GreaterThanGreaterThanEqualsToken, ">>"], [K.GreaterThanGreaterThanGreaterThanEqualsToken, ">>>"],
]);

// names functions of `label` files in coverage; label undefined: not recorded
export function instrument(js, file, label) {
  const sf = ts.createSourceFile(file.replace(/\.(ts|cjs|mjs)$/, ".js"), js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  let uniq = 0;
  const result = ts.transform(sf, [(ctx) => {
    const f = ctx.factory;
    const S = (name, ...args) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier("$S"), name), undefined, args);
    const str = (s) => f.createStringLiteral(s);
    const truthy = (e) => S("t", v(e));
    const skipParen = (e) => { while (ts.isParenthesizedExpression(e)) e = e.expression; return e; };
    const isBoolish = (e) => false;
    const nativeObj = (o) => o.kind === K.SuperKeyword || o.kind === K.ThisKeyword || (ts.isIdentifier(o) && (/_\d+$/.test(o.text) || o.text === "exports" || o.text === "module" || o.text === "$S"));
    const isMember = (e) => (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) && e.expression.kind !== K.SuperKeyword && !(ts.isPropertyAccessExpression(e) && ts.isPrivateIdentifier(e.name));
    const key = (e) => (ts.isPropertyAccessExpression(e) ? str(e.name.text) : v(e.argumentExpression));
    const args = (xs) => f.createArrayLiteralExpression(xs.map((a) => v(a)));
    const isPattern = (e) => ts.isArrayLiteralExpression(e) || ts.isObjectLiteralExpression(e);
    // assignment patterns: only default values and computed keys are expressions
    const pattern = (e) => {
      if (ts.isArrayLiteralExpression(e)) return f.updateArrayLiteralExpression(e, e.elements.map(pattern));
      if (ts.isObjectLiteralExpression(e)) return f.updateObjectLiteralExpression(e, e.properties.map((p) => (ts.isPropertyAssignment(p) ? f.updatePropertyAssignment(p, p.name, pattern(p.initializer)) : ts.isShorthandPropertyAssignment(p) && p.objectAssignmentInitializer ? f.updateShorthandPropertyAssignment(p, p.name, v(p.objectAssignmentInitializer)) : p)));
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken) return f.updateBinaryExpression(e, pattern(e.left), e.operatorToken, v(e.right));
      return e;
    };
    const body = (b) => { // loop body
      const st = v(b);
      const stmts = ts.isBlock(st) ? st.statements : [st];
      return f.createBlock([f.createExpressionStatement(S("loop")), ...stmts], true);
    };
    const fnName = (n) => {
      if (n.name && (ts.isIdentifier(n.name) || ts.isStringLiteral(n.name) || ts.isPrivateIdentifier(n.name))) return n.name.text;
      if (ts.isConstructorDeclaration(n)) return (n.parent.name ? n.parent.name.text : "class") + ".constructor";
      const p = n.parent;
      if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return p.name.text;
      if (p && ts.isPropertyAssignment(p) && ts.isIdentifier(p.name)) return p.name.text;
      return undefined;
    };
    function v(n) { return ts.visitNode(n, visit); }
    function kids(n) { return ts.visitEachChild(n, visit, ctx); }
    function mark(orig, out) {
      if (!label || !out.body) return out;
      const nm = fnName(orig);
      if (!nm) return out;
      const line = 0;
      const call = f.createExpressionStatement(S("fn", str(label + ":" + nm)));
      const withMark = (b) => {
        let i = 0;
        while (i < b.statements.length && ts.isExpressionStatement(b.statements[i]) && ts.isStringLiteral(b.statements[i].expression)) i++;
        // keep super() first in derived constructors: the mark does not touch `this`
        return f.updateBlock(b, [...b.statements.slice(0, i), call, ...b.statements.slice(i)]);
      };
      if (ts.isFunctionDeclaration(out)) return f.updateFunctionDeclaration(out, out.modifiers, out.asteriskToken, out.name, undefined, out.parameters, undefined, withMark(out.body));
      if (ts.isFunctionExpression(out)) return f.updateFunctionExpression(out, out.modifiers, out.asteriskToken, out.name, undefined, out.parameters, undefined, withMark(out.body));
      if (ts.isMethodDeclaration(out)) return f.updateMethodDeclaration(out, out.modifiers, out.asteriskToken, out.name, undefined, undefined, out.parameters, undefined, withMark(out.body));
      if (ts.isConstructorDeclaration(out)) return f.updateConstructorDeclaration(out, out.modifiers, out.parameters, withMark(out.body));
      if (ts.isArrowFunction(out)) {
        const b = ts.isBlock(out.body) ? withMark(out.body) : f.createBlock([call, f.createReturnStatement(out.body)], true);
        return f.updateArrowFunction(out, out.modifiers, undefined, out.parameters, undefined, out.equalsGreaterThanToken, b);
      }
      return out;
    }
    function visit(n) {
      switch (n.kind) {
        case K.FunctionDeclaration: case K.FunctionExpression: case K.MethodDeclaration: case K.Constructor: case K.ArrowFunction:
          return mark(n, kids(n));
        case K.BinaryExpression: {
          const op = n.operatorToken.kind;
          if (op === K.EqualsToken) {
            const l = skipParen(n.left);
            if (isPattern(l)) return f.updateBinaryExpression(n, pattern(l), n.operatorToken, v(n.right));
            if (isMember(l) && !nativeObj(l.expression)) return S("set", v(l.expression), key(l), v(n.right));
            if (isMember(l) && ts.isElementAccessExpression(l) && l.expression.kind !== K.SuperKeyword) return S("set", v(l.expression), key(l), v(n.right));
            return f.updateBinaryExpression(n, n.left, n.operatorToken, v(n.right));
          }
          if (CBIN.has(op)) {
            const l = skipParen(n.left);
            if (isMember(l)) return S("opset", S("ref", v(l.expression), key(l)), str(CBIN.get(op)), v(n.right));
            return f.createParenthesizedExpression(f.createAssignment(l, S("bin", str(CBIN.get(op)), l, v(n.right))));
          }
          if (op === K.AmpersandAmpersandToken) return f.createParenthesizedExpression(f.createConditionalExpression(S("and1", v(n.left)), undefined, v(n.right), undefined, S("last")));
          if (op === K.BarBarToken) return f.createParenthesizedExpression(f.createConditionalExpression(S("and1", v(n.left)), undefined, S("last"), undefined, v(n.right)));
          if (op === K.QuestionQuestionToken) return f.createParenthesizedExpression(f.createConditionalExpression(S("nn", v(n.left)), undefined, S("last"), undefined, v(n.right)));
          if (op === K.InKeyword && !ts.isPrivateIdentifier(n.left)) return S("has", v(n.left), v(n.right));
          if (op === K.CommaToken) return kids(n);
          if (BIN.has(op)) return S("bin", str(BIN.get(op)), v(n.left), v(n.right));
          if (op === K.AmpersandAmpersandEqualsToken || op === K.BarBarEqualsToken || op === K.QuestionQuestionEqualsToken) throw new Error("logical assignment should have been lowered");
          return kids(n);
        }
        case K.PrefixUnaryExpression: {
          switch (n.operator) {
            case K.ExclamationToken: return S("not", v(n.operand));
            case K.MinusToken: return ts.isNumericLiteral(n.operand) || ts.isBigIntLiteral(n.operand) ? n : S("neg", v(n.operand));
            case K.PlusToken: return S("plus", v(n.operand));
            case K.TildeToken: return S("bnot", v(n.operand));
          }
          const d = n.operator === K.PlusPlusToken ? f.createNumericLiteral(1) : f.createPrefixUnaryExpression(K.MinusToken, f.createNumericLiteral(1));
          const o = skipParen(n.operand);
          if (isMember(o)) return S("incset", v(o.expression), key(o), d, f.createTrue());
          return f.createParenthesizedExpression(f.createAssignment(o, S("inc", o, d)));
        }
        case K.PostfixUnaryExpression: {
          const d = n.operator === K.PlusPlusToken ? f.createNumericLiteral(1) : f.createPrefixUnaryExpression(K.MinusToken, f.createNumericLiteral(1));
          const o = skipParen(n.operand);
          if (isMember(o)) return S("incset", v(o.expression), key(o), d, f.createFalse());
          return S("post", o, f.createAssignment(o, S("inc", o, d)));
        }
        case K.ConditionalExpression: return f.createParenthesizedExpression(f.createConditionalExpression(truthy(n.condition), undefined, v(n.whenTrue), undefined, v(n.whenFalse)));
        case K.IfStatement: return f.updateIfStatement(n, truthy(n.expression), v(n.thenStatement), n.elseStatement ? v(n.elseStatement) : undefined);
        case K.WhileStatement: return f.updateWhileStatement(n, truthy(n.expression), body(n.statement));
        case K.DoStatement: return f.updateDoStatement(n, body(n.statement), truthy(n.expression));
        case K.ForStatement: return f.updateForStatement(n, n.initializer ? v(n.initializer) : undefined, n.condition ? truthy(n.condition) : undefined, n.incrementor ? v(n.incrementor) : undefined, body(n.statement));
        case K.ForOfStatement: return f.updateForOfStatement(n, n.awaitModifier, n.initializer, n.awaitModifier ? v(n.expression) : S("iter", v(n.expression)), body(n.statement));
        case K.ForInStatement: return f.createForOfStatement(undefined, n.initializer, S("keysIn", v(n.expression)), body(n.statement));
        case K.SwitchStatement: {
          const name = f.createIdentifier("$sw" + uniq++);
          const clauses = n.caseBlock.clauses.map((c) => (ts.isCaseClause(c) ? f.updateCaseClause(c, S("t", S("bin", str("==="), name, v(c.expression))), c.statements.map(v)) : f.updateDefaultClause(c, c.statements.map(v))));
          return f.createBlock([
            f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(name, undefined, undefined, v(n.expression))], ts.NodeFlags.Const)),
            f.createSwitchStatement(f.createTrue(), f.createCaseBlock(clauses)),
          ], true);
        }
        case K.PropertyAccessExpression: {
          if (!isMember(n)) return kids(n);
          if (nativeObj(n.expression)) return kids(n);
          return S("get", v(n.expression), key(n));
        }
        case K.ElementAccessExpression: return n.expression.kind === K.SuperKeyword ? kids(n) : S("get", v(n.expression), key(n));
        case K.CallExpression: {
          const c = n.expression;
          if (c.kind === K.SuperKeyword || c.kind === K.ImportKeyword || (ts.isIdentifier(c) && (c.text === "require" || c.text === "__importDefault" || c.text === "__importStar" || c.text === "__exportStar" || c.text === "__createBinding"))) return f.updateCallExpression(n, c, undefined, n.arguments.map(v));
          if (ts.isPropertyAccessExpression(c) && c.expression.kind === K.SuperKeyword) return f.updateCallExpression(n, c, undefined, n.arguments.map(v));
          const p = skipParen(c);
          if (isMember(c) || (p !== c && isMember(p))) return S("callm", v(p.expression), key(p), args(n.arguments));
          return S("call", v(c), args(n.arguments));
        }
        case K.NewExpression: return S("construct", v(n.expression), args(n.arguments ?? []));
        case K.TemplateExpression: return S("tpl", f.createArrayLiteralExpression([str(n.head.text), ...n.templateSpans.map((s) => str(s.literal.text))]), f.createArrayLiteralExpression(n.templateSpans.map((s) => v(s.expression))));
        case K.TaggedTemplateExpression: return ts.isNoSubstitutionTemplateLiteral(n.template) ? n : f.updateTaggedTemplateExpression(n, n.tag, undefined, f.updateTemplateExpression(n.template, n.template.head, n.template.templateSpans.map((s) => f.updateTemplateSpan(s, v(s.expression), s.literal))));
        case K.TypeOfExpression: {
          const e = skipParen(n.expression);
          if (ts.isIdentifier(e)) return S("typeOf", f.createConditionalExpression(f.createStrictEquality(f.createTypeOfExpression(e), str("undefined")), undefined, f.createVoidZero(), undefined, e));
          return S("typeOf", v(n.expression));
        }
        case K.DeleteExpression: {
          const e = skipParen(n.expression);
          return isMember(e) ? S("del", v(e.expression), key(e)) : kids(n);
        }
        case K.SpreadElement: return f.updateSpreadElement(n, S("iter", v(n.expression)));
        case K.ObjectLiteralExpression: {
          const special = (p) => ts.isSpreadAssignment(p) || (ts.isPropertyAssignment(p) && ts.isComputedPropertyName(p.name));
          if (!n.properties.some(special)) return kids(n);
          const parts = [];
          let cur = [];
          const flush = () => { if (cur.length) { parts.push(f.createArrayLiteralExpression([str("p"), f.createObjectLiteralExpression(cur)])); cur = []; } };
          for (const p of n.properties) {
            if (ts.isSpreadAssignment(p)) { flush(); parts.push(f.createArrayLiteralExpression([str("s"), v(p.expression)])); }
            else if (ts.isPropertyAssignment(p) && ts.isComputedPropertyName(p.name)) { flush(); parts.push(f.createArrayLiteralExpression([str("k"), v(p.name.expression), v(p.initializer)])); }
            else cur.push(kids(p));
          }
          flush();
          return S("obj", ...parts);
        }
        case K.CatchClause: {
          let decl = n.variableDeclaration;
          const blk = v(n.block);
          const pre = [];
          if (!decl || !ts.isIdentifier(decl.name)) {
            const id = f.createIdentifier("$e" + uniq++);
            if (decl) pre.push(f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(decl.name, undefined, undefined, id)], ts.NodeFlags.Let)));
            decl = f.createVariableDeclaration(id);
          }
          return f.updateCatchClause(n, decl, f.updateBlock(blk, [f.createExpressionStatement(S("caught", decl.name)), ...pre, ...blk.statements]));
        }
        case K.HeritageClause: {
          if (n.token !== K.ExtendsKeyword) return n;
          return f.updateHeritageClause(n, n.types.map((t) => f.updateExpressionWithTypeArguments(t, S("base", v(t.expression)), undefined)));
        }
        case K.ClassStaticBlockDeclaration: case K.ClassDeclaration: case K.ClassExpression: return kids(n);
        case K.BindingElement: case K.VariableDeclaration: case K.Parameter: return kids(n);
        case K.ComputedPropertyName: return kids(n);
        case K.ExportDeclaration: case K.ImportDeclaration: return n;
      }
      return kids(n);
    }
    return (root) => ts.visitEachChild(root, visit, ctx);
  }]);
  const printer = ts.createPrinter({ removeComments: true });
  const out = printer.printFile(result.transformed[0]);
  result.dispose();
  return out;
}
