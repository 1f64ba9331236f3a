"use strict";
// Source-to-source instrumentation of JavaScript: every operator, branch,
// dynamic property access and method call goes through the runtime ($).
const fs = require("node:fs");
function loadTs() {
  for (const p of ["/repo/node_modules/typescript", "/opt/veriftools/node/node_modules/typescript"]) {
    try {
      return require(p);
    } catch {}
  }
  throw new Error("no TypeScript compiler found");
}
const ts = loadTs();
const f = ts.factory;
const SK = ts.SyntaxKind;

function transpile(code, fileName) {
  return ts.transpileModule(code, {
    fileName,
    compilerOptions: {
      target: ts.ScriptTarget.ES2022,
      module: ts.ModuleKind.CommonJS,
      esModuleInterop: true,
      isolatedModules: true,
      useDefineForClassFields: true,
      removeComments: true,
      ...(fileName.endsWith(".js") || fileName.endsWith(".mjs") ? { allowJs: true } : {}),
    },
  }).outputText;
}

const ARITH = new Map([
  [SK.MinusToken, "-"], [SK.AsteriskToken, "*"], [SK.SlashToken, "/"], [SK.PercentToken, "%"], [SK.AsteriskAsteriskToken, "**"],
  [SK.AmpersandToken, "&"], [SK.BarToken, "|"], [SK.CaretToken, "^"], [SK.LessThanLessThanToken, "<<"],
  [SK.GreaterThanGreaterThanToken, ">>"], [SK.GreaterThanGreaterThanGreaterThanToken, ">>>"],
]);
const CMP = new Map([
  [SK.LessThanToken, "<"], [SK.LessThanEqualsToken, "<="], [SK.GreaterThanToken, ">"], [SK.GreaterThanEqualsToken, ">="],
]);
const EQ = new Map([
  [SK.EqualsEqualsEqualsToken, "eq3"], [SK.ExclamationEqualsEqualsToken, "ne3"], [SK.EqualsEqualsToken, "eq2"], [SK.ExclamationEqualsToken, "ne2"],
]);
const COMPOUND = new Map([
  [SK.PlusEqualsToken, "+"], [SK.MinusEqualsToken, "-"], [SK.AsteriskEqualsToken, "*"], [SK.SlashEqualsToken, "/"], [SK.PercentEqualsToken, "%"],
  [SK.AsteriskAsteriskEqualsToken, "**"], [SK.AmpersandEqualsToken, "&"], [SK.BarEqualsToken, "|"], [SK.CaretEqualsToken, "^"],
  [SK.LessThanLessThanEqualsToken, "<<"], [SK.GreaterThanGreaterThanEqualsToken, ">>"], [SK.GreaterThanGreaterThanGreaterThanEqualsToken, ">>>"],
]);

const id = (n) => f.createIdentifier(n);
const str = (s) => f.createStringLiteral(s);
const num = (n) => (n < 0 ? f.createPrefixUnaryExpression(SK.MinusToken, f.createNumericLiteral(-n)) : f.createNumericLiteral(n));
const rt = (name, ...args) => f.createCallExpression(f.createPropertyAccessExpression(id("$"), name), undefined, args);
const par = (e) => f.createParenthesizedExpression(e);
const cond = (c, a, b) => par(f.createConditionalExpression(c, undefined, a, undefined, b));
const asg = (l, r) => par(f.createBinaryExpression(l, SK.EqualsToken, r));

function instrument(js, fileName) {
  const sf = ts.createSourceFile(fileName, js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  let sw = 0;
  const functions = [];
  const out = ts.transform(sf, [
    (context) => {
      const visitEach = (n) => ts.visitEachChild(n, visit, context);
      const fnName = (n) => {
        if (n.name && ts.isIdentifier(n.name)) return n.name.text;
        if (n.name && (ts.isPrivateIdentifier(n.name) || ts.isStringLiteral(n.name))) return n.name.text;
        if (n.kind === SK.Constructor) return "constructor";
        const p = n.parent;
        if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return p.name.text;
        if (p && (ts.isPropertyAssignment(p) || ts.isPropertyDeclaration(p)) && p.name.text) return p.name.text;
        return "";
      };
      const qual = (n) => {
        let q = fnName(n);
        for (let p = n.parent; p; p = p.parent) {
          if ((ts.isClassDeclaration(p) || ts.isClassExpression(p)) && p.name) return p.name.text + "." + (q || "<fn>");
        }
        return q;
      };
      function isSimple(e) {
        return ts.isIdentifier(e) || e.kind === SK.ThisKeyword || (ts.isPropertyAccessExpression(e) && !e.questionDotToken && isSimple(e.expression));
      }
      // operands whose evaluation neither throws nor has effects: comparisons
      // over identifiers and literals. Their && and || need no fork.
      function pureOperand(e) {
        if (ts.isParenthesizedExpression(e)) return pureOperand(e.expression);
        if (ts.isIdentifier(e) || ts.isNumericLiteral(e) || ts.isStringLiteral(e) || e.kind === SK.TrueKeyword || e.kind === SK.FalseKeyword || e.kind === SK.NullKeyword) return true;
        if (ts.isPrefixUnaryExpression(e) && (e.operator === SK.ExclamationToken || e.operator === SK.MinusToken)) return pureOperand(e.operand);
        if (ts.isBinaryExpression(e)) {
          const k = e.operatorToken.kind;
          if (CMP.has(k) || EQ.has(k) || k === SK.PlusToken || k === SK.MinusToken || k === SK.AsteriskToken || k === SK.PercentToken || k === SK.AmpersandAmpersandToken || k === SK.BarBarToken) return pureOperand(e.left) && pureOperand(e.right);
        }
        return false;
      }
      function pureLogic(e) {
        if (!ts.isBinaryExpression(e)) return false;
        const k = e.operatorToken.kind;
        return (k === SK.AmpersandAmpersandToken || k === SK.BarBarToken) && boolish(e.left) && boolish(e.right);
      }
      function boolish(e) {
        if (ts.isParenthesizedExpression(e)) return boolish(e.expression);
        if (ts.isPrefixUnaryExpression(e) && e.operator === SK.ExclamationToken) return pureOperand(e.operand);
        if (!ts.isBinaryExpression(e)) return false;
        const k = e.operatorToken.kind;
        if (CMP.has(k) || EQ.has(k)) return pureOperand(e.left) && pureOperand(e.right);
        return pureLogic(e);
      }
      // condition context: produce a native boolean
      function test(e) {
        if (ts.isParenthesizedExpression(e)) return par(test(e.expression));
        if (pureLogic(e)) return rt("truthy", visit(e));
        if (ts.isBinaryExpression(e) && (e.operatorToken.kind === SK.AmpersandAmpersandToken || e.operatorToken.kind === SK.BarBarToken)) {
          return par(f.createBinaryExpression(test(e.left), e.operatorToken.kind, test(e.right)));
        }
        if (ts.isPrefixUnaryExpression(e) && e.operator === SK.ExclamationToken) {
          return f.createPrefixUnaryExpression(SK.ExclamationToken, par(test(e.operand)));
        }
        if (e.kind === SK.TrueKeyword || e.kind === SK.FalseKeyword) return e;
        return rt("truthy", visit(e));
      }
      // flatten a member/call chain
      function chain(node) {
        const segs = [];
        let e = node;
        for (;;) {
          if (ts.isPropertyAccessExpression(e)) {
            segs.unshift({ k: "prop", name: e.name, opt: !!e.questionDotToken });
            e = e.expression;
          } else if (ts.isElementAccessExpression(e)) {
            segs.unshift({ k: "elem", arg: e.argumentExpression, opt: !!e.questionDotToken });
            e = e.expression;
          } else if (ts.isCallExpression(e) && e.expression.kind !== SK.SuperKeyword && e.expression.kind !== SK.ImportKeyword) {
            segs.unshift({ k: "call", args: e.arguments, opt: !!e.questionDotToken });
            e = e.expression;
          } else break;
        }
        // super.x(...) stays native
        if (e.kind === SK.SuperKeyword) {
          let cur = e;
          let i = 0;
          const s0 = segs[i++];
          cur = s0.k === "prop" ? f.createPropertyAccessExpression(cur, s0.name) : f.createElementAccessExpression(cur, visit(s0.arg));
          if (segs[i] && segs[i].k === "call") cur = f.createCallExpression(cur, undefined, segs[i++].args.map(visit));
          return build(cur, segs, i);
        }
        let base;
        if (ts.isIdentifier(e) || e.kind === SK.ThisKeyword) base = e;
        else if (ts.isMetaProperty && ts.isMetaProperty(e)) base = e;
        else base = visit(e);
        return build(base, segs, 0);
      }
      function build(cur, segs, i) {
        while (i < segs.length) {
          const s = segs[i];
          if (s.opt && s.k !== "call") {
            const rest = segs.slice(i).map((x, j) => (j === 0 ? { ...x, opt: false } : x));
            return cond(rt("N", cur), f.createVoidZero(), build(rt("V"), rest, 0));
          }
          const nx = segs[i + 1];
          if (s.k === "prop") {
            const priv = ts.isPrivateIdentifier(s.name);
            if (nx && nx.k === "call") {
              if (nx.opt) {
                const rest = segs.slice(i + 2);
                const head = priv
                  ? rt("NMs", cur, f.createPropertyAccessExpression(cur, s.name))
                  : rt("NM", cur, str(s.name.text));
                return cond(head, f.createVoidZero(), build(rt("capply", rt("V"), f.createArrayLiteralExpression(nx.args.map(visit))), rest, 0));
              }
              if (priv) cur = f.createCallExpression(f.createPropertyAccessExpression(cur, s.name), undefined, nx.args.map(visit));
              else cur = rt("mcall", cur, str(s.name.text), f.createArrayLiteralExpression(nx.args.map(visit)));
              i += 2;
              continue;
            }
            if (!priv && s.name.text === "length") cur = rt("len", cur);
            else cur = f.createPropertyAccessExpression(cur, s.name);
            i++;
            continue;
          }
          if (s.k === "elem") {
            if (nx && nx.k === "call") {
              if (nx.opt) {
                const rest = segs.slice(i + 2);
                return cond(rt("NM", cur, visit(s.arg)), f.createVoidZero(), build(rt("capply", rt("V"), f.createArrayLiteralExpression(nx.args.map(visit))), rest, 0));
              }
              cur = rt("mcall", cur, visit(s.arg), f.createArrayLiteralExpression(nx.args.map(visit)));
              i += 2;
              continue;
            }
            cur = rt("idx", cur, visit(s.arg));
            i++;
            continue;
          }
          // plain call of a value
          if (s.opt) {
            const rest = segs.slice(i + 1);
            return cond(rt("N", cur), f.createVoidZero(), build(f.createCallExpression(rt("V"), undefined, s.args.map(visit)), rest, 0));
          }
          cur = f.createCallExpression(cur, undefined, s.args.map(visit));
          i++;
        }
        return cur;
      }
      function target(e) {
        // assignment target: visit sub-expressions but keep the reference
        if (ts.isPropertyAccessExpression(e)) {
          const o = e.expression.kind === SK.SuperKeyword ? e.expression : visit(e.expression);
          return f.createPropertyAccessExpression(o, e.name);
        }
        if (ts.isElementAccessExpression(e)) {
          const o = e.expression.kind === SK.SuperKeyword ? e.expression : visit(e.expression);
          return f.createElementAccessExpression(o, visit(e.argumentExpression));
        }
        if (ts.isArrayLiteralExpression(e)) return f.createArrayLiteralExpression(e.elements.map((x) => (ts.isSpreadElement(x) ? f.createSpreadElement(target(x.expression)) : ts.isBinaryExpression(x) ? f.createBinaryExpression(target(x.left), SK.EqualsToken, visit(x.right)) : ts.isOmittedExpression(x) ? x : target(x))));
        if (ts.isParenthesizedExpression(e)) return target(e.expression);
        return e;
      }
      function binary(n) {
        const op = n.operatorToken.kind;
        if (op === SK.EqualsToken) {
          const l = ts.isParenthesizedExpression(n.left) ? n.left.expression : n.left;
          if (ts.isElementAccessExpression(l) && l.expression.kind !== SK.SuperKeyword) return rt("setIdx", visit(l.expression), visit(l.argumentExpression), visit(n.right));
          return f.createBinaryExpression(target(l), SK.EqualsToken, visit(n.right));
        }
        if (COMPOUND.has(op)) {
          const o = COMPOUND.get(op);
          const v = visit(n.right);
          if (ts.isIdentifier(n.left)) return asg(n.left, rt("bin", str(o), n.left, v));
          if (ts.isPropertyAccessExpression(n.left)) {
            if (ts.isPrivateIdentifier(n.left.name)) {
              const ob = visit(n.left.expression);
              return asg(f.createPropertyAccessExpression(ob, n.left.name), rt("bin", str(o), f.createPropertyAccessExpression(ob, n.left.name), v));
            }
            return rt("updP", visit(n.left.expression), str(n.left.name.text), str(o), v);
          }
          if (ts.isElementAccessExpression(n.left)) return rt("updI", visit(n.left.expression), visit(n.left.argumentExpression), str(o), v);
        }
        if (op === SK.AmpersandAmpersandEqualsToken || op === SK.BarBarEqualsToken) {
          const isAnd = op === SK.AmpersandAmpersandEqualsToken;
          const rd = visit(n.left);
          const wr = ts.isElementAccessExpression(n.left)
            ? rt("setIdx", visit(n.left.expression), visit(n.left.argumentExpression), visit(n.right))
            : asg(target(n.left), visit(n.right));
          return isAnd ? cond(rt("T", rd), wr, rt("V")) : cond(rt("T", rd), rt("V"), wr);
        }
        if (op === SK.QuestionQuestionEqualsToken) {
          if (ts.isElementAccessExpression(n.left)) {
            return cond(rt("N", visit(n.left)), rt("setIdx", visit(n.left.expression), visit(n.left.argumentExpression), visit(n.right)), rt("V"));
          }
          return f.createBinaryExpression(target(n.left), op, visit(n.right));
        }
        if (pureLogic(n)) return rt(op === SK.AmpersandAmpersandToken ? "band" : "bor", visit(n.left), visit(n.right));
        if (op === SK.AmpersandAmpersandToken) return cond(rt("T", visit(n.left)), visit(n.right), rt("V"));
        if (op === SK.BarBarToken) return cond(rt("T", visit(n.left)), rt("V"), visit(n.right));
        if (op === SK.QuestionQuestionToken) return cond(rt("N", visit(n.left)), visit(n.right), rt("V"));
        if (op === SK.CommaToken) return f.createBinaryExpression(visit(n.left), op, visit(n.right));
        if (op === SK.InKeyword) {
          if (ts.isPrivateIdentifier(n.left)) return f.createBinaryExpression(n.left, op, visit(n.right));
          return rt("in", visit(n.left), visit(n.right));
        }
        if (op === SK.InstanceOfKeyword) return rt("inst", visit(n.left), visit(n.right));
        if (op === SK.PlusToken) return rt("add", visit(n.left), visit(n.right));
        if (ARITH.has(op)) return rt("ar", str(ARITH.get(op)), visit(n.left), visit(n.right));
        if (CMP.has(op)) return rt("cmp", str(CMP.get(op)), visit(n.left), visit(n.right));
        if (EQ.has(op)) return rt(EQ.get(op), visit(n.left), visit(n.right));
        return visitEach(n);
      }
      const loopTick = () => f.createExpressionStatement(rt("loop"));
      const block = (s) => {
        const v = visit(s);
        return f.createBlock([loopTick(), ...(ts.isBlock(v) ? v.statements : [v])], true);
      };
      function enterStmt(n) {
        const name = qual(n);
        const i = functions.length;
        functions.push(name || "<anonymous>");
        return rt("enter", str(fileName + "#" + (name || "<anonymous>")));
      }
      function fnBody(n, body) {
        const saved = body;
        if (ts.isBlock(saved)) {
          const v = ts.visitEachChild(saved, visit, context);
          // keep directives first
          const st = [...v.statements];
          let k = 0;
          while (k < st.length && ts.isExpressionStatement(st[k]) && ts.isStringLiteral(st[k].expression)) k++;
          st.splice(k, 0, f.createExpressionStatement(enterStmt(n)));
          return f.createBlock(st, true);
        }
        return par(f.createBinaryExpression(enterStmt(n), SK.CommaToken, visit(saved)));
      }
      function visit(n) {
        switch (n.kind) {
          case SK.BinaryExpression:
            return binary(n);
          case SK.PropertyAccessExpression:
          case SK.ElementAccessExpression:
          case SK.CallExpression:
            if (ts.isCallExpression(n) && (n.expression.kind === SK.SuperKeyword || n.expression.kind === SK.ImportKeyword)) return visitEach(n);
            return chain(n);
          case SK.PrefixUnaryExpression: {
            switch (n.operator) {
              case SK.ExclamationToken: return rt("not", visit(n.operand));
              case SK.MinusToken:
                if (ts.isNumericLiteral(n.operand)) return par(n);
                return rt("neg", visit(n.operand));
              case SK.PlusToken: return rt("pos", visit(n.operand));
              case SK.TildeToken: return rt("bnot", visit(n.operand));
            }
            return incdec(n.operand, n.operator === SK.PlusPlusToken ? 1 : -1, false);
          }
          case SK.PostfixUnaryExpression:
            return incdec(n.operand, n.operator === SK.PlusPlusToken ? 1 : -1, true);
          case SK.TypeOfExpression: {
            const e = n.expression;
            if (ts.isIdentifier(e)) {
              return cond(f.createBinaryExpression(f.createTypeOfExpression(e), SK.EqualsEqualsEqualsToken, str("object")), rt("typeOf", e), f.createTypeOfExpression(e));
            }
            return rt("typeOf", visit(e));
          }
          case SK.DeleteExpression:
            if (ts.isElementAccessExpression(n.expression)) return rt("delI", visit(n.expression.expression), visit(n.expression.argumentExpression));
            if (ts.isPropertyAccessExpression(n.expression)) return f.createDeleteExpression(f.createPropertyAccessExpression(visit(n.expression.expression), n.expression.name));
            return visitEach(n);
          case SK.ConditionalExpression:
            return cond(test(n.condition), visit(n.whenTrue), visit(n.whenFalse));
          case SK.IfStatement:
            return f.createIfStatement(test(n.expression), visit(n.thenStatement), n.elseStatement ? visit(n.elseStatement) : undefined);
          case SK.WhileStatement:
            return f.createWhileStatement(test(n.expression), block(n.statement));
          case SK.DoStatement:
            return f.createDoStatement(block(n.statement), test(n.expression));
          case SK.ForStatement:
            return f.createForStatement(n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? visitEach(n.initializer) : visit(n.initializer)) : undefined, n.condition ? test(n.condition) : undefined, n.incrementor ? visit(n.incrementor) : undefined, block(n.statement));
          case SK.ForOfStatement: {
            const init = ts.isVariableDeclarationList(n.initializer) ? visitEach(n.initializer) : target(n.initializer);
            return f.createForOfStatement(n.awaitModifier, init, visit(n.expression), block(n.statement));
          }
          case SK.ForInStatement: {
            const init = ts.isVariableDeclarationList(n.initializer) ? visitEach(n.initializer) : target(n.initializer);
            return f.createForInStatement(init, visit(n.expression), block(n.statement));
          }
          case SK.SwitchStatement: {
            const v = id("$sw" + sw++);
            const clauses = n.caseBlock.clauses.map((c) =>
              ts.isCaseClause(c)
                ? f.createCaseClause(rt("truthy", rt("eq3", v, visit(c.expression))), c.statements.map(visit))
                : f.createDefaultClause(c.statements.map(visit)),
            );
            return f.createBlock([
              f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(v, undefined, undefined, visit(n.expression))], ts.NodeFlags.Const)),
              f.createSwitchStatement(f.createTrue(), f.createCaseBlock(clauses)),
            ], true);
          }
          case SK.TemplateExpression: {
            const strs = [n.head, ...n.templateSpans.map((s) => s.literal)].map((l) => str(l.text));
            return rt("tmpl", f.createArrayLiteralExpression(strs), f.createArrayLiteralExpression(n.templateSpans.map((s) => visit(s.expression))));
          }
          case SK.TaggedTemplateExpression:
            return n;
          case SK.CatchClause: {
            const v = n.variableDeclaration;
            const simple = v && ts.isIdentifier(v.name);
            const name = simple ? v.name : id("$e" + sw++);
            const b = visitEach(n.block);
            const pre = [f.createExpressionStatement(rt("c", name))];
            if (v && !simple) pre.push(f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(visit(v.name), undefined, undefined, name)], ts.NodeFlags.Let)));
            return f.createCatchClause(f.createVariableDeclaration(name), f.createBlock([...pre, ...b.statements], true));
          }
          case SK.LabeledStatement: {
            if (n.statement.kind === SK.SwitchStatement) {
              return f.createLabeledStatement(n.label, visit(n.statement));
            }
            return visitEach(n);
          }
          case SK.FunctionDeclaration:
            if (!n.body) return n;
            return f.updateFunctionDeclaration(n, n.modifiers, n.asteriskToken, n.name, undefined, n.parameters.map(visit), undefined, fnBody(n, n.body));
          case SK.FunctionExpression:
            return f.updateFunctionExpression(n, n.modifiers, n.asteriskToken, n.name, undefined, n.parameters.map(visit), undefined, fnBody(n, n.body));
          case SK.ArrowFunction:
            return f.updateArrowFunction(n, n.modifiers, undefined, n.parameters.map(visit), undefined, n.equalsGreaterThanToken, fnBody(n, n.body));
          case SK.MethodDeclaration:
            return f.updateMethodDeclaration(n, n.modifiers, n.asteriskToken, visitName(n.name), undefined, undefined, n.parameters.map(visit), undefined, fnBody(n, n.body));
          case SK.GetAccessor:
            return f.updateGetAccessorDeclaration(n, n.modifiers, visitName(n.name), n.parameters.map(visit), undefined, fnBody(n, n.body));
          case SK.SetAccessor:
            return f.updateSetAccessorDeclaration(n, n.modifiers, visitName(n.name), n.parameters.map(visit), fnBody(n, n.body));
          case SK.Constructor:
            return f.updateConstructorDeclaration(n, n.modifiers, n.parameters.map(visit), fnBody(n, n.body));
          case SK.Identifier:
          case SK.StringLiteral:
          case SK.NumericLiteral:
          case SK.RegularExpressionLiteral:
            return n;
          default:
            return visitEach(n);
        }
      }
      function visitName(name) {
        return ts.isComputedPropertyName(name) ? f.createComputedPropertyName(visit(name.expression)) : name;
      }
      function incdec(e, d, post) {
        if (ts.isParenthesizedExpression(e)) e = e.expression;
        if (ts.isIdentifier(e)) {
          if (!post) return asg(e, rt("inc", e, num(d)));
          // old value is evaluated first; the comma keeps evaluation order
          return rt("post", e, asg(e, rt("inc", e, num(d))));
        }
        if (ts.isPropertyAccessExpression(e)) {
          if (ts.isPrivateIdentifier(e.name)) {
            const ob = visit(e.expression);
            const ref = f.createPropertyAccessExpression(ob, e.name);
            if (!post) return asg(ref, rt("inc", ref, num(d)));
            return rt("post", ref, asg(ref, rt("inc", ref, num(d))));
          }
          return rt("incP", visit(e.expression), str(e.name.text), num(d), post ? f.createTrue() : f.createFalse());
        }
        return rt("incI", visit(e.expression), visit(e.argumentExpression), num(d), post ? f.createTrue() : f.createFalse());
      }
      return (root) => ts.visitEachChild(root, visit, context);
    },
  ]);
  const printer = ts.createPrinter({ removeComments: true });
  const text = printer.printFile(out.transformed[0]);
  out.dispose();
  return text;
}

module.exports = { transpile, instrument, ts };
