'use strict';
// Source-to-source encoder front end: TypeScript (or JavaScript) source ->
// JavaScript in which every operator, branch, property access and call goes
// through the symbolic runtime `__S` (engine/runtime.js).
const path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const F = ts.factory;
const SK = ts.SyntaxKind;

const COMPILER = {
    target: ts.ScriptTarget.ES2019,
    module: ts.ModuleKind.CommonJS,
    esModuleInterop: true,
    removeComments: true,
    allowJs: true,
    strict: true,
    isolatedModules: true
};

// Plain transpilation: what replay and translation validation run.
function transpile(source, fileName) {
    return ts.transpileModule(source, { compilerOptions: COMPILER, fileName })
        .outputText;
}

const BIN = {
    [SK.PlusToken]: 'add',
    [SK.MinusToken]: 'sub',
    [SK.AsteriskToken]: 'mul',
    [SK.SlashToken]: 'div',
    [SK.PercentToken]: 'mod',
    [SK.AsteriskAsteriskToken]: 'pow',
    [SK.AmpersandToken]: 'band',
    [SK.BarToken]: 'bor',
    [SK.CaretToken]: 'bxor',
    [SK.LessThanLessThanToken]: 'shl',
    [SK.GreaterThanGreaterThanToken]: 'sar',
    [SK.GreaterThanGreaterThanGreaterThanToken]: 'shr',
    [SK.EqualsEqualsToken]: 'eq',
    [SK.ExclamationEqualsToken]: 'ne',
    [SK.EqualsEqualsEqualsToken]: 'seq',
    [SK.ExclamationEqualsEqualsToken]: 'sne',
    [SK.LessThanToken]: 'lt',
    [SK.LessThanEqualsToken]: 'le',
    [SK.GreaterThanToken]: 'gt',
    [SK.GreaterThanEqualsToken]: 'ge',
    [SK.InKeyword]: 'in_',
    [SK.InstanceOfKeyword]: 'instof'
};
const ASG = {
    [SK.PlusEqualsToken]: 'add',
    [SK.MinusEqualsToken]: 'sub',
    [SK.AsteriskEqualsToken]: 'mul',
    [SK.SlashEqualsToken]: 'div',
    [SK.PercentEqualsToken]: 'mod',
    [SK.AsteriskAsteriskEqualsToken]: 'pow',
    [SK.AmpersandEqualsToken]: 'band',
    [SK.BarEqualsToken]: 'bor',
    [SK.CaretEqualsToken]: 'bxor',
    [SK.LessThanLessThanEqualsToken]: 'shl',
    [SK.GreaterThanGreaterThanEqualsToken]: 'sar',
    [SK.GreaterThanGreaterThanGreaterThanEqualsToken]: 'shr'
};

const S = name => F.createPropertyAccessExpression(F.createIdentifier('__S'), name);
const sc = (name, ...args) => F.createCallExpression(S(name), undefined, args);
const arr = els => F.createArrayLiteralExpression(els, false);
const arrow = body =>
    F.createArrowFunction(undefined, undefined, [], undefined, undefined, body);
const str = s => F.createStringLiteral(s);

function instrument(source, fileName, functions) {
    const js = transpile(source, fileName);
    const sf = ts.createSourceFile(fileName, js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
    const rel = path.basename(path.dirname(fileName)) + '/' + path.basename(fileName);

    const transformer = context => {
        let temps = null; // temps of the enclosing function body

        const newTemp = () => {
            const id = F.createUniqueName('__t');
            temps.push(id);
            return id;
        };
        const isSuper = n => n.kind === SK.SuperKeyword;
        const isMember = n =>
            (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) &&
            !isSuper(n.expression);
        const keyOf = n =>
            ts.isPropertyAccessExpression(n)
                ? str(n.name.text)
                : visit(n.argumentExpression);
        const unparen = n => {
            while (ts.isParenthesizedExpression(n)) n = n.expression;
            return n;
        };

        const visitArgs = args =>
            arr(
                args.map(a =>
                    ts.isSpreadElement(a)
                        ? F.createSpreadElement(sc('iter', visit(a.expression)))
                        : visit(a)
                )
            );

        const withTemps = (body, fn) => {
            const saved = temps;
            temps = [];
            let out = fn(body);
            const mine = temps;
            temps = saved;
            if (mine.length) {
                const decl = F.createVariableStatement(
                    undefined,
                    F.createVariableDeclarationList(
                        mine.map(t => F.createVariableDeclaration(t)),
                        ts.NodeFlags.Let
                    )
                );
                out = out.slice();
                let at = 0;
                while (
                    at < out.length &&
                    ts.isExpressionStatement(out[at]) &&
                    ts.isStringLiteral(out[at].expression)
                )
                    at++;
                out.splice(at, 0, decl);
            }
            return out;
        };

        const fnName = node => {
            if (node.name) return node.name.getText(sf);
            let p = node.parent;
            while (p && ts.isParenthesizedExpression(p)) p = p.parent;
            if (p && (ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p) || ts.isPropertyDeclaration(p)) && p.name)
                return p.name.getText(sf);
            return 'anonymous@' + (sf.getLineAndCharacterOfPosition(node.getStart(sf)).line + 1);
        };
        const register = node => {
            functions.push(`${rel}:${fnName(node)}`);
            return functions.length - 1;
        };
        const enterStmt = id =>
            F.createExpressionStatement(sc('enter', F.createNumericLiteral(id)));

        const visitFnBody = node => {
            const id = register(node);
            if (!ts.isBlock(node.body)) {
                let expr;
                const stmts = withTemps(node.body, b => {
                    expr = visit(b);
                    return [enterStmt(id), F.createReturnStatement(expr)];
                });
                return F.createBlock(stmts, true);
            }
            const stmts = withTemps(node.body, b => {
                const inner = b.statements.map(s => visitStmt(s)).flat();
                let at = 0;
                while (
                    at < inner.length &&
                    ts.isExpressionStatement(inner[at]) &&
                    ts.isStringLiteral(inner[at].expression)
                )
                    at++;
                inner.splice(at, 0, enterStmt(id));
                return inner;
            });
            return F.createBlock(stmts, true);
        };

        const visitStmt = s => {
            const r = visit(s);
            return r === undefined ? [] : Array.isArray(r) ? r : [r];
        };
        // parameter initialisers may need temps as well: evaluate with a fresh
        // scope is impossible there, so constructs needing temps use closures.
        const visitParams = params =>
            params.map(p =>
                F.updateParameterDeclaration(
                    p,
                    p.modifiers,
                    p.dotDotDotToken,
                    ts.visitNode(p.name, visit),
                    undefined,
                    undefined,
                    p.initializer ? noTemps(() => visit(p.initializer)) : undefined
                )
            );
        // Evaluate in a nested arrow when temps are required outside a body.
        const noTemps = fn => {
            const saved = temps;
            temps = [];
            let e = fn();
            const mine = temps;
            temps = saved;
            if (mine.length) {
                const block = F.createBlock([
                    F.createVariableStatement(
                        undefined,
                        F.createVariableDeclarationList(
                            mine.map(t => F.createVariableDeclaration(t)),
                            ts.NodeFlags.Let
                        )
                    ),
                    F.createReturnStatement(e)
                ]);
                e = F.createCallExpression(F.createParenthesizedExpression(arrow(block)), undefined, []);
            }
            return e;
        };

        const truth = n => sc('truth', visit(n));
        const block = s =>
            ts.isBlock(s)
                ? visit(s)
                : F.createBlock(visitStmt(s), true);

        const litKey = name => {
            if (ts.isIdentifier(name)) return str(name.text);
            if (ts.isStringLiteral(name)) return str(name.text);
            if (ts.isNumericLiteral(name)) return str(String(Number(name.text)));
            return null;
        };

        const assignMember = (target, valueExpr) =>
            sc('set', visit(target.expression), keyOf(target), valueExpr);

        const patternHasMember = p => {
            p = unparen(p);
            if (ts.isArrayLiteralExpression(p))
                return p.elements.some(e =>
                    patternHasMember(
                        ts.isSpreadElement(e)
                            ? e.expression
                            : ts.isBinaryExpression(e)
                              ? e.left
                              : e
                    )
                );
            if (ts.isObjectLiteralExpression(p))
                return p.properties.some(
                    q =>
                        ts.isPropertyAssignment(q) &&
                        patternHasMember(
                            ts.isBinaryExpression(q.initializer)
                                ? q.initializer.left
                                : q.initializer
                        )
                );
            return ts.isPropertyAccessExpression(p) || ts.isElementAccessExpression(p);
        };

        function visitBinary(node) {
            const op = node.operatorToken.kind;
            if (op === SK.EqualsToken) {
                const left = unparen(node.left);
                if (isMember(left)) return assignMember(left, visit(node.right));
                if (ts.isArrayLiteralExpression(left)) {
                    if (patternHasMember(left)) {
                        const t = newTemp();
                        const seq = [
                            F.createAssignment(
                                t,
                                arr([F.createSpreadElement(sc('iter', visit(node.right)))])
                            )
                        ];
                        left.elements.forEach((e, i) => {
                            if (ts.isOmittedExpression(e)) return;
                            let tgt = e;
                            let val = F.createElementAccessExpression(t, i);
                            if (ts.isSpreadElement(e)) {
                                tgt = e.expression;
                                val = F.createCallExpression(
                                    F.createPropertyAccessExpression(t, 'slice'),
                                    undefined,
                                    [F.createNumericLiteral(i)]
                                );
                            }
                            tgt = unparen(tgt);
                            seq.push(
                                isMember(tgt)
                                    ? assignMember(tgt, val)
                                    : F.createAssignment(visitPattern(tgt), val)
                            );
                        });
                        seq.push(t);
                        return F.createParenthesizedExpression(
                            seq.reduce((a, b) => F.createComma(a, b))
                        );
                    }
                    return F.createAssignment(
                        visitPattern(left),
                        sc('iter', visit(node.right))
                    );
                }
                if (ts.isObjectLiteralExpression(left))
                    return F.createAssignment(visitPattern(left), visit(node.right));
                // keep the node shape so that function names are inferred
                return F.updateBinaryExpression(
                    node,
                    left,
                    node.operatorToken,
                    visit(node.right)
                );
            }
            if (op === SK.CommaToken)
                return F.updateBinaryExpression(node, visit(node.left), node.operatorToken, visit(node.right));
            if (op === SK.AmpersandAmpersandToken || op === SK.BarBarToken) {
                const t = newTemp();
                const cond = sc('truth', F.createAssignment(t, visit(node.left)));
                const right = visit(node.right);
                return F.createParenthesizedExpression(
                    op === SK.AmpersandAmpersandToken
                        ? F.createConditionalExpression(cond, undefined, right, undefined, t)
                        : F.createConditionalExpression(cond, undefined, t, undefined, right)
                );
            }
            if (op === SK.QuestionQuestionToken) {
                return F.updateBinaryExpression(node, visit(node.left), node.operatorToken, visit(node.right));
            }
            if (ASG[op]) {
                const left = unparen(node.left);
                if (isMember(left)) {
                    const o = newTemp();
                    const k = newTemp();
                    return F.createParenthesizedExpression(
                        F.createComma(
                            F.createComma(
                                F.createAssignment(o, visit(left.expression)),
                                F.createAssignment(k, keyOf(left))
                            ),
                            sc('set', o, k, sc(ASG[op], sc('get', o, k), visit(node.right)))
                        )
                    );
                }
                return F.createParenthesizedExpression(
                    F.createAssignment(left, sc(ASG[op], left, visit(node.right)))
                );
            }
            if (BIN[op]) return sc(BIN[op], visit(node.left), visit(node.right));
            return ts.visitEachChild(node, visit, context);
        }

        // destructuring assignment targets stay native (identifiers only)
        function visitPattern(p) {
            p = unparen(p);
            if (ts.isIdentifier(p)) return p;
            if (ts.isArrayLiteralExpression(p))
                return F.createArrayLiteralExpression(
                    p.elements.map(e =>
                        ts.isOmittedExpression(e)
                            ? e
                            : ts.isSpreadElement(e)
                              ? F.createSpreadElement(visitPattern(e.expression))
                              : ts.isBinaryExpression(e)
                                ? F.createAssignment(visitPattern(e.left), visit(e.right))
                                : visitPattern(e)
                    )
                );
            if (ts.isObjectLiteralExpression(p))
                return F.createObjectLiteralExpression(
                    p.properties.map(q => {
                        if (ts.isPropertyAssignment(q)) {
                            const i = q.initializer;
                            return F.createPropertyAssignment(
                                q.name,
                                ts.isBinaryExpression(i)
                                    ? F.createAssignment(visitPattern(i.left), visit(i.right))
                                    : visitPattern(i)
                            );
                        }
                        return q;
                    })
                );
            return p;
        }

        function visitUpdate(node, prefix) {
            const op = node.operator === SK.PlusPlusToken ? 'add' : 'sub';
            const t = unparen(node.operand);
            const one = F.createNumericLiteral(1);
            if (isMember(t)) {
                const o = newTemp();
                const k = newTemp();
                const v = newTemp();
                const asg = [
                    F.createAssignment(o, visit(t.expression)),
                    F.createAssignment(k, keyOf(t)),
                    F.createAssignment(v, sc('toNumeric', sc('get', o, k)))
                ];
                const set = sc('set', o, k, sc(op, v, one));
                const seq = prefix ? [...asg, set] : [...asg, set, v];
                return F.createParenthesizedExpression(seq.reduce((a, b) => F.createComma(a, b)));
            }
            if (prefix)
                return F.createParenthesizedExpression(
                    F.createAssignment(t, sc(op, sc('toNumeric', t), one))
                );
            const v = newTemp();
            return F.createParenthesizedExpression(
                F.createComma(
                    F.createComma(
                        F.createAssignment(v, sc('toNumeric', t)),
                        F.createAssignment(t, sc(op, v, one))
                    ),
                    v
                )
            );
        }

        function visitCall(node) {
            const callee = unparen(node.expression);
            if (isSuper(node.expression) || node.expression.kind === SK.ImportKeyword)
                return ts.visitEachChild(node, visit, context);
            if (
                (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) &&
                isSuper(callee.expression)
            )
                return ts.visitEachChild(node, visit, context);
            if (ts.isIdentifier(callee) && (callee.text === 'require' || callee.text === 'eval'))
                return ts.visitEachChild(node, visit, context);
            if (isMember(callee))
                return sc('mcall', visit(callee.expression), keyOf(callee), visitArgs(node.arguments));
            return sc('call', visit(node.expression), visitArgs(node.arguments));
        }

        function visitObjectLiteral(node) {
            const needs = node.properties.some(
                p =>
                    ts.isSpreadAssignment(p) ||
                    p.name &&
                    ts.isComputedPropertyName(p.name) &&
                    !ts.isStringLiteral(p.name.expression) &&
                    !(
                        ts.isPropertyAccessExpression(p.name.expression) &&
                        ts.isIdentifier(p.name.expression.expression) &&
                        p.name.expression.expression.text === 'Symbol'
                    )
            );
            const simple = node.properties.every(
                p =>
                    ts.isPropertyAssignment(p) ||
                    ts.isShorthandPropertyAssignment(p) ||
                    ts.isSpreadAssignment(p)
            );
            if (!needs || !simple) return ts.visitEachChild(node, visit, context);
            return sc(
                'mkobj',
                arr(
                    node.properties.map(p => {
                        if (ts.isSpreadAssignment(p)) return arr([visit(p.expression)]);
                        if (ts.isShorthandPropertyAssignment(p))
                            return arr([str(p.name.text), p.name]);
                        if (ts.isComputedPropertyName(p.name))
                            return arr([visit(p.name.expression), visit(p.initializer)]);
                        return arr([litKey(p.name), visit(p.initializer)]);
                    })
                )
            );
        }

        function visitSwitch(node) {
            const cases = [];
            const clauses = node.caseBlock.clauses.map(c => {
                const stmts = c.statements.map(s => visitStmt(s)).flat();
                if (ts.isDefaultClause(c)) return F.createDefaultClause(stmts);
                cases.push(arrow(visitInArrow(c.expression)));
                return F.createCaseClause(F.createNumericLiteral(cases.length - 1), stmts);
            });
            return F.createSwitchStatement(
                sc('sw', visit(node.expression), arr(cases)),
                F.createCaseBlock(clauses)
            );
        }
        const visitInArrow = e => noTemps(() => visit(e));

        function visit(node) {
            if (!node) return node;
            switch (node.kind) {
                case SK.FunctionDeclaration:
                    return F.updateFunctionDeclaration(node, node.modifiers, node.asteriskToken, node.name, undefined, visitParams(node.parameters), undefined, visitFnBody(node));
                case SK.FunctionExpression:
                    return F.updateFunctionExpression(node, node.modifiers, node.asteriskToken, node.name, undefined, visitParams(node.parameters), undefined, visitFnBody(node));
                case SK.ArrowFunction:
                    return F.updateArrowFunction(node, node.modifiers, undefined, visitParams(node.parameters), undefined, node.equalsGreaterThanToken, visitFnBody(node));
                case SK.MethodDeclaration:
                    return F.updateMethodDeclaration(node, node.modifiers, node.asteriskToken, ts.visitNode(node.name, visit), undefined, undefined, visitParams(node.parameters), undefined, visitFnBody(node));
                case SK.Constructor: {
                    const id = register(node);
                    const stmts = withTemps(node.body, b => b.statements.map(s => visitStmt(s)).flat());
                    void id;
                    return F.updateConstructorDeclaration(node, node.modifiers, visitParams(node.parameters), F.createBlock(stmts, true));
                }
                case SK.GetAccessor:
                    return F.updateGetAccessorDeclaration(node, node.modifiers, ts.visitNode(node.name, visit), [], undefined, visitFnBody(node));
                case SK.SetAccessor:
                    return F.updateSetAccessorDeclaration(node, node.modifiers, ts.visitNode(node.name, visit), visitParams(node.parameters), visitFnBody(node));
                case SK.PropertyDeclaration:
                    return F.updatePropertyDeclaration(node, node.modifiers, node.name, undefined, undefined, node.initializer ? noTemps(() => visit(node.initializer)) : undefined);
                case SK.BinaryExpression:
                    return visitBinary(node);
                case SK.PrefixUnaryExpression:
                    switch (node.operator) {
                        case SK.ExclamationToken:
                            return sc('not', visit(node.operand));
                        case SK.MinusToken:
                            if (ts.isNumericLiteral(node.operand) || ts.isBigIntLiteral(node.operand)) return node;
                            return sc('neg', visit(node.operand));
                        case SK.PlusToken:
                            return sc('pos', visit(node.operand));
                        case SK.TildeToken:
                            return sc('bnot', visit(node.operand));
                        default:
                            return visitUpdate(node, true);
                    }
                case SK.PostfixUnaryExpression:
                    return visitUpdate(node, false);
                case SK.TypeOfExpression: {
                    const e = unparen(node.expression);
                    if (ts.isIdentifier(e))
                        return sc('typeof_', F.createConditionalExpression(F.createStrictEquality(F.createTypeOfExpression(e), str('undefined')), undefined, F.createVoidZero(), undefined, e));
                    return sc('typeof_', visit(e));
                }
                case SK.DeleteExpression: {
                    const e = unparen(node.expression);
                    if (isMember(e)) return sc('del', visit(e.expression), keyOf(e));
                    return node;
                }
                case SK.ConditionalExpression:
                    return F.createParenthesizedExpression(F.createConditionalExpression(truth(node.condition), undefined, visit(node.whenTrue), undefined, visit(node.whenFalse)));
                case SK.PropertyAccessExpression:
                case SK.ElementAccessExpression:
                    if (isMember(node)) return sc('get', visit(node.expression), keyOf(node));
                    return ts.visitEachChild(node, visit, context);
                case SK.CallExpression:
                    return visitCall(node);
                case SK.NewExpression:
                    return sc('new_', visit(node.expression), visitArgs(node.arguments || []));
                case SK.TemplateExpression:
                    return sc(
                        'tpl',
                        arr([str(node.head.text), ...node.templateSpans.map(s => str(s.literal.text))]),
                        arr(node.templateSpans.map(s => visit(s.expression)))
                    );
                case SK.TaggedTemplateExpression:
                    return node;
                case SK.ObjectLiteralExpression:
                    return visitObjectLiteral(node);
                case SK.SpreadElement:
                    return F.createSpreadElement(sc('iter', visit(node.expression)));
                case SK.IfStatement:
                    return F.createIfStatement(truth(node.expression), block(node.thenStatement), node.elseStatement ? (ts.isIfStatement(node.elseStatement) ? visit(node.elseStatement) : block(node.elseStatement)) : undefined);
                case SK.WhileStatement:
                    return F.createWhileStatement(sc('loop', visit(node.expression)), block(node.statement));
                case SK.DoStatement:
                    return F.createDoStatement(block(node.statement), sc('loop', visit(node.expression)));
                case SK.ForStatement: {
                    const init = node.initializer ? visit(node.initializer) : undefined;
                    return F.createForStatement(
                        init,
                        sc('loop', node.condition ? visit(node.condition) : F.createTrue()),
                        node.incrementor ? visit(node.incrementor) : undefined,
                        block(node.statement)
                    );
                }
                case SK.ForOfStatement:
                    return F.createForOfStatement(node.awaitModifier, ts.isVariableDeclarationList(node.initializer) ? node.initializer : visitPattern(node.initializer), node.awaitModifier ? visit(node.expression) : sc('iter', visit(node.expression)), block(node.statement));
                case SK.ForInStatement:
                    return F.createForOfStatement(undefined, node.initializer, sc('forin', visit(node.expression)), block(node.statement));
                case SK.SwitchStatement:
                    return visitSwitch(node);
                case SK.VariableDeclaration:
                    if (node.initializer && ts.isArrayBindingPattern(node.name))
                        return F.updateVariableDeclaration(node, ts.visitNode(node.name, visit), undefined, undefined, sc('iter', visit(node.initializer)));
                    return F.updateVariableDeclaration(node, ts.visitNode(node.name, visit), undefined, undefined, visit(node.initializer));
                case SK.BindingElement:
                    return F.updateBindingElement(node, node.dotDotDotToken, ts.visitNode(node.propertyName, visit), ts.visitNode(node.name, visit), node.initializer ? noTemps(() => visit(node.initializer)) : undefined);
                case SK.CatchClause: {
                    const v = node.variableDeclaration || F.createVariableDeclaration('__e');
                    const tmp = F.createUniqueName('__c');
                    if (ts.isIdentifier(v.name)) {
                        const b = visit(node.block);
                        return F.createCatchClause(v, F.createBlock([F.createExpressionStatement(sc('rethrow', v.name)), ...b.statements], true));
                    }
                    const b = visit(node.block);
                    return F.createCatchClause(
                        F.createVariableDeclaration(tmp),
                        F.createBlock([F.createExpressionStatement(sc('rethrow', tmp)), F.createVariableStatement(undefined, F.createVariableDeclarationList([F.createVariableDeclaration(v.name, undefined, undefined, tmp)], ts.NodeFlags.Let)), ...b.statements], true)
                    );
                }
                case SK.Block: {
                    return F.updateBlock(node, node.statements.map(s => visitStmt(s)).flat());
                }
                case SK.LabeledStatement: {
                    return F.updateLabeledStatement(node, node.label, visit(node.statement));
                }
                case SK.ClassStaticBlockDeclaration:
                    return F.updateClassStaticBlockDeclaration(node, F.createBlock(withTemps(node.body, b => b.statements.map(s => visitStmt(s)).flat()), true));
                default:
                    return ts.visitEachChild(node, visit, context);
            }
        }

        return root => {
            const stmts = withTemps(root, r => r.statements.map(s => visitStmt(s)).flat());
            return F.updateSourceFile(root, stmts);
        };
    };

    const result = ts.transform(sf, [transformer]);
    const printer = ts.createPrinter({ removeComments: true });
    const out = printer.printFile(result.transformed[0]);
    result.dispose();
    return out;
}

module.exports = { instrument, transpile };
