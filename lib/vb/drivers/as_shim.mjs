// AssemblyScript -> JavaScript, for the generated code only: integers are wrapped to their types at every declaration, assignment to a typed
// name, argument, return and cast, 64-bit integers are BigInts; everything else of the language that the generated code uses means the same in JavaScript.
// argv: pairs.json ([[in, out]]), errors.json
import * as fs from 'fs';
import { createRequire } from 'module';
const ts = createRequire(process.argv[4])('typescript');
const INT = { u8: 1, i8: 1, u16: 1, i16: 1, u32: 1, i32: 1, u64: 1, i64: 1, usize: 1, isize: 1, f32: 1, f64: 1, bool: 1 };
const PRELUDE = `import { __as, __bin, __arr, __neg } from "./as_runtime.mjs";\n`;
const F = ts.factory;
const call = (f, ...a) => F.createCallExpression(F.createIdentifier(f), undefined, a);
const str = s => F.createStringLiteral(s);
const typeName = t => t && ts.isTypeReferenceNode(t) && ts.isIdentifier(t.typeName) && INT[t.typeName.text] ? t.typeName.text : t && t.kind === ts.SyntaxKind.BooleanKeyword ? 'bool' : t && t.kind === ts.SyntaxKind.NumberKeyword ? 'f64' : null;
const BIN = { [ts.SyntaxKind.PlusToken]: '+', [ts.SyntaxKind.MinusToken]: '-', [ts.SyntaxKind.AsteriskToken]: '*', [ts.SyntaxKind.SlashToken]: '/', [ts.SyntaxKind.PercentToken]: '%', [ts.SyntaxKind.AmpersandToken]: '&', [ts.SyntaxKind.BarToken]: '|', [ts.SyntaxKind.CaretToken]: '^', [ts.SyntaxKind.LessThanLessThanToken]: '<<', [ts.SyntaxKind.GreaterThanGreaterThanToken]: '>>' };
const ASG = { [ts.SyntaxKind.PlusEqualsToken]: '+', [ts.SyntaxKind.MinusEqualsToken]: '-', [ts.SyntaxKind.AsteriskEqualsToken]: '*' };
const LIMITS = {};
for (const [t, b] of [['8', 8n], ['16', 16n], ['32', 32n], ['64', 64n], ['size', 32n]]) for (const u of ['u', 'i']) for (const m of ['MIN_VALUE', 'MAX_VALUE']) {
  const v = m === 'MAX_VALUE' ? (1n << (u === 'u' ? b : b - 1n)) - 1n : u === 'u' ? 0n : -(1n << (b - 1n));
  LIMITS[`${u}${t}.${m}`] = () => call('__as', F.createStringLiteral(u + t), call('BigInt', F.createStringLiteral(String(v))));
}
// builtins of the language that have no counterpart here
const BUILTINS = new Set('memory load store changetype StaticArray sizeof alignof offsetof select clz ctz popcnt rotl rotr min max abs add sub mul div eq ne heap abort trace idof nameof assert instantiate isInteger isFloat isSigned isString isArray isNullable isReference isDefined isConstant unreachable bswap reinterpret v128 ASC_TARGET Crypto process console i8x16 usize isize u8 i8 u16 i16 u32 i32 u64 i64 f32 f64 bool __new __pin __unpin __renew __alloc __free'.split(' '));
function unknown(sf) {   // the first builtin that is used and not declared in the file
  const declared = new Set(); let found = null;
  const decl = n => { if ((ts.isFunctionDeclaration(n) || ts.isClassDeclaration(n) || ts.isVariableDeclaration(n) || ts.isParameter(n) || ts.isEnumDeclaration(n) || ts.isImportSpecifier(n) || ts.isModuleDeclaration(n)) && n.name && ts.isIdentifier(n.name)) declared.add(n.name.text); ts.forEachChild(n, decl); };
  decl(sf);
  const use = n => {
    if ((ts.isCallExpression(n) || ts.isNewExpression(n) || ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) && ts.isIdentifier(n.expression)) {
      const f = n.expression.text;
      if (BUILTINS.has(f) && !declared.has(f) && !(INT[f] && (ts.isPropertyAccessExpression(n) || ts.isCallExpression(n) && !n.typeArguments && n.arguments.length === 1))) found = found || f;
    }
    ts.forEachChild(n, use);
  };
  use(sf);
  return found;
}
// declared types of properties, by class, for assignments this.x = e
function transformer(ctx) {
  const fn = [];
  function visit(n) {
    if (ts.isDecorator(n)) return undefined;   // @inline and the like
    if (ts.isAsExpression(n)) { const e = ts.visitNode(n.expression, visit), t = typeName(n.type); return t ? call('__as', str(t), e) : e; }
    if (ts.isVariableDeclaration(n) || ts.isPropertyDeclaration(n)) {
      const t = typeName(n.type); let init = n.initializer && ts.visitNode(n.initializer, visit);
      if (t) init = call('__as', str(t), init || F.createNumericLiteral(0));
      return ts.isVariableDeclaration(n) ? F.updateVariableDeclaration(n, n.name, undefined, n.type, init) : F.updatePropertyDeclaration(n, n.modifiers, n.name, n.questionToken || n.exclamationToken, n.type, init);
    }
    if (ts.isReturnStatement(n) && n.expression) { const e = ts.visitNode(n.expression, visit), t = fn.length && fn[fn.length - 1]; return F.updateReturnStatement(n, t ? call('__as', str(t), e) : e); }
    if (ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n)) {
      fn.push(typeName(n.type)); const m = ts.visitEachChild(n, visit, ctx); fn.pop();
      if (!m.body || !ts.isBlock(m.body)) return m;
      const pre = n.parameters.filter(p => typeName(p.type) && ts.isIdentifier(p.name)).map(p => F.createExpressionStatement(F.createAssignment(F.createIdentifier(p.name.text), call('__as', str(typeName(p.type)), F.createIdentifier(p.name.text)))));
      if (!pre.length) return m;
      const body = F.updateBlock(m.body, [...pre, ...m.body.statements]);
      if (ts.isFunctionDeclaration(m)) return F.updateFunctionDeclaration(m, m.modifiers, m.asteriskToken, m.name, m.typeParameters, m.parameters, m.type, body);
      if (ts.isMethodDeclaration(m)) return F.updateMethodDeclaration(m, m.modifiers, m.asteriskToken, m.name, m.questionToken, m.typeParameters, m.parameters, m.type, body);
      if (ts.isConstructorDeclaration(m)) return F.updateConstructorDeclaration(m, m.modifiers, m.parameters, body);
      return m;
    }
    if (ts.isNewExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'Array') {
      const t = n.typeArguments && n.typeArguments[0]; const nm = t && (typeName(t) || (t.kind === ts.SyntaxKind.StringKeyword ? 'string' : 'ref')) || 'ref';
      return call('__arr', str(nm), ...(n.arguments || []).map(a => ts.visitNode(a, visit)));
    }
    if (ts.isNewExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'Uint8Array') return F.updateNewExpression(n, n.expression, undefined, (n.arguments || []).map(a => call('__as', str('u32'), ts.visitNode(a, visit))));
    if (ts.isTypeAssertionExpression && ts.isTypeAssertionExpression(n)) { const e = ts.visitNode(n.expression, visit), t = typeName(n.type); return t ? call('__as', str(t), e) : e; }
    if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && !n.typeArguments) {
      const f = n.expression.text;
      if (INT[f] && n.arguments.length === 1) return call('__as', str(f), ts.visitNode(n.arguments[0], visit));
      if (f === 'unchecked' && n.arguments.length === 1) return ts.visitNode(n.arguments[0], visit);
    }
    if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && INT[n.expression.text]) { const v = LIMITS[n.expression.text + '.' + n.name.text]; if (!v) throw new Error('builtin ' + n.getText()); return v(); }
    if (ts.isBinaryExpression(n)) {
      const q = { [ts.SyntaxKind.EqualsEqualsEqualsToken]: ts.SyntaxKind.EqualsEqualsToken, [ts.SyntaxKind.ExclamationEqualsEqualsToken]: ts.SyntaxKind.ExclamationEqualsToken }[n.operatorToken.kind];   // they mean the same in AssemblyScript
      if (q) return F.createBinaryExpression(ts.visitNode(n.left, visit), q, ts.visitNode(n.right, visit));
      const k = n.operatorToken.kind;
      if (BIN[k]) return call('__bin', str(BIN[k]), ts.visitNode(n.left, visit), ts.visitNode(n.right, visit));
      if (ASG[k]) return F.createAssignment(ts.visitNode(n.left, visit), call('__bin', str(ASG[k]), ts.visitNode(n.left, visit), ts.visitNode(n.right, visit)));
    }
    return ts.visitEachChild(n, visit, ctx);
  }
  return s => ts.visitNode(s, visit);
}
const errs = [];
for (const [i, o] of JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))) {
  try {
    const src = fs.readFileSync(i, 'utf8');
    const sf = ts.createSourceFile(i, src, ts.ScriptTarget.ES2022, true);
    if (sf.parseDiagnostics.length) { errs.push((/^\s*@\w+/m.test(src) ? 'decorators: ' : '') + 'does not parse: ' + ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, ' ') + ' at ' + sf.parseDiagnostics[0].start); continue; }
    const u = unknown(sf); if (u) { errs.push('builtin ' + u + ' is not emulated'); continue; }
    const r = ts.transpileModule(src, { compilerOptions: { target: 'ES2022', module: 'ESNext', useDefineForClassFields: true }, transformers: { before: [transformer] }, reportDiagnostics: true });
    fs.writeFileSync(o, PRELUDE + r.outputText); errs.push(null);
  } catch (e) { errs.push(String(e && e.stack || e)); }
}
fs.writeFileSync(process.argv[3], JSON.stringify(errs));
