// usage: node tools/mutants.js REPO PACKAGE  -> prints one JSON mutant per line
// {id, file, start, end, old, new, line, kind}; every one of them type-checks.
'use strict';
const path = require('path'), fs = require('fs');
const { createRequire } = require('module');
const [repo, pkg] = process.argv.slice(2);
const ts = createRequire(path.join(repo, 'packages', pkg, 'package.json'))('typescript');
const dir = path.join(repo, 'packages', pkg);
const cfgFile = path.join(dir, 'tsconfig.json');
const cfg = ts.getParsedCommandLineOfConfigFile(cfgFile, {}, { ...ts.sys, onUnRecoverableConfigFileDiagnostic: (d) => { throw new Error(d.messageText); } });
const src = cfg.fileNames.filter((f) => f.includes('/src/'));
const over = new Map(), ver = new Map();
const host = {
  getCompilationSettings: () => ({ ...cfg.options, noEmit: true, composite: false, incremental: false }), getScriptFileNames: () => src, getScriptVersion: (f) => String(ver.get(f) || 0),
  getScriptSnapshot: (f) => { const t = over.has(f) ? over.get(f) : ts.sys.readFile(f); return t === undefined ? undefined : ts.ScriptSnapshot.fromString(t); },
  getCurrentDirectory: () => dir, getDefaultLibFileName: (o) => ts.getDefaultLibFilePath(o), fileExists: ts.sys.fileExists, readFile: ts.sys.readFile, readDirectory: ts.sys.readDirectory, directoryExists: ts.sys.directoryExists, getDirectories: ts.sys.getDirectories, realpath: ts.sys.realpath,
  getProjectReferences: () => cfg.projectReferences,
};
const service = ts.createLanguageService(host, ts.createDocumentRegistry());
const K = ts.SyntaxKind;
let n = 0;
for (const file of src) {
  const text = fs.readFileSync(file, 'utf8');
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
  const muts = [];
  const add = (node, rep, kind, start = node.getStart(), end = node.end) => muts.push({ start, end, new: rep, kind });
  const visit = (node) => {
    if (ts.isTypeNode(node) || ts.isInterfaceDeclaration(node) || ts.isTypeAliasDeclaration(node) || ts.isImportDeclaration(node)) return;
    const T = (x) => x.getText();
    if (ts.isBinaryExpression(node)) {
      const o = node.operatorToken.kind, ot = node.operatorToken;
      const swap = { [K.EqualsEqualsEqualsToken]: '!==', [K.ExclamationEqualsEqualsToken]: '===', [K.AmpersandAmpersandToken]: '||', [K.BarBarToken]: '&&', [K.LessThanToken]: '<=', [K.LessThanEqualsToken]: '<', [K.GreaterThanToken]: '>=', [K.GreaterThanEqualsToken]: '>' }[o];
      if (swap) add(ot, swap, 'op');
      if (o === K.AmpersandAmpersandToken || o === K.BarBarToken || o === K.QuestionQuestionToken) { add(node, T(node.left), 'left'); add(node, T(node.right), 'right'); }
    }
    if (ts.isIfStatement(node)) { add(node.expression, 'true as boolean', 'if-true'); add(node.expression, 'false as boolean', 'if-false'); if (node.elseStatement) add(node, T(node.expression) , 'x'), muts.pop(); }
    if (ts.isConditionalExpression(node)) { add(node, `(${T(node.whenTrue)})`, 'cond-true'); add(node, `(${T(node.whenFalse)})`, 'cond-false'); }
    if (ts.isExpressionStatement(node)) add(node, ';', 'drop-stmt');
    if ((ts.isReturnStatement(node) && ts.isIfStatement(node.parent.parent || node)) || ts.isContinueStatement(node) || ts.isBreakStatement(node) && !ts.isCaseClause(node.parent)) add(node, ';', 'drop-jump');
    if (ts.isThrowStatement(node)) add(node, ';', 'drop-throw');
    if (ts.isPrefixUnaryExpression(node) && node.operator === K.ExclamationToken) add(node, T(node.operand), 'not');
    if (node.kind === K.TrueKeyword) add(node, 'false', 'bool'); if (node.kind === K.FalseKeyword) add(node, 'true', 'bool');
    if (ts.isNumericLiteral(node)) add(node, String(Number(node.text) + 1), 'num');
    if (ts.isStringLiteral(node) && !ts.isLiteralTypeNode(node.parent) && !ts.isPropertyAssignment(node.parent) && !ts.isImportDeclaration(node.parent)) { if (node.text !== '') add(node, "''", 'str'); }
    if (ts.isCallExpression(node) && ts.isPropertyAccessExpression(node.expression)) {
      const m = node.expression.name.text;
      if (['filter', 'trim', 'sort', 'reverse', 'slice', 'replace', 'concat', 'toLowerCase', 'toUpperCase', 'map', 'trimEnd', 'trimStart', 'flat'].includes(m)) add(node, T(node.expression.expression), 'drop-' + m);
      if (m === 'some') add(node.expression.name, 'every', 'some'); if (m === 'every') add(node.expression.name, 'some', 'every');
    }
    if (ts.isObjectLiteralExpression(node) || ts.isArrayLiteralExpression(node)) {
      const els = node.properties || node.elements;
      els.forEach((e, i) => { const rest = els.filter((x, j) => j !== i).map(T).join(', '); add(node, ts.isObjectLiteralExpression(node) ? `{ ${rest} }` : `[${rest}]`, 'drop-element'); });
      if (els.length > 1 && els.some((e) => ts.isSpreadAssignment(e))) for (let i = 0; i + 1 < els.length; i++) { const a = [...els]; [a[i], a[i + 1]] = [a[i + 1], a[i]]; add(node, `{ ${a.map(T).join(', ')} }`, 'swap'); }
    }
    if (ts.isAwaitExpression(node)) add(node, T(node.expression), 'no-await');
    if (ts.isCallExpression(node) && node.arguments.length === 2) add(node, `${T(node.expression)}(${T(node.arguments[1])}, ${T(node.arguments[0])})`, 'swap-args');
    if (ts.isCallExpression(node) && node.arguments.length > 1) add(node, `${T(node.expression)}(${node.arguments.slice(0, -1).map(T).join(', ')})`, 'drop-arg');
    ts.forEachChild(node, visit);
  };
  visit(sf);
  const seen = new Set();
  for (const m of muts) {
    const out = text.slice(0, m.start) + m.new + text.slice(m.end);
    if (out === text || seen.has(out)) continue; seen.add(out);
    over.set(file, out); ver.set(file, (ver.get(file) || 0) + 1);
    const bad = [];
    for (const f of src) { bad.push(...service.getSyntacticDiagnostics(f), ...(bad.length ? [] : service.getSemanticDiagnostics(f))); if (bad.length) break; }
    if (bad.length === 0) process.stdout.write(JSON.stringify({ id: `${pkg}-${++n}`, pkg, file: path.relative(repo, file), line: sf.getLineAndCharacterOfPosition(m.start).line + 1, start: m.start, end: m.end, old: text.slice(m.start, m.end), new: m.new, kind: m.kind }) + '\n');
  }
  over.delete(file); ver.set(file, ver.get(file) + 1 || 1);
}
