'use strict';
// Type-checks probe files against the *sources* of the packages of the current
// working tree with the repository's own TypeScript and compiler options. The
// probes exist in memory only; '@api-ts/*' is resolved to the packages' sources.
const fs = require('fs');
const path = require('path');
const { REPO } = require('./build');

module.exports = types;
module.exports.valueType = (v) => valueType(v);
function types(b) {
  const ts = b.ts;
  const base = ts.parseConfigFileTextToJson('tsconfig.json', fs.readFileSync(path.join(REPO, 'tsconfig.json'), 'utf8')).config.compilerOptions;
  const options = ts.convertCompilerOptionsFromJson(base, REPO).options;
  for (const k of ['composite', 'declaration', 'declarationMap', 'incremental', 'sourceMap', 'emitDecoratorMetadata', 'noUnusedLocals', 'noUnusedParameters']) delete options[k];
  Object.assign(options, { noEmit: true, skipLibCheck: true, types: [], baseUrl: REPO, paths: { '@api-ts/*': ['packages/*/src/index.ts'] } });
  const probe = path.join(REPO, 'packages', 'express-wrapper', 'src', '__vmc_probe__.ts');
  let text = '', version = 0;
  const snapshots = new Map();
  const host = {
    getCompilationSettings: () => options,
    getScriptFileNames: () => [probe],
    getScriptVersion: (f) => (f === probe ? String(version) : '0'),
    getScriptSnapshot: (f) => {
      if (f === probe) return ts.ScriptSnapshot.fromString(text);
      if (!snapshots.has(f)) { const s = ts.sys.readFile(f); snapshots.set(f, s === undefined ? undefined : ts.ScriptSnapshot.fromString(s)); }
      return snapshots.get(f);
    },
    getCurrentDirectory: () => REPO,
    getDefaultLibFileName: (o) => ts.getDefaultLibFilePath(o),
    fileExists: (f) => f === probe || ts.sys.fileExists(f), readFile: (f) => (f === probe ? text : ts.sys.readFile(f)),
    readDirectory: ts.sys.readDirectory, directoryExists: ts.sys.directoryExists, getDirectories: ts.sys.getDirectories, realpath: ts.sys.realpath,
  };
  const service = ts.createLanguageService(host, ts.createDocumentRegistry());
  const codes = (m) => (typeof m === 'string' ? [] : [m.code, ...(m.next || []).flatMap(codes)]);
  // lines: array of source lines -> Map(line index -> [{code, codes, text}])
  function check(lines) {
    text = lines.join('\n') + '\n'; version++;
    const syntactic = service.getSyntacticDiagnostics(probe);
    if (syntactic.length) throw new Error('probe does not parse: ' + ts.flattenDiagnosticMessageText(syntactic[0].messageText, '\n') + '\n' + text);
    const out = new Map();
    const sf = service.getProgram().getSourceFile(probe);
    for (const d of service.getSemanticDiagnostics(probe)) {
      const line = sf.getLineAndCharacterOfPosition(d.start).line;
      if (!out.has(line)) out.set(line, []);
      out.get(line).push({ code: d.code, codes: [d.code, ...codes(d.messageText)], text: ts.flattenDiagnosticMessageText(d.messageText, ' / ') });
    }
    return out;
  }
  return { check, valueType };
}

// the type that exactly one JavaScript value has
function valueType(v) {
  if (v === undefined) return 'undefined';
  if (v === null || typeof v !== 'object') return JSON.stringify(v);
  if (Array.isArray(v)) return `[${v.map(valueType).join(', ')}]`;
  return `{ ${Object.keys(v).map((k) => `${JSON.stringify(k)}: ${valueType(v[k])};`).join(' ')} }`;
}
