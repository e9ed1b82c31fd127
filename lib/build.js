'use strict';
// Builds /repo's packages from the *current working tree* into a private scratch
// directory (removed at exit), so that no check depends on /repo's own dist/ or
// on what another run left behind.
const fs = require('fs');
const os = require('os');
const path = require('path');
const { createRequire } = require('module');

const REPO = process.env.VERIF_REPO || '/repo';
const scratchDirs = new Set();
function scratch(prefix) {
  const base = process.env.VERIF_SCRATCH_BASE || os.tmpdir();
  const d = fs.mkdtempSync(path.join(base, prefix));
  const real = fs.realpathSync(d);
  scratchDirs.add(real);
  return real;
}
function removeScratch() {
  for (const d of scratchDirs) {
    // only ever directories made by mkdtemp above
    if (/\/vmc-[a-z0-9]+-[A-Za-z0-9]{6}$/.test(d)) fs.rmSync(d, { recursive: true, force: true });
  }
  scratchDirs.clear();
}
process.on('exit', removeScratch);
for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2));

function walk(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const f = path.join(dir, e.name);
    if (e.isDirectory()) { if (e.name !== 'node_modules') walk(f, out); }
    else if (e.isFile()) out.push(f);
  }
  return out;
}

const PACKAGES = ['response', 'io-ts-http', 'typed-express-router', 'express-wrapper', 'superagent-wrapper', 'openapi-generator'];

function build() {
  const ts = createRequire(path.join(REPO, 'package.json'))('typescript');
  const W = scratch('vmc-build-');
  const base = ts.parseConfigFileTextToJson('tsconfig.json', fs.readFileSync(path.join(REPO, 'tsconfig.json'), 'utf8')).config.compilerOptions;
  const converted = ts.convertCompilerOptionsFromJson(base, REPO).options;
  for (const k of ['composite', 'declaration', 'declarationMap', 'incremental', 'sourceMap', 'lib', 'emitDecoratorMetadata']) delete converted[k];
  fs.mkdirSync(path.join(W, 'node_modules', '@api-ts'), { recursive: true });
  for (const e of fs.readdirSync(path.join(REPO, 'node_modules'))) {
    if (e === '@api-ts' || e === '.bin') continue;
    fs.symlinkSync(path.join(REPO, 'node_modules', e), path.join(W, 'node_modules', e));
  }
  const known = fs.readdirSync(path.join(REPO, 'packages')).filter((p) => fs.existsSync(path.join(REPO, 'packages', p, 'package.json')) && fs.existsSync(path.join(REPO, 'packages', p, 'src')));
  for (const p of known) {
    const from = path.join(REPO, 'packages', p), to = path.join(W, 'packages', p);
    fs.mkdirSync(to, { recursive: true });
    fs.copyFileSync(path.join(from, 'package.json'), path.join(to, 'package.json'));
    if (fs.existsSync(path.join(from, 'node_modules'))) fs.symlinkSync(path.join(from, 'node_modules'), path.join(to, 'node_modules'));
    for (const f of walk(path.join(from, 'src'))) {
      const rel = path.relative(from, f);
      const dst = path.join(to, 'dist', rel);
      fs.mkdirSync(path.dirname(dst), { recursive: true });
      if (/\.d\.ts$/.test(f)) continue;
      if (/\.tsx?$/.test(f)) {
        const out = ts.transpileModule(fs.readFileSync(f, 'utf8'), { compilerOptions: converted, fileName: f, reportDiagnostics: true });
        const bad = (out.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
        if (bad.length) throw new Error(`cannot transpile ${f}: ${ts.flattenDiagnosticMessageText(bad[0].messageText, '\n')}`);
        fs.writeFileSync(dst.replace(/\.tsx?$/, '.js'), out.outputText);
      } else fs.copyFileSync(f, dst);
    }
    const name = JSON.parse(fs.readFileSync(path.join(to, 'package.json'), 'utf8')).name;
    if (name.startsWith('@api-ts/')) fs.symlinkSync(to, path.join(W, 'node_modules', name));
  }
  return attach(W);
}

function attach(W) {
  const req = createRequire(path.join(W, 'packages', 'openapi-generator', 'x.js'));
  return {
    root: W,
    get ts() { return createRequire(path.join(REPO, 'package.json'))('typescript'); },
    require: req,
    pkg: (p) => req(p.startsWith('@') ? p : '@api-ts/' + p),
    // drop every module of the code under test (not third-party ones) so the next require is a fresh instance
    fresh() {
      const pre = path.join(W, 'packages') + path.sep;
      for (const k of Object.keys(require.cache)) if (k.startsWith(pre)) delete require.cache[k];
    },
    file: (p, rel) => path.join(W, 'packages', p, 'dist', 'src', rel),
  };
}

module.exports = { build, attach, scratch, removeScratch, REPO, PACKAGES };
