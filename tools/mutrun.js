// usage: node tools/mutrun.js REPO MUTANTS.jsonl OUT.jsonl WORKERS
// keeps the mutants that the package's tests (and those of packages that use it) pass
'use strict';
const fs = require('fs'), path = require('path'), cp = require('child_process');
const { createRequire } = require('module');
const [repo, list, outFile, W] = process.argv.slice(2);
const muts = fs.readFileSync(list, 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const done = new Set(fs.existsSync(outFile) ? fs.readFileSync(outFile, 'utf8').trim().split('\n').filter(Boolean).map((l) => JSON.parse(l).id) : []);
const queue = muts.filter((m) => !done.has(m.id));
const USERS = { 'io-ts-http': ['io-ts-http', 'superagent-wrapper', 'express-wrapper', 'typed-express-router'], response: ['io-ts-http', 'express-wrapper', 'typed-express-router', 'superagent-wrapper'], 'express-wrapper': ['express-wrapper', 'typed-express-router', 'superagent-wrapper'], 'typed-express-router': ['typed-express-router'], 'superagent-wrapper': ['superagent-wrapper', 'express-wrapper', 'typed-express-router'], 'openapi-generator': ['openapi-generator'] };
const ts = createRequire(path.join(repo, 'packages/io-ts-http/package.json'))('typescript');
function sh(cmd, cwd, ms) { return new Promise((r) => { const c = cp.spawn('timeout', ['-k', '5', String(ms / 1000), 'unshare', '-n', 'bash', '-c', 'ip link set lo up; ' + cmd], { cwd, stdio: 'ignore' }); c.on('exit', (code) => r(code)); }); }
async function worker(i) {
  const dir = `/tmp/mw${i}`;
  if (!fs.existsSync(dir)) { cp.execFileSync('git', ['clone', '-q', repo, dir + '.git0']); fs.rmSync(dir + '.git0', { recursive: true }); cp.execFileSync('cp', ['-a', repo, dir]); }
  for (;;) {
    const m = queue.shift(); if (!m) return;
    const f = path.join(dir, m.file), orig = fs.readFileSync(path.join(repo, m.file), 'utf8');
    const out = orig.slice(0, m.start) + m.new + orig.slice(m.end);
    const dist = f.replace('/src/', '/dist/src/').replace(/\.ts$/, '.js'); const distOrig = fs.existsSync(dist) ? fs.readFileSync(dist) : null;
    fs.writeFileSync(f, out);
    if (distOrig) fs.writeFileSync(dist, ts.transpileModule(out, { compilerOptions: { module: 'commonjs', target: 'es2022', esModuleInterop: true } }).outputText);
    let fail = null;
    for (const p of USERS[m.pkg]) {
      const pdir = path.join(dir, 'packages', p);
      if (!fs.existsSync(pdir + '/test')) continue;
      const globs = { 'express-wrapper': 'test/*.ts', 'typed-express-router': 'test/*.ts', 'openapi-generator': 'test/*.test.ts test/*/*.test.ts' }[p] || 'test/*.test.ts';
      const code = await sh(`node --require @swc-node/register --test --test-timeout=20000 ${globs}`, pdir, 90000);
      if (code !== 0) { fail = p; break; }
    }
    fs.writeFileSync(f, orig); if (distOrig) fs.writeFileSync(dist, distOrig);
    fs.appendFileSync(outFile, JSON.stringify({ ...m, killed: fail }) + '\n');
  }
}
(async () => { await Promise.all([...Array(Number(W)).keys()].map(worker)); })();
