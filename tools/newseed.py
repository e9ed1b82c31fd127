#!/usr/bin/env python3
"""usage: newseed.py FILE  -- FILE is python defining ID, PROPERTY, NEEDS, BREAKS,
EDITS=[(path, old, new)], DEMO (javascript; `root` is the repository, `pkg(name)` loads
a built package, `load(pkg, file)` a built module, `ok(cond, what)` asserts).
Writes seeded/<ID>/ (patch.diff against /repo HEAD, demo.sh, demo.js, meta.json)."""
import sys, os, json, subprocess, shutil
PRE = r"""'use strict';
const path = require('path'), fs = require('fs'), os = require('os'), http = require('http');
const { createRequire } = require('module');
const root = process.cwd();
const req = createRequire(path.join(root, 'packages/express-wrapper/package.json'));
const reqIn = (p) => createRequire(path.join(root, 'packages', p, 'package.json'));
const load = (p, f = 'index') => require(path.join(root, 'packages', p, 'dist/src', f + '.js'));
const ok = (cond, what) => { if (!cond) { console.error('DEMO FAILED: ' + what); process.exit(1); } };
const eq = (a, b, what) => ok(require('util').isDeepStrictEqual(a, b), what + ': got ' + JSON.stringify(a) + ', expected ' + JSON.stringify(b));
for (const k of ['warn', 'info']) console[k] = () => {};
// serves an express app on the loopback interface for the duration of fn
async function serve(app, fn) {
  const server = http.createServer(app).listen(0, '127.0.0.1');
  await new Promise((r) => server.once('listening', r));
  const port = server.address().port;
  const call = (method, url, { body, headers } = {}) => new Promise((resolve, reject) => {
    const r = http.request({ host: '127.0.0.1', port, method, path: url, headers: { ...(body !== undefined ? { 'content-type': 'application/json' } : {}), ...headers }, agent: false }, (res) => {
      let text = ''; res.setEncoding('utf8'); res.on('data', (d) => (text += d));
      res.on('end', () => { let json; try { json = JSON.parse(text); } catch (e) {} resolve({ status: res.statusCode, text, json, headers: res.headers }); });
    });
    r.on('error', reject); r.setTimeout(5000, () => r.destroy(new Error('no answer'))); r.end(body === undefined ? undefined : JSON.stringify(body));
  });
  try { return await fn(call, 'http://127.0.0.1:' + port); } finally { server.close(); server.closeAllConnections && server.closeAllConnections(); }
}
// runs the generator command on a tree of source files in a scratch directory
function generate(files, { entry = 'index.ts', args = [] } = {}) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-gen-'));
  try {
    for (const [f, s] of Object.entries(files)) { fs.mkdirSync(path.dirname(path.join(dir, f)), { recursive: true }); fs.writeFileSync(path.join(dir, f), s); }
    const r = require('child_process').spawnSync(process.execPath, [path.join(root, 'packages/openapi-generator/dist/src/cli.js'), path.join(dir, entry), ...args], { encoding: 'utf8', timeout: 60000 });
    let doc; try { doc = JSON.parse(r.stdout); } catch (e) {}
    return { code: r.status, stdout: r.stdout, stderr: r.stderr, doc };
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
process.on('unhandledRejection', (e) => { console.error('DEMO FAILED: ' + (e && e.stack || e)); process.exit(1); });
(async () => {
"""
POST = r"""
})().then(() => { console.log('ok'); process.exit(0); }, (e) => { console.error('DEMO FAILED: ' + (e && e.stack || e)); process.exit(1); });
"""
R = os.environ.get('SEED_REPO', '/repo')
ns = {}
exec(open(sys.argv[1]).read(), ns)
seeds = ns.get('SEEDS') or [ns]
for s in seeds:
    V = '/verif/seeded/' + s['ID']
    W = '/tmp/seedgen'
    if not os.path.isdir(W):
        subprocess.check_call(['git', 'clone', '-q', R, W])
    head = subprocess.check_output(['git', '-C', R, 'rev-parse', 'HEAD']).decode().strip()
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--force', '--detach', head])
    for f, old, new in s['EDITS']:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (s['ID'], f, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', W, 'diff']).decode()
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
    os.makedirs(V, exist_ok=True)
    open(V + '/patch.diff', 'w').write(diff)
    open(V + '/demo.js', 'w').write(PRE + s['DEMO'].strip('\n') + POST)
    open(V + '/demo.sh', 'w').write('#!/bin/bash\nexec node "$(dirname "$0")/demo.js"\n')
    os.chmod(V + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(V + '/meta.json', 'w'), indent=1)
    print('wrote', s['ID'])
shutil.rmtree(W, ignore_errors=True)
