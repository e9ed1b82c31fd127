// usage: node tools/mutcatch.js REPO RESULTS.jsonl OUT.jsonl  -- for each surviving mutant, which check reports it first
'use strict';
const fs = require('fs'), path = require('path'), cp = require('child_process');
const [repo, list, outFile] = process.argv.slice(2);
const ORDER = { 'io-ts-http': ['C02', 'C03', 'C01', 'C13', 'C11', 'C04', 'C05'], response: ['C03', 'C12', 'C10', 'C05'], 'express-wrapper': ['C10', 'C09', 'C13', 'C05', 'C06', 'C11', 'C04'], 'typed-express-router': ['C04', 'C05', 'C06', 'C07', 'C08', 'C13'], 'superagent-wrapper': ['C12', 'C13', 'C11', 'C08'],
  'openapi-generator': ['C15', 'C14', 'C21', 'C18', 'C16', 'C17', 'C20', 'C19'] };
// runtime packages: the checks that decide what the file does
const RUN = { 'combinators.ts': ['C02', 'C11', 'C01'], 'httpRequest.ts': ['C11', 'C04', 'C22'], 'httpResponse.ts': ['C03', 'C22'], 'statusCode.ts': ['C03', 'C12', 'C10'], 'keyed-response.ts': ['C03', 'C10'], 'httpRoute.ts': ['C13', 'C06'], 'middleware.ts': ['C09', 'C10'], 'telemetry.ts': ['C07', 'C08'], 'routes.ts': ['C13', 'C12'], 'express-wrapper/src/request.ts': ['C10', 'C05', 'C09'], 'express-wrapper/src/response.ts': ['C10', 'C05'], 'packages/response/src/response.ts': ['C03'], 'typed-express-router/src/index.ts': ['C04', 'C05', 'C08', 'C13', 'C07'], 'superagent-wrapper/src/request.ts': ['C12', 'C11', 'C13'] };
const FILES = { 'optimize.ts': ['C15', 'C14', 'C19'], 'comments.ts': ['C19'], 'jsdoc.ts': ['C19', 'C21'], 'resolveInit.ts': ['C17', 'C16', 'C21', 'C14'], 'codec.ts': ['C17', 'C14', 'C21', 'C16', 'C19'], 'knownImports.ts': ['C14', 'C18', 'C16'], 'openapi.ts': ['C19', 'C14', 'C18', 'C16', 'C20'], 'route.ts': ['C18', 'C21', 'C19'], 'apiSpec.ts': ['C18', 'C21', 'C17'], 'cli.ts': ['C21', 'C20', 'C17'], 'project.ts': ['C17', 'C16', 'C21', 'C20'], 'sourceFile.ts': ['C21', 'C17', 'C19'], 'ref.ts': ['C16', 'C14'], 'symbol.ts': ['C17', 'C16', 'C21', 'C18', 'C19'] };
const done = new Set(fs.existsSync(outFile) ? fs.readFileSync(outFile, 'utf8').trim().split('\n').filter(Boolean).map((l) => JSON.parse(l).id) : []);
const muts = fs.readFileSync(list, 'utf8').trim().split('\n').map((l) => JSON.parse(l)).filter((m) => m.killed === null && !done.has(m.id));
const dir = process.env.MUT_DIR || '/tmp/mc';
if (!fs.existsSync(dir)) cp.execFileSync('cp', ['-a', repo, dir]);
for (const m of muts) {
  const f = path.join(dir, m.file), orig = fs.readFileSync(path.join(repo, m.file), 'utf8');
  fs.writeFileSync(f, orig.slice(0, m.start) + m.new + orig.slice(m.end));
  const quickOrder = RUN[path.basename(m.file)] || RUN[Object.keys(RUN).find((k) => m.file.endsWith(k))];
  const order = process.env.MUT_SHORT && m.pkg !== 'openapi-generator' && quickOrder ? quickOrder : process.env.MUT_SHORT && FILES[path.basename(m.file)] ? FILES[path.basename(m.file)].slice(0, +process.env.MUT_SHORT) : FILES[path.basename(m.file)] && m.pkg === 'openapi-generator' ? FILES[path.basename(m.file)].concat(ORDER[m.pkg].filter((c) => !FILES[path.basename(m.file)].includes(c))) : ORDER[m.pkg];
  let by = null, odd = [];
  for (const c of order) {
    const r = cp.spawnSync('timeout', ['600', process.execPath, '' + require('path').resolve(__dirname, '../lib/main.js') + '', c, 'quick'], { env: { ...process.env, VERIF_REPO: dir, VERIF_EVIDENCE: '/tmp/evmc', VERIF_MAXV: '1', VERIF_WORKERS: process.env.VERIF_WORKERS || '' }, encoding: 'utf8', maxBuffer: 1e9 });
    if (r.status === 1 && /VIOLATION/.test(r.stdout)) { by = c; break; }
    if (r.status !== 0) odd.push([c, r.status, (r.stdout + r.stderr).slice(-200)]);
  }
  fs.writeFileSync(f, orig);
  fs.appendFileSync(outFile, JSON.stringify({ ...m, by, odd }) + '\n');
}
