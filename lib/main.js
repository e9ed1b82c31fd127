'use strict';
// usage: node lib/main.js <property> [quick|thorough] [--replay FILE] [--jobs N]
const fs = require('fs');
const path = require('path');
const cp = require('child_process');
const os = require('os');
const { build, attach, scratch, removeScratch } = require('./build');
const { explore, runOnce, show } = require('./explore');

const ROOT = path.resolve(__dirname, '..');
const CHECKS = fs.readdirSync(path.join(ROOT, 'checks')).filter((f) => /^C\d+.*\.js$/.test(f));
function loadCheck(id) {
  const f = CHECKS.find((x) => x.startsWith(id));
  if (!f) throw new Error('no check ' + id);
  return require(path.join(ROOT, 'checks', f));
}
function quietConsole() {
  // the code under test logs; keep stdout for our own lines
  console.warn = () => {};
  console.error = () => {};
  console.info = () => {};
}

const MAXV = Number(process.env.VERIF_MAXV) || 6;

async function worker(id, tier, W, progressFile) {
  const check = loadCheck(id);
  const known = readKnown(id);
  const b = attach(W);
  const fd = fs.openSync(progressFile, 'w+');
  if (!process.env.VERIF_DEBUG) quietConsole();
  let all;
  try { all = await check.scenarios(b, tier); } catch (e) {
    // on a tree that builds, only the code under test can fail here
    process.send({ type: 'setup', error: (e && e.stack) || String(e) });
    return;
  }
  const scenarios = all.filter((s) => !process.env.VERIF_ONLY || process.env.VERIF_ONLY.split(',').includes(s.name));
  const byName = new Map(scenarios.map((s) => [s.name, s]));
  process.on('message', async (m) => {
    if (m.type === 'exit') { removeScratch(); process.exit(0); }
    const s = byName.get(m.scenario);
    try {
      const out = [];
      for (let k = m.from; k < m.to; k++) {
        const deadline = m.deadline;
        if (Date.now() > deadline) { out.push({ skipped: true }); continue; }
        let fixed; let caseNo = k;
        if (s.shards) { const m = s.shards.reduce((a, x) => a * x, 1); let r = k % m; caseNo = Math.floor(k / m); fixed = s.shards.slice().reverse().map((n) => { const v = r % n; r = Math.floor(r / n); return v; }).reverse(); }
        let part; if (s.split) { part = [caseNo % s.split, s.split]; caseNo = Math.floor(caseNo / s.split); }
        const st = await explore(s.run, caseNo, {
          part,
          fixed,
          deviations: s.deviations,
          deadline,
          isKnown: (key) => known.has(key),
          progress: (prefix, n) => { const t = JSON.stringify({ scenario: s.name, case: k, n, prefix }); const buf = Buffer.from(t.padEnd(Math.min(8000, t.length + 512))); fs.writeSync(fd, buf, 0, buf.length, 0); },
        });
        out.push({ ...st, observations: [...st.observations] });
      }
      process.send({ type: 'done', scenario: m.scenario, out });
    } catch (e) {
      process.send({ type: 'error', scenario: m.scenario, error: (e && e.stack) || String(e) });
    }
  });
  process.send({ type: 'ready', scenarios: scenarios.map((s) => ({ name: s.name, cases: (s.cases || 1) * (s.split || 1) * (s.shards || []).reduce((a, x) => a * x, 1), chunk: s.chunk || 1, deviations: s.deviations, what: s.what })) });
}

function readKnown(id) {
  const f = path.join(ROOT, 'known-findings.jsonl');
  if (!fs.existsSync(f)) return new Map();
  const m = new Map();
  for (const line of fs.readFileSync(f, 'utf8').split('\n')) {
    if (!line.trim() || line.startsWith('fixed:') || line.startsWith('#')) continue;
    const o = JSON.parse(line);
    if (o.property === id && o.status !== 'fixed') m.set(o.key, o);
  }
  return m;
}

async function main() {
  const args = process.argv.slice(2);
  const id = args[0];
  const tier = args.includes('thorough') ? 'thorough' : args.includes('quick') ? 'quick' : process.env.VERIF_TIER || 'quick';
  if (process.env.VERIF_WORKER) return worker(id, tier, process.env.VERIF_WORKER, process.env.VERIF_PROGRESS);
  const started = Date.now();
  const check = loadCheck(id);
  const b = build();
  if (args.includes('--replay')) {
    const rec = JSON.parse(fs.readFileSync(args[args.indexOf('--replay') + 1], 'utf8'));
    if (!process.env.VERIF_DEBUG) quietConsole();
    const s = (await check.scenarios(b, rec.tier || tier)).find((x) => x.name === rec.scenario);
    const { c, violation } = await runOnce(s.run, rec.choices, rec.case);
    console.log(c.trail().join('\n'));
    console.log('observed:', c.obs.join('\n'));
    if (violation) { console.log(`VIOLATION property=${id} replay=${args[args.indexOf('--replay') + 1]}`); console.log(violation.key, '::', violation.message, violation.detail === undefined ? '' : show(violation.detail)); }
    else console.log('no violation on isolated replay');
    removeScratch();
    process.exit(violation ? 1 : 0);
  }
  const budget = (tier === 'thorough' ? 3600 * 1.5 : Number(process.env.VERIF_BUDGET_S || 600)) * 1000;
  const deadline = started + budget;
  const known = readKnown(id);
  const jobsN = args.includes('--jobs') ? Number(args[args.indexOf('--jobs') + 1]) : Math.min(check.jobs || 8, os.cpus().length);
  const replays = process.env.VERIF_EVIDENCE || path.join(ROOT, 'replays');
  const progressDir = scratch('vmc-prog-');

  const total = { executions: 0, pruned: 0, states: 0, transitions: 0, maxDepth: 0, capped: false };
  const observations = new Set();
  const per = {};
  const samples = [];
  const found = []; // unlisted violations
  const seenKeys = new Set();
  const seenKnown = new Map();
  let harnessError;

  let queue; let scenarioInfo;
  const workers = [];
  let finishOne; const finished = new Promise((r) => { finishOne = r; });
  let active = 0, stopped = false;

  function take(w) {
    if (stopped || !queue || queue.length === 0) { w.job = undefined; if (--active === 0) finishOne(); return; }
    const job = queue.shift();
    w.job = job; w.lastProgress = Date.now(); w.lastText = '';
    w.proc.send({ ...job, deadline });
  }
  function record(v, scenario) {
    const k = known.get(v.key);
    if (k) { if (!seenKnown.has(v.key)) seenKnown.set(v.key, { ...k, v }); return; }
    if (seenKeys.has(v.key) || found.length >= MAXV) return;
    seenKeys.add(v.key);
    found.push({ ...v, scenario });
    if (found.length >= MAXV) stopped = true;
  }
  function spawn(i) {
    const progress = path.join(progressDir, `p${i}`);
    fs.writeFileSync(progress, '');
    const proc = cp.fork(__filename, [id, tier], { env: { ...process.env, VERIF_WORKER: b.root, VERIF_PROGRESS: progress, VERIF_TIER: tier, VERIF_SCRATCH_BASE: progressDir }, execArgv: ['--max-old-space-size=3000'] });
    const w = { proc, progress, i };
    active++;
    proc.on('message', (m) => {
      if (m.type === 'ready') {
        if (!queue) {
          scenarioInfo = m.scenarios; queue = [];
          for (const s of m.scenarios) {
            per[s.name] = { cases: s.cases, deviations: s.deviations === undefined || s.deviations === null ? 'unbounded' : s.deviations, what: s.what, executions: 0, states: 0, transitions: 0 };
            for (let k = 0; k < s.cases; k += s.chunk) queue.push({ type: 'job', scenario: s.name, from: k, to: Math.min(s.cases, k + s.chunk) });
          }
        }
        take(w);
      } else if (m.type === 'done') {
        for (const st of m.out) {
          if (st.skipped) { total.capped = true; continue; }
          total.executions += st.executions; total.pruned += st.pruned; total.states += st.states; total.transitions += st.transitions;
          total.maxDepth = Math.max(total.maxDepth, st.maxDepth);
          total.capped = total.capped || st.capped;
          const p = per[m.scenario]; p.executions += st.executions; p.states += st.states; p.transitions += st.transitions;
          if (st.capped) p.capped = true;
          if (observations.size < 2e6) for (const o of st.observations) observations.add(o);
          if (p.samples === undefined || p.samples < 2) { for (const s of st.samples.slice(0, 2)) { samples.push({ scenario: m.scenario, ...s }); p.samples = (p.samples || 0) + 1; } }
          for (const v of st.violations) record(v, m.scenario);
        }
        take(w);
      } else if (m.type === 'setup') {
        record({ key: `setup:${m.error.split('\n')[0].slice(0, 120)}`, message: `the code under test failed while the check was set up: ${m.error}`, case: 0, choices: [], trail: [] }, 'setup');
        queue = queue || []; stopped = true; take(w);
      } else if (m.type === 'error') {
        harnessError = harnessError || m.error; stopped = true; take(w);
      }
    });
    proc.on('exit', (code) => {
      if (w.job) {
        const t = fs.readFileSync(progress, 'utf8').trim();
        let at; try { at = JSON.parse(t); } catch (e) { at = { scenario: w.job.scenario, case: w.job.from, prefix: [] }; }
        if (w.hung) { record({ key: `hang:${at.scenario}:${at.case}`, message: 'the code under test did not return (no progress for 90 s)', case: at.case, choices: at.prefix, trail: [] }, at.scenario); }
        else harnessError = harnessError || `worker died with ${code} at ${t}`;
        stopped = true; w.job = undefined; if (--active === 0) finishOne();
      } else if (!w.done && active > 0 && code !== 0) { harnessError = harnessError || `worker exited ${code} before starting`; stopped = true; if (--active === 0) finishOne(); }
    });
    workers.push(w);
  }
  const timer = setInterval(() => {
    for (const w of workers) {
      if (!w.job) continue;
      const t = fs.readFileSync(w.progress, 'utf8').trim();
      if (t !== w.lastText) { w.lastText = t; w.lastProgress = Date.now(); }
      else if (Date.now() - w.lastProgress > 90000) { w.hung = true; w.proc.kill('SIGKILL'); }
    }
  }, 2000);
  for (let i = 0; i < jobsN; i++) spawn(i);
  await finished;
  clearInterval(timer);
  for (const w of workers) { w.done = true; try { w.proc.kill('SIGKILL'); } catch (e) {} }
  if (stopped && found.length >= MAXV) total.capped = true;

  const wall = (Date.now() - started) / 1000;
  const level = check.level || 'model_checking';
  const coverage = {
    states: total.states,
    transitions: total.transitions,
    traces_validated_against_impl: total.executions,
    distinct_observed_outcomes: observations.size,
    symmetric_executions_pruned: total.pruned,
    max_depth: total.maxDepth,
    exhaustive: !total.capped && !stopped,
    bounds: check.bounds,
    scenarios: per,
    samples: samples.slice(0, 12),
  };
  if (level !== 'model_checking') Object.assign(coverage, { evaluations: total.executions, distinct_nontrivial: observations.size, rule: check.rule });
  const evidenceDir = process.env.VERIF_EVIDENCE || path.join(ROOT, 'evidence');
  fs.mkdirSync(evidenceDir, { recursive: true });
  fs.writeFileSync(path.join(evidenceDir, `${id}.json`), JSON.stringify({ property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level, coverage, assumptions: check.assumptions || [], wall_s: wall, violations: found.length, known_findings: [...seenKnown.keys()] }, null, 1));
  removeScratch();
  if (harnessError && found.length === 0) { console.log(`ERROR property=${id} ${harnessError}`); process.exit(3); }
  for (const [key, k] of seenKnown) console.log(`KNOWN-FINDING: property=${id} ${k.what} [${key}]`);
  for (const key of known.keys()) if (!seenKnown.has(key) && !stopped && !total.capped) console.log(`note: listed finding not seen in this run: ${key}`);
  console.log(`${id} ${tier}: ${total.executions} executions, ${total.states} states, ${total.transitions} transitions, ${observations.size} distinct outcomes, depth<=${total.maxDepth}, ${coverage.exhaustive ? 'exhaustive within bounds' : 'CAPPED'}, ${wall.toFixed(1)}s`);
  if (found.length) {
    fs.mkdirSync(replays, { recursive: true });
    found.forEach((v, i) => {
      const f = path.join(replays, `${id}-${i}.json`);
      fs.writeFileSync(f, JSON.stringify({ property: id, tier, ...v }, null, 1));
      console.log(`VIOLATION property=${id} replay=${f}`);
      console.log(`  [${v.key}] ${v.message}`);
      if (v.detail) console.log('  ' + v.detail.slice(0, 1500));
    });
    process.exit(1);
  }
  process.exit(0);
}

main().catch((e) => { console.log('ERROR ' + (e && e.stack)); removeScratch(); process.exit(3); });
