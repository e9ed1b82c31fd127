'use strict';
// Stateless model-checking engine.
//
// A driver is a function run(c, caseIndex). Every source of nondeterminism in
// an execution (which operation comes next, which input shape, which pending
// step settles first, which fault is injected) is asked for through
// c.choose(n). The engine replays prefixes and enumerates *every* sequence of
// answers (depth first), optionally bounded by the number of deviations from
// the default answer (index 0), and checks the driver's oracle on each one.

class Violation extends Error {
  constructor(key, message, detail) { super(message); this.key = key; this.detail = detail; }
}
class Diverged extends Error {}
class Pruned extends Error {}

class Chooser {
  constructor(prefix) { this.prefix = prefix; this.choices = []; this.points = []; this.log = []; this.cost = 0; this.obs = []; }
  choose(n, label, opts) {
    if (!(n >= 1)) throw new Error('choose: no alternatives at ' + label);
    const i = this.choices.length;
    let v = 0;
    if (i < this.prefix.length) {
      v = this.prefix[i];
      if (v >= n) throw new Diverged(`replayed choice ${v} of ${n} at point ${i} (${label})`);
    }
    const free = !!(opts && opts.free);
    this.choices.push(v);
    this.points.push({ n, free });
    if (!free && v !== 0) this.cost++;
    if (label !== undefined) this.log.push(typeof label === 'function' ? label(v) : `${label}=${v}`);
    return v;
  }
  pick(arr, label, opts) {
    const v = this.choose(arr.length, undefined, opts);
    this.log.push(() => `${label}=${show(arr[v])}`);
    return arr[v];
  }
  flag(label, opts) { return this.choose(2, label, opts) === 1; }
  // enumerates subsets of arr (free or as deviations per element present)
  subset(arr, label, opts) { return arr.filter((x) => this.choose(2, `${label}:${show(x)}`, opts) === 1); }
  observe(x) { this.obs.push(typeof x === 'string' ? x : show(x)); }
  note(x) { this.log.push(x); }
  // abandon an execution that only repeats another one (a symmetric choice)
  prune() { throw new Pruned('pruned'); }
  fail(key, message, detail) { throw new Violation(key, message, detail); }
  check(cond, key, message, detail) {
    if (!cond) throw new Violation(typeof key === 'function' ? key() : key, typeof message === 'function' ? message() : message, typeof detail === 'function' ? detail() : detail);
  }
  trail() { return this.log.map((x) => (typeof x === 'function' ? x() : x)); }
}

function show(x, depth = 0) {
  if (typeof x === 'string') return JSON.stringify(x);
  if (typeof x === 'bigint') return `${x}n`;
  if (x === undefined) return 'undefined';
  if (typeof x === 'function') return `[fn ${x.name}]`;
  if (typeof x === 'symbol') return String(x);
  if (typeof x === 'number') return Object.is(x, -0) ? '-0' : String(x);
  if (x === null || typeof x !== 'object') return String(x);
  if (depth > 8) return '...';
  if (x instanceof Date) return `Date(${isNaN(x) ? 'NaN' : x.toISOString()})`;
  if (x instanceof Error) return `${x.name}(${JSON.stringify(x.message)})`;
  if (Array.isArray(x)) return '[' + x.map((y) => show(y, depth + 1)).join(',') + ']';
  return '{' + Object.keys(x).sort().map((k) => `${JSON.stringify(k)}:${show(x[k], depth + 1)}`).join(',') + '}';
}

// structural equality on plain data (own enumerable string keys; explicit
// undefined is different from absent; NaN equals NaN; -0 equals 0)
function same(a, b) {
  if (a === b) return true;
  if (typeof a === 'number' && typeof b === 'number') return Number.isNaN(a) && Number.isNaN(b);
  if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false;
  if (a instanceof Date || b instanceof Date) return a instanceof Date && b instanceof Date && same(a.getTime(), b.getTime());
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  if (ka.length !== kb.length) return false;
  for (const k of ka) if (!Object.prototype.hasOwnProperty.call(b, k) || !same(a[k], b[k])) return false;
  return true;
}

function hash(s) {
  let h1 = 0xdeadbeef ^ s.length, h2 = 0x41c6ce57 ^ s.length;
  for (let i = 0; i < s.length; i++) {
    const ch = s.charCodeAt(i);
    h1 = Math.imul(h1 ^ ch, 2654435761); h2 = Math.imul(h2 ^ ch, 1597334677);
  }
  h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
  h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
  return 4294967296 * (2097151 & h2) + (h1 >>> 0);
}

// errors that nothing handles would end a real process, so they belong to the execution
const stray = [];
let watching = false;
function watch() {
  if (watching) return;
  watching = true;
  process.on('unhandledRejection', (e) => stray.push(e));
  process.on('uncaughtException', (e) => stray.push(e));
}
function takeStray() {
  if (!stray.length) return undefined;
  const e = stray[0];
  stray.length = 0;
  return new Violation(`unhandled:${String((e && e.message) || e).slice(0, 120)}`, `an error that nothing handles: ${(e && e.stack) || e}`);
}

async function runOnce(run, prefix, caseIndex) {
  watch();
  const c = new Chooser(prefix);
  let violation;
  try {
    const r = run(c, caseIndex);
    if (r && typeof r.then === 'function') await r;
  } catch (e) {
    if (e instanceof Pruned) c.pruned = true;
    else if (e instanceof Violation) violation = e;
    else if (e instanceof Diverged) violation = new Violation('diverged', `the same choices led to a different execution: ${e.message}`);
    else violation = new Violation(`exception:${String(e && e.message).slice(0, 120)}`, `unexpected exception: ${(e && e.stack) || e}`);
  }
  const s = takeStray();
  return { c, violation: violation || s };
}

/**
 * Explore every choice sequence of one case of a driver.
 * opts: { deviations, deadline, maxViolations, progress(prefix, n), fixed }
 * With opts.fixed only the executions that begin with those answers are
 * explored (a shard of the case). With opts.part = [k, n] the executions are
 * split by their first deviation into n parts; those without a deviation
 * belong to part 0.
 */
async function explore(run, caseIndex, opts = {}) {
  const bound = opts.deviations === undefined ? Infinity : opts.deviations;
  const stats = { executions: 0, pruned: 0, states: 0, transitions: 0, maxDepth: 0, capped: false, observations: new Set(), samples: [], violations: [] };
  const fixed = opts.fixed || [];
  let prefix = fixed.slice();
  const seen = new Set();
  let unlisted = 0, first = true;
  for (;;) {
    if (opts.progress) opts.progress(prefix, stats.executions);
    const { c, violation } = await runOnce(run, prefix, caseIndex);
    if (c.choices.length < prefix.length && !violation) { stats.violations.push({ key: 'diverged', message: `prefix ${show(prefix)} was not consumed: the same choices led to a different execution`, case: caseIndex, choices: prefix, trail: c.trail() }); stats.capped = true; break; }
    if (violation && c.choices.length < prefix.length) { stats.violations.push({ key: violation.key, message: violation.message, case: caseIndex, choices: prefix, trail: c.trail() }); stats.capped = true; break; }
    const [partNo, parts] = opts.part || [0, 1];
    const elsewhere = partNo !== 0 && c.cost === 0;
    if (!elsewhere) { if (c.pruned) stats.pruned++; else stats.executions++; }
    const fresh = elsewhere ? 0 : stats.states === 0 ? c.choices.length + 1 : c.choices.length - (prefix.length - 1);
    stats.states += fresh;
    stats.transitions += fresh && stats.states === fresh ? fresh - 1 : fresh;
    if (c.choices.length > stats.maxDepth) stats.maxDepth = c.choices.length;
    if (c.obs.length) stats.observations.add(hash(c.obs.join('\n')));
    if (stats.samples.length < 1 || (stats.samples.length < 2 && c.cost > 0)) stats.samples.push({ case: caseIndex, choices: c.choices.slice(0, 60), trail: c.trail().slice(0, 40), observed: c.obs.slice(0, 6).map((s) => s.slice(0, 300)) });
    if (violation && !seen.has(violation.key)) {
      seen.add(violation.key);
      stats.violations.push({ key: violation.key, message: violation.message, detail: violation.detail === undefined ? undefined : show(violation.detail).slice(0, 4000), case: caseIndex, choices: c.choices, trail: c.trail() });
      if (!(opts.isKnown && opts.isKnown(violation.key)) && ++unlisted >= (opts.maxViolations || Number(process.env.VERIF_MAXV) || 3)) { stats.capped = true; break; }
    }
    // next prefix: deepest point with an unexplored alternative within the bound
    let i = c.choices.length - 1, next;
    const costBefore = new Array(c.choices.length);
    let cost = 0;
    for (let k = 0; k < c.choices.length; k++) { costBefore[k] = cost; if (!c.points[k].free && c.choices[k] !== 0) cost++; }
    if (first && costBefore.length >= fixed.length && fixed.length && c.choices.slice(0, fixed.length).reduce((n, v, k) => n + (!c.points[k].free && v !== 0 ? 1 : 0), 0) > bound) { stats.executions = 0; stats.states = 0; stats.transitions = 0; stats.violations = []; stats.observations = new Set(); stats.samples = []; break; }
    first = false;
    for (; i >= fixed.length; i--) {
      next = c.choices[i] + 1;
      if (!c.points[i].free && costBefore[i] + 1 > bound) continue;
      if (!c.points[i].free && costBefore[i] === 0) while (next < c.points[i].n && (i * 37 + next) % parts !== partNo) next++;
      if (next >= c.points[i].n) continue;
      break;
    }
    if (i < fixed.length) break;
    prefix = c.choices.slice(0, i);
    prefix.push(next);
    if (opts.deadline && Date.now() > opts.deadline) { stats.capped = true; break; }
  }
  await new Promise((r) => setImmediate(r));
  const s = takeStray();
  if (s) stats.violations.push({ key: s.key, message: s.message, case: caseIndex, choices: [], trail: [] });
  return stats;
}

module.exports = { Violation, Diverged, Pruned, Chooser, explore, runOnce, show, same, hash };
