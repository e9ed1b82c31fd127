'use strict';
const fs = require('fs');
const path = require('path');
const cp = require('child_process');
const { show, same } = require('../lib/explore');
const makeGen = require('../lib/gen');
const { scratch } = require('../lib/build');

const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
// a project in which every file matters
const PROJECT = {
  'package.json': JSON.stringify({ name: 'the-name', version: '3.2.1', description: 'the description', 'openapi-generator': { 'codec-file': 'codecs.js' } }),
  'codecs.js': "module.exports = (E) => ({ lib: { L: () => E.right({ type: 'string', format: 'l' }) } });\n",
  'index.ts': `${HEAD}import { L } from 'lib';\nimport { A } from './a';\nimport { N } from './d';\nimport { Pk } from 'pkg';\nimport { Src } from '@s/src';\nimport './unused';\n/** the One */\nexport const One = t.type({ l: L, /** an a */ a: A, p: Pk, n: N.x, s: Src });\n/**\n * The route\n * @operationId op\n */\nconst route = h.httpRoute({ path: '/p/{id}', method: 'GET', request: h.httpRequest({ params: { id: t.string }, query: { q: A, p: Pk } }), response: { 200: One, 404: t.array(Src) } });\nexport const api = h.apiSpec({ 'x.y': { get: route } });\n`,
  'a.ts': "export * from './b';\n", 'b.ts': "import * as t from 'io-ts';\nimport { C } from './c/index';\n/** the A */\nexport const A = t.union([C, t.boolean]);\n",
  'c/index.ts': "export { D as C } from '../d';\n", 'd.ts': "import * as t from 'io-ts';\n/** the D */\nexport const D = t.literal('d');\nexport const N = { x: D };\n", 'unused.ts': "import { D } from './d';\nexport default D;\n",
  'node_modules/pkg/package.json': JSON.stringify({ name: 'pkg', version: '1.0.0', types: 'index.d.ts', customCodecFile: 'c.js' }), 'node_modules/pkg/c.js': "module.exports = (E) => ({ Pk: () => E.right({ type: 'string', format: 'pk' }) });\n", 'node_modules/pkg/index.d.ts': "import * as t from 'io-ts';\nexport declare const Pk: t.StringC;\n",
  'node_modules/@s/src/package.json': JSON.stringify({ name: '@s/src', version: '1.0.0', source: 'src/index.ts' }), 'node_modules/@s/src/src/index.ts': "export { Src } from './deep';\n", 'node_modules/@s/src/src/deep.ts': "import * as t from 'io-ts';\n/** from source */\nexport const Src = t.type({ s: t.string });\n",
};
// the same without custom codecs: a codec of a package that also has sources
const PLAIN = { ...PROJECT, 'package.json': JSON.stringify({ name: 'the-name', version: '3.2.1', description: 'the description' }), 'codecs.js': undefined, 'index.ts': PROJECT['index.ts'].replace("import { L } from 'lib';\n", '').replace('l: L, ', ''), 'node_modules/pkg/index.d.ts': undefined, 'node_modules/pkg/package.json': JSON.stringify({ name: 'pkg', version: '1.0.0', source: 'index.ts', customCodecFile: 'c.js' }), 'node_modules/pkg/index.ts': "import * as t from 'io-ts';\nexport const Pk = t.number;\n" };
for (const k of Object.keys(PLAIN)) if (PLAIN[k] === undefined) delete PLAIN[k];
const PROJECTS = [PROJECT, PLAIN];
const CONTENTS = ['missing', 'a directory', 'a dangling link', '', ' \n', '// nothing\n', 'null', '[]', '{}', '"x"', '5', 'export {};\n', 'export const = ;', '\u0001', "'", '/*', '`${', '<div>', '#!/usr/bin/env node\n', 'twice', 'byte order mark', 'CRLF', 'exports.__esModule = true;\n', 'exports.__esModule = true;\nexports.codecs = () => ({});\n', 'export const codecs = () => ({});\n'];

// wrappers: (x, y) => [expression, which of the two it is, statements before it]
const FORMS = [
  ['x', (x) => [x]], ['(x)', (x) => [`(${x})`]], ['x as any', (x) => [`(${x} as any)`]], ['x!', (x) => [`${/^[\w.'"]+$/.test(x) ? x : `(${x})`}!`]], ['x satisfies any', (x) => [`(${x} satisfies any)`]], ['<any>x', (x) => [`(<any>${x})`]], ['x as const', (x) => [/^['"{]/.test(x) ? `(${x} as const)` : null]],
  ['true ? x : y', (x, y) => [`(true ? ${x} : ${y})`]], ['false ? y : x', (x, y) => [`(false ? ${y} : ${x})`]], ['x || y', (x, y) => [`(${x} || ${y})`]], ['y && x', (x, y) => [`(${y} && ${x})`]], ['x ?? y', (x, y) => [`(${x} ?? ${y})`]], ['undefined ?? x', (x) => [`(undefined ?? ${x})`]], ['y, x', (x, y) => [`(${y}, ${x})`]],
  ['iife', (x) => [`(() => ${x.startsWith('{') ? `(${x})` : x})()`]], ['iife block', (x) => [`(() => { return ${x}; })()`]], ['function call', (x, y, s) => [`f${s}()`, `function f${s}() { return ${x}; }`]], ['arrow call', (x, y, s) => [`f${s}()`, `const f${s} = () => (${x});`]], ['identity', (x, y, s) => [`f${s}(${x})`, `const f${s} = <T>(v: T): T => v;`]], ['second', (x, y, s) => [`f${s}(${y}, ${x})`, `const f${s} = (v: any, w: any) => w;`]],
  ['[x][0]', (x) => [`[${x}][0]`]], ['[y, x][1]', (x, y) => [`[${y}, ${x}][1]!`]], ['{a: x}.a', (x) => [`({ a: ${x} }).a`]], ["{a: x}['a']", (x, y) => [`({ b: ${y}, a: ${x} })['a']`]], ['{a: x}?.a', (x) => [`({ a: ${x} })?.a`]], ['const', (x, y, s) => [`v${s}`, `const v${s} = ${x};`]], ['typed const', (x, y, s) => [`v${s}`, `const v${s}: any = ${x};`]], ['const member', (x, y, s) => [`v${s}.a`, `const v${s} = { b: ${y}, a: ${x} };`]], ['const item', (x, y, s) => [`v${s}[1]!`, `const v${s} = [${y}, ${x}];`]],
  ['const deep', (x, y, s) => [`v${s}.a.b`, `const v${s} = { b: ${y}, a: { b: ${x} } };`]], ['const computed', (x, y, s) => [`v${s}[k${s}]`, `const k${s} = 'a';\nconst v${s} = { b: ${y}, a: ${x} };`]], ['destructured', (x, y, s) => [`v${s}`, `const { a: v${s} } = { a: ${x}, v${s}: ${y} };`]], ['destructured list', (x, y, s) => [`v${s}`, `const [, v${s}] = [${y}, ${x}];`]],
  ['class', (x, y, s) => [`C${s}.a`, `class C${s} { static a = ${x}; }`]], ['namespace', (x, y, s) => [`N${s}.a`, `namespace N${s} { export const a = ${x}; }`]], ['getter', (x, y, s) => [`v${s}.a`, `const v${s} = { get a() { return ${x}; } };`]], ['freeze', (x) => [`Object.freeze(${x})`]], ['shadowed', (x, y, s) => [`v${s}`, `const v${s} = ${x};\nfunction g${s}() { const v${s} = ${y}; return v${s}; }`]], ['spread twice', (x, y, s) => [`v${s}.a`, `const v${s} = { ...{ a: ${y} }, ...{ a: ${x} } };`]], ['later wins', (x, y, s) => [`v${s}.a`, `const u${s} = { a: ${y} };\nconst v${s} = { ...u${s}, a: ${x} };`]], ['earlier loses', (x, y, s) => [`v${s}.a`, `const u${s} = { a: ${x} };\nconst v${s} = { a: ${y}, ...u${s} };`]],
  ['new', (x, y, s) => [`new C${s}().a`, `class C${s} { a = ${x}; }`]], ['tag', (x, y, s) => [`f${s}\`\``, `const f${s} = (_: any) => ${x.startsWith('{') ? `(${x})` : x};`]], ['reduce', (x, y) => [`[${y}, ${x}].reduce((_: any, v: any) => v)`]], ['assign', (x) => [x.startsWith('{') ? `Object.assign({}, ${x})` : null]], ['{...x}', (x) => [x.startsWith('{') ? `{ ...${x} }` : null]], ['{...const}', (x, y, s) => [x.startsWith('{') ? `{ ...v${s} }` : null, `const v${s} = ${x};`]], ['{...call}', (x, y, s) => [x.startsWith('{') ? `{ ...f${s}() }` : null, `const f${s} = () => (${x});`]], ['{...cond}', (x) => [x.startsWith('{') ? `{ ...(true ? ${x} : {}) }` : null]], ['{...&&}', (x) => [x.startsWith('{') ? `{ ...(true && ${x}) }` : null]],
];
const ROUTE = (o = {}) => `{ path: ${o.path || "'/p/{id}'"}, method: ${o.method || "'GET'"}, request: ${o.request || REQUEST(o)}, response: ${o.response || `{ 200: ${o.codec || 't.type({ a: t.string })'}, 400: t.string }`} }`;
const REQUEST = (o = {}) => `h.httpRequest(${o.sections || `{ params: ${o.params || '{ id: t.string }'}, query: ${o.query || `{ q: ${o.param || 't.string'}, r: t.array(${o.item || 't.string'}) }`}, body: ${o.body || `{ b: t.union([${o.member || 't.string'}, t.null]), c: t.literal(${o.literal || "'a'"}) }`} })`.replace(/ \}\)$/, ' })')}${o.sections ? ')' : ''}`;
// where: [name, value, another value of the kind]
const SPOTS = [
  ['path', "'/p/{id}'", "'/other/{id}'"], ['method', "'GET'", "'PUT'"], ['codec', 't.type({ a: t.string })', 't.number'], ['param', 't.string', 't.boolean'], ['item', 't.string', 't.number'], ['member', 't.string', 't.number'], ['literal', "'a'", "'b'"],
  ['params', '{ id: t.string }', '{ id: t.number }'], ['query', '{ q: t.string, r: t.array(t.string) }', '{ z: t.string }'], ['body', "{ b: t.union([t.string, t.null]), c: t.literal('a') }", '{ z: t.string }'], ['sections', "{ params: { id: t.string }, query: { q: t.string, r: t.array(t.string) }, body: { b: t.union([t.string, t.null]), c: t.literal('a') } }", '{ params: { id: t.string } }'],
  ['request', "h.httpRequest({ params: { id: t.string }, query: { q: t.string, r: t.array(t.string) }, body: { b: t.union([t.string, t.null]), c: t.literal('a') } })", 'h.httpRequest({ params: { id: t.string } })'], ['response', '{ 200: t.type({ a: t.string }), 400: t.string }', '{ 500: t.string }'], ['route', 'h.httpRoute(ROUTE)', 'h.httpRoute(OTHER)'], ['config', 'ROUTE', 'OTHER'], ['action', '{ get: h.httpRoute(ROUTE) }', '{ put: h.httpRoute(OTHER) }'], ['spec', "{ 'x.y': { get: h.httpRoute(ROUTE) } }", "{ 'x.z': { get: h.httpRoute(OTHER) } }"],
];
const subst = (s) => s.replace('ROUTE', () => ROUTE()).replace('OTHER', () => ROUTE({ path: "'/other/{id}'" }));

module.exports = {
  id: 'C21',
  bounds: 'two projects of 8 to 13 files: every file operation failing with 4 errors once or from then on (1 fault quick, 2 thorough), every file cut after every byte, every file replaced by 25 other contents; 17 syntactic positions of an api spec with 50 ways to write an expression (two at once); every combination of 4 sources of title, version and description; 10 kinds of entry file, codec files of 14 kinds, 20 custom codecs in 8 positions; 60 invocations compared with real processes.',
  assumptions: ['A file that is reported missing is missing from then on.', 'A variable is not assigned after its declaration.'],
  scenarios(b, tier) {
    const thorough = tier === 'thorough';
    const g = makeGen(b);
    const root = scratch('vmc-cmd-');
    const cliFile = b.file('openapi-generator', 'cli.js');
    function put(dir, files) {
      for (const f of Object.keys(files)) { const p = path.join(dir, f); fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, files[f]); }
      return dir;
    }
    const purge = (dir = root) => { for (const k of Object.keys(require.cache)) if (k.startsWith(dir + path.sep)) delete require.cache[k]; };
    const dirs = PROJECTS.map((p, i) => put(path.join(root, `project${i}`), p));
    const bases = [];
    const base = async (i) => { if (!bases[i]) { purge(); const r = await g.command([path.join(dirs[i], 'index.ts')]); if (r.code !== 0) throw new Error(r.stderr); bases[i] = r.stdout; } return bases[i]; };
    // whole or nothing
    function whole(c, key, r, D) {
      c.observe(`${r.code} ${r.stdout.length}`);
      if (r.code !== 0) {
        c.check(r.stdout === '', () => key('output'), 'a failure with something on stdout', () => [r.stdout, D && D()]);
        c.check(r.stderr.trim() !== '', () => key('silent'), 'a failure without a message', D);
        return false;
      }
      c.check(r.doc !== undefined && r.doc !== null && typeof r.doc === 'object', () => key('no-document'), () => `status 0 and no document: ${JSON.stringify(r.stdout.slice(0, 200))}`, D);
      c.check(r.stdout === JSON.stringify(r.doc, null, 2) + '\n' || r.stdout.trim().startsWith('{'), () => key('mixed'), 'something else than a document on stdout', D);
      const pr = g.problems(r.doc);
      c.check(pr.length === 0, () => key('malformed'), () => pr.join('; '), D);
      return true;
    }
    const INFO = { title: 'openapi-generator', version: '0.0.1', description: 'API spec for openapi-generator' };
    const withDefaults = (doc) => { const d = JSON.parse(doc); d.info = INFO; return JSON.stringify(d, null, 2) + '\n'; };
    // without references: what the document says, not what it is cut into
    function inline(doc) {
      const go = (x) => {
        if (Array.isArray(x)) return x.map(go);
        if (!x || typeof x !== 'object') return x;
        if (typeof x.$ref === 'string') { const { title, ...rest } = doc.components.schemas[x.$ref.split('/').pop()]; return go(rest); }
        const out = Object.fromEntries(Object.keys(x).map((k) => [k, go(x[k])]));
        if (Array.isArray(out.allOf) && Object.keys(out).length === 1) { const rest = out.allOf.filter((y) => Object.keys(y).some((k) => k !== 'title')); if (rest.length === 1) return rest[0]; }
        return out;
      };
      return { ...go({ ...doc, components: undefined }) };
    }
    function baseOrFailure(c, key, r, want, D, alsoDefaults, inlined) {
      if (!whole(c, key, r, D)) return;
      if (inlined) { if (same(inline(r.doc), inlined) || /\[WARN\] Unimplemented/.test(r.stderr)) return; c.check(same(inline(r.doc), inline(JSON.parse(want))), () => key('differs'), () => `${show(inline(r.doc).paths)} instead of ${show(inline(JSON.parse(want)).paths)}`, D); return; }
      c.check(r.stdout === want || (alsoDefaults && r.stdout === withDefaults(want)), () => key('differs'), () => { let i = 0; while (r.stdout[i] === want[i]) i++; return `${JSON.stringify(r.stdout.slice(Math.max(0, i - 80), i + 80))} instead of ${JSON.stringify(want.slice(Math.max(0, i - 80), i + 80))}`; }, D);
    }

    // ------------------------------------------------------------ failing file operations
    const ERRORS = ['ENOENT', 'EACCES', 'EIO', 'EMFILE'];
    async function faults(c, i) {
      const want = await base(i), dir = dirs[i];
      purge(); b.fresh();
      const real = { statSync: fs.statSync, readFileSync: fs.readFileSync, readFile: fs.readFile, lstatSync: fs.lstatSync, realpathSync: fs.realpathSync, accessSync: fs.accessSync, existsSync: fs.existsSync, readdirSync: fs.readdirSync };
      const fsp = b.require('fs/promises');
      const realP = { stat: fsp.stat, readFile: fsp.readFile, access: fsp.access };
      const failing = new Map();
      const hit = [];
      let on = true;
      // undefined, or the error of this operation
      const fault = (op, f) => {
        if (!on || typeof f !== 'string' || !f.startsWith(dir + path.sep)) return undefined;
        const rel = f.slice(dir.length + 1);
        const mk = (code) => Object.assign(new Error(`${code}: ${op} '${f}'`), { code, path: f, syscall: op });
        if (failing.has(rel)) return mk(failing.get(rel));
        const v = c.choose(1 + ERRORS.length * 2 - 1, (k) => (k === 0 ? `${op} ${rel}` : `${op} ${rel} ${ERRORS[k >> 1]}${k % 2 ? ' from then on' : ' once'}`));
        if (v === 0) return undefined;
        const code = ERRORS[v >> 1], always = v % 2 === 1;
        hit.push(`${op} ${rel} ${code}${always ? '+' : ''}`);
        if (always) failing.set(rel, code);
        return mk(code);
      };
      const isModuleLoad = () => /node:internal\/modules/.test((() => { const l = Error.stackTraceLimit; Error.stackTraceLimit = 8; const s = new Error().stack; Error.stackTraceLimit = l; return s; })());
      let r;
      try {
        for (const op of Object.keys(real)) {
          if (op === 'readFile') fs.readFile = (f, ...a) => { const e = fault('readFile', f); if (e) return process.nextTick(() => a[a.length - 1](e)); return real.readFile(f, ...a); };
          else fs[op] = Object.assign((f, ...a) => { if (on && typeof f === 'string' && f.startsWith(dir + path.sep) && !isModuleLoad()) { const e = fault(op, f); if (e) { if (op === 'existsSync') return false; if (e.code === 'ENOENT' && a[0] && a[0].throwIfNoEntry === false) return undefined; throw e; } } return real[op](f, ...a); }, real[op]);
        }
        for (const op of Object.keys(realP)) fsp[op] = async (f, ...a) => { const e = fault(op, f); if (e) throw e; return realP[op](f, ...a); };
        r = await g.command([path.join(dir, 'index.ts')]);
      } finally { on = false; Object.assign(fs, real); Object.assign(fsp, realP); purge(); }
      const key = (k) => `${k}:faults:${hit.join(' & ')}`;
      baseOrFailure(c, key, r, want, () => [hit, r.stderr.slice(0, 500)], hit.some((x) => /^\S+ package\.json ENOENT/.test(x)));
    }

    // ------------------------------------------------------------ other contents
    async function contents(c, k) {
      const [i, f] = FILES[k];
      const want = await base(i);
      const what = c.pick(CONTENTS, f);
      const dir = scratchDir(i);
      const p = path.join(dir, f), orig = PROJECTS[i][f];
      let text = what;
      fs.rmSync(p, { force: true });
      if (what === 'missing') text = undefined;
      else if (what === 'a directory') { fs.mkdirSync(p); text = undefined; }
      else if (what === 'a dangling link') { fs.symlinkSync('/nonexistent/x', p); text = undefined; }
      else if (what === 'twice') text = orig + orig;
      else if (what === 'byte order mark') text = '\ufeff' + orig;
      else if (what === 'CRLF') text = orig.replace(/\n/g, '\r\n');
      else if (what.startsWith('#!')) text = /\.ts$|\.js$/.test(f) ? what + orig : what;
      if (text !== undefined) fs.writeFileSync(p, text);
      purge(dir);
      const r = await g.command([path.join(dir, 'index.ts')]);
      if (what === 'a directory') fs.rmdirSync(p); else fs.rmSync(p, { force: true });
      fs.writeFileSync(p, orig);
      const key = (x) => `${x}:contents:${i}:${f}:${JSON.stringify(what)}`;
      const own = f === 'package.json';
      // a package without custom codecs is described by its sources
      if (/pkg\/package\.json$/.test(f) && ['null', '[]', '{}', '"x"', '5'].includes(what)) { whole(c, key, r); return; }
      baseOrFailure(c, key, r, want, () => r.stderr.slice(0, 500), own);
    }
    const copies = new Map();
    function scratchDir(i) { if (!copies.has(i)) copies.set(i, put(path.join(root, `copy${i}`), PROJECTS[i])); return copies.get(i); }
    const FILES = PROJECTS.flatMap((p, i) => Object.keys(p).map((f) => [i, f]));
    async function cut(c, k) {
      const [i, f] = FILES[k];
      const want = await base(i);
      const orig = PROJECTS[i][f];
      const n = c.choose(orig.length, (v) => `cut after ${v}`);
      const dir = scratchDir(i), p = path.join(dir, f);
      fs.writeFileSync(p, orig.slice(0, n));
      purge(dir);
      const r = await g.command([path.join(dir, 'index.ts')]);
      fs.writeFileSync(p, orig);
      baseOrFailure(c, (x) => `${x}:cut:${i}:${f}:${n}`, r, want, () => [orig.slice(0, n), r.stderr.slice(0, 500)]);
    }

    // ------------------------------------------------------------ expressions
    const docs = new Map();
    async function docOf(values, before = []) {
      const k = JSON.stringify(values);
      if (!docs.has(k)) { const r = await g.run({ 'index.ts': source(values, before) }); docs.set(k, r.code === 0 ? r.stdout : `failure: ${r.stderr}`); }
      return docs.get(k);
    }
    function source(o, before) {
      const spec = o.spec || `{ 'x.y': ${o.action || `{ get: ${o.route || `h.httpRoute(${o.config || ROUTE(o)})`} }`} }`;
      return `${HEAD}${before.map((s) => s + '\n').join('')}export const api = h.apiSpec(${spec});\n`;
    }
    async function expressions(c, k) {
      const two = k >= SPOTS.length;
      const spots = two ? PAIRS[k - SPOTS.length] : [SPOTS[k]];
      const o = {}, before = [], names = [];
      let s = 0;
      for (const [name, x0, y0] of spots) {
        const [label, form] = c.pick(FORMS, name);
        const x = subst(x0), y = subst(y0);
        let [e, stmt] = form(x, y, s++);
        if (e === null) c.prune();
        names.push(`${name}=${label}`);
        if (stmt) before.push(stmt);
        if (c.flag('in a const')) { before.push(`const w${s} = ${e};`); e = `w${s}`; names.push('const'); }
        o[name] = e;
      }
      const want = await docOf({});
      // the same with these values in constants
      const other = await docOf(Object.fromEntries(spots.map(([n]) => [n, `k_${n}`])), spots.map(([n, x]) => `const k_${n} = ${subst(x)};`));
      const r = await g.run({ 'index.ts': source(o, before) });
      if (/^failure/.test(want)) throw new Error(want);
      baseOrFailure(c, (x) => `${x}:${names.join(',')}`, r, want, () => [source(o, before), r.stderr.slice(0, 300)], false, /^failure/.test(other) ? true : inline(JSON.parse(other)));
    }
    const NEST = { path: 1, method: 1, codec: 1, param: 1, item: 1, member: 1, literal: 1 };
    const inner = (a, bb) => { const order = ['spec', 'action', 'route', 'config', 'request', 'sections', 'query', 'param']; return order.includes(a) && order.includes(bb); };
    const PAIRS = SPOTS.filter((x) => NEST[x[0]]).flatMap((x, i, l) => l.slice(i + 1).map((y) => [x, y]));

    // ------------------------------------------------------------ title, version, description, servers
    async function info(c) {
      const where = c.pick(['the package', 'the parent', 'both', 'none'], 'package.json');
      const field = (n) => c.pick([`pj ${n}`, undefined, null, ''], `package ${n}`);
      const own = {}, parent = { name: 'parent name', version: 'parent version', description: 'parent description' };
      const OPTS = [['name', 'n'], ['version', 'v'], ['description', 'd']];
      const args = [];
      const want = {};
      for (const [o, s] of OPTS) {
        if (where === 'the package' || where === 'both') { const v = field(o); if (v !== undefined) own[o] = v; }
        const how = c.pick(['none', 'long', 'equals', 'short'], `--${o}`);
        const v = `option ${o} é "x"`;
        if (how === 'long') args.push(`--${o}`, v); else if (how === 'short') args.push(`-${s}`, v); else if (how !== 'none') args.push(`--${o}=${v}`);
        const file = where === 'none' ? undefined : where === 'the parent' ? parent[o] : own[o];
        want[o] = how !== 'none' ? v : file !== undefined && file !== null ? file : undefined;
      }
      const first = c.flag('options first');
      const servers = [];
      const cs = [0, 1].map((i) => c.pick(['', 'url', 'url and text', 'text only', 'several lines'], `server ${i}`));
      const comment = (i) => { switch (cs[i]) { case 'url': servers.push({ url: `https://s${i}/{x}?a=b` }); return `/**\n * @url https://s${i}/{x}?a=b\n */\n`; case 'url and text': servers.push({ url: `https://s${i}`, description: `Server ${i}` }); return `/**\n * Server ${i}\n *\n * @url https://s${i}\n */\n`; case 'text only': return `/** Server ${i} */\n`; case 'several lines': servers.push({ url: `/v${i}`, description: `Server ${i}\nis here` }); return `/**\n * Server ${i}\n * is here\n * @url /v${i}\n */\n`; default: return ''; } };
      const src = `${HEAD}${[0, 1].map((i) => `${comment(i)}export const api${i} = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p${i}', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) } });\n`).join('')}`;
      const dir = path.join(root, 'info', where.replace(' ', '-'), 'sub', 'src');
      put(dir, { 'index.ts': src });
      const at = path.join(dir, '..', 'package.json'), up = path.join(dir, '..', '..', 'package.json');
      if (where === 'the package' || where === 'both') fs.writeFileSync(at, JSON.stringify(own));
      if (where === 'the parent' || where === 'both') fs.writeFileSync(up, JSON.stringify(parent));
      const r = await g.command(first ? [...args, path.join(dir, 'index.ts')] : [path.join(dir, 'index.ts'), ...args]);
      const key = (x) => `${x}:info:${c.trail().join(' ')}`;
      c.check(r.code === 0 && whole(c, key, r), () => key('fails'), () => r.stderr.slice(0, 300));
      const title = want.name === undefined ? 'openapi-generator' : want.name;
      const expected = { title, version: want.version === undefined ? '0.0.1' : want.version, description: want.description === undefined ? `API spec for ${title}` : want.description };
      c.check(same(r.doc.info, expected), () => key('info'), () => `${show(r.doc.info)} instead of ${show(expected)}`);
      c.check(same(r.doc.servers && r.doc.servers.map(({ description, ...s }) => (description ? { ...s, description } : s)), servers.length ? servers : undefined), () => key('servers'), () => `${show(r.doc.servers)} instead of ${show(servers)}`, () => src);
    }

    // ------------------------------------------------------------ entries and codec files
    const GOOD = `${HEAD}export const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) } });\n`;
    const ENTRIES = ['index.ts', 'index.js', 'index.tsx', 'index.mts', 'index', 'index.json', 'index.d.ts', '.', 'nowhere.ts', 'nowhere/index.ts', 'index.ts/', 'index.ts/x.ts', 'deep/../index.ts', './/index.ts', '', 'empty.ts', 'nospec.ts', 'badspec.ts', 'emptyspec.ts'];
    const CODEC_FILES = { none: null, missing: undefined, syntax: 'module.exports = (', throws: "throw new Error('no');", empty: '', 'no default': 'exports.x = 1; exports.__esModule = true;', 'default undefined': 'exports.default = undefined; exports.__esModule = true;', 'default null': 'exports.default = null; exports.__esModule = true;', 'default object': 'module.exports = {};', 'default throws': "module.exports = () => { throw new Error('no'); };", 'gives undefined': 'module.exports = () => undefined;', 'gives null': 'module.exports = () => null;', 'gives nothing': 'module.exports = () => ({});', good: "exports.__esModule = true; exports.default = (E) => ({ lib: { L: () => E.right({ type: 'string' }) } });", 'prints': "console.log('hello'); module.exports = () => ({});", async: 'module.exports = async () => ({});' };
    const ent = put(path.join(root, 'entries'), { 'index.ts': GOOD, 'index.js': GOOD, 'index.tsx': GOOD, 'index.mts': GOOD, index: GOOD, 'index.json': GOOD, 'index.d.ts': GOOD, 'deep/x.ts': '', 'empty.ts': '', 'nospec.ts': `${HEAD}export const api = t.type({});\n`, 'badspec.ts': `${HEAD}export const api = h.apiSpec(somewhere);\n`, 'emptyspec.ts': `${HEAD}export const api = h.apiSpec({});\n` });
    async function entries(c) {
      const e = c.pick(ENTRIES, 'entry'), cf = c.pick(Object.keys(CODEC_FILES), 'codec file'), via = c.pick(['option', 'package.json'], 'given in'), uses = c.flag('used');
      const dir = path.join(root, 'entries', 'run');
      if (uses && cf === 'none') c.prune();
      fs.rmSync(dir, { recursive: true, force: true });
      const use = (s) => (uses ? s.replace("import * as h", "import { L } from 'lib';\nimport * as h").replace('200: t.string', '200: L') : s);
      const files = {};
      for (const f of fs.readdirSync(ent)) if (f !== 'run' && f !== 'deep') files[f] = use(fs.readFileSync(path.join(ent, f), 'utf8'));
      files['deep/x.ts'] = '';
      if (CODEC_FILES[cf]) files['codecs.js'] = CODEC_FILES[cf];
      if (CODEC_FILES[cf] === '') files['codecs.js'] = '';
      files['package.json'] = JSON.stringify({ name: 'n', ...(via === 'package.json' && cf !== 'none' ? { 'openapi-generator': { 'codec-file': 'codecs.js' } } : {}) });
      put(dir, files);
      purge(dir);
      const argv = [e === '' ? '' : path.isAbsolute(e) ? e : dir + '/' + e, ...(via === 'option' && cf !== 'none' ? ['-c', path.join(dir, 'codecs.js')] : [])];
      const r = await g.command(argv);
      const key = (x) => `${x}:entry:${e}:${cf}:${via}:${uses}`;
      if (cf === 'prints') { c.observe(key('x')); return; }
      const ok = whole(c, key, r, () => r.stderr.slice(0, 400));
      const fine = ['index.ts', 'index.js', 'index.d.ts', 'deep/../index.ts', './/index.ts', 'index.ts/'].includes(e) && (['good', 'none'].includes(cf) || (!uses && ['gives nothing', 'gives undefined', 'gives null', 'async'].includes(cf)));
      const bad = ['nowhere.ts', 'nowhere/index.ts', '.', '', 'empty.ts', 'nospec.ts', 'badspec.ts', 'emptyspec.ts'].includes(e) || !['good', 'none', 'gives nothing', 'gives undefined', 'gives null', 'async'].includes(cf) || (uses && cf !== 'good');
      if (fine) c.check(ok, () => key('fails'), () => r.stderr.slice(0, 400));
      if (bad) c.check(!ok, () => key('succeeds'), () => r.stdout.slice(0, 400));
    }

    // ------------------------------------------------------------ several specs of which some are broken
    const rt = (k, o = {}) => `h.httpRoute({ path: ${o.path || `'/p${k}'`}, method: ${o.method || "'GET'"}, request: ${o.request || 'h.httpRequest({})'}, response: ${o.response || '{ 200: t.string }'} })`;
    const full = (k, o, more = '') => `{ 'x${k}': { get: ${rt(k, o)} }${more} }`;
    const SPEC = {
      fine: (k) => full(k),
      'unknown argument': () => 'somewhere', 'a call': () => 'make()', 'unknown spread': (k) => full(k, {}, ', ...somewhere'), 'unknown imported spread': (k) => full(k, {}, ', ...gone.routes'), 'unknown action': (k) => full(k, {}, ", 'y': somewhere"), 'unknown route': (k) => full(k, {}, ", 'y': { put: somewhere }"), 'route of a function': (k) => full(k, {}, ", 'y': { put: make() }"),
      'unknown path': (k) => full(k, { path: 'somewhere' }), 'numeric path': (k) => full(k, { path: '5' }), 'unknown method': (k) => full(k, { method: 'somewhere' }), 'unknown request': (k) => full(k, { request: 'somewhere' }), 'request is no request': (k) => full(k, { request: "t.literal('a')" }), 'unknown query': (k) => full(k, { request: 'h.httpRequest({ query: somewhere })' }), 'unknown parameter': (k) => full(k, { request: 'h.httpRequest({ query: { a: somewhere } })' }), 'unknown imported parameter': (k) => full(k, { request: 'h.httpRequest({ query: { a: gone.A } })' }),
      'unknown response': (k) => full(k, { response: 'somewhere' }), 'unknown codec': (k) => full(k, { response: '{ 200: t.string, 400: somewhere }' }), 'unknown imported codec': (k) => full(k, { response: '{ 400: gone.A }' }), 'unknown member codec': (k) => full(k, { response: '{ 400: t.type({ a: here.gone }) }' }), 'unknown codec deep': (k) => full(k, { response: '{ 400: t.type({ a: t.array(t.union([t.string, t.type({ b: gone.A })])) }) }' }), 'codec of a broken codec': (k) => full(k, { response: '{ 400: Broken }' }), 'unknown status': (k) => full(k, { response: '{ [somewhere]: t.string }' }), 'no path': (k) => full(k).replace(/path: [^,]*, /, ''), 'no method': (k) => full(k).replace(/method: [^,]*, /, ''), 'no response': (k) => full(k).replace(/, response: .*?\} \}\)/, ' })'), 'private and public': (k) => `{ 'x${k}': { get: PP } }`,
      'the last of three': (k) => full(k, {}, `, 'y': { get: ${rt(k + '/y')} }, 'z': { get: ${rt(k + '/z', { response: '{ 200: somewhere }' })} }`), 'a function with a local': (k) => full(k, { response: '{ 200: (() => { const q = somewhere; return t.type({ a: q }); })() }' }),
    };
    const HOW = [(x, k) => `export const api${k} = h.apiSpec(${x});`, (x, k) => `const api${k} = h.apiSpec(${x});\nexport { api${k} };`, (x, k) => `const arg${k} = ${x};\nexport const api${k} = h.apiSpec(arg${k});`, (x, k) => `import { arg${k} } from './arg${k}';\nexport const api${k} = h.apiSpec(arg${k});`, (x, k) => `const part${k} = h.apiSpec(${x});\nexport const api${k} = h.apiSpec({ ...part${k} });`];
    async function several(c) {
      const n = 1 + c.choose(3, (v) => `${v + 1} specs`, { free: true });
      const kinds = [], body = [], files = {};
      for (let k = 0; k < n; k++) {
        const kind = c.pick(Object.keys(SPEC), `spec ${k}`), how = c.choose(HOW.length, (v) => `how ${v}`);
        kinds.push(kind);
        const x = SPEC[kind](k);
        if (how === 3) files[`arg${k}.ts`] = `${HEAD}import * as gone from './gone';\nconst here = { a: t.string };\nconst Broken = t.type({ a: gone.B });\n/**\n * @private\n * @public\n */\nconst PP = ${rt('x')};\nexport const arg${k} = ${x};\n`;
        body.push(HOW[how](x, k));
      }
      files['index.ts'] = `${HEAD}import * as gone from './gone';\nconst here = { a: t.string };\nconst Broken = t.type({ a: gone.B });\n/**\n * @private\n * @public\n */\nconst PP = ${rt('x')};\n${body.join('\n')}\n`;
      files['gone.ts'] = "import * as t from 'io-ts';\nexport const Other = t.string;\n";
      const r = await g.run(files);
      const key = (x) => `${x}:several:${c.trail().join(' ')}`;
      const ok = whole(c, key, r, () => ({ files, r: r.stderr.slice(0, 400) }));
      const broken = kinds.some((x) => x !== 'fine');
      if (broken) c.check(!ok, () => key('succeeds'), 'a spec that can not be described and a document', () => ({ index: files['index.ts'], doc: r.stdout.slice(0, 1500), err: r.stderr.slice(0, 500) }));
      else {
        c.check(ok, () => key('fails'), () => r.stderr.slice(0, 400), () => files);
        c.check(Object.keys(r.doc.paths).join() === kinds.map((_, k) => `/p${k}`).join(), () => key('paths'), () => Object.keys(r.doc.paths).join(), () => files);
      }
    }

    // ------------------------------------------------------------ custom codecs
    const GIVEN = ["E.right({ type: 'string' })", "E.left('no')", 'undefined', 'null', "(() => { throw new Error('no'); })()", 'E.right(undefined)', 'E.right(null)', "E.right('string')", 'E.right({})', "E.right({ type: 'nonsense' })", "E.right({ type: 'array' })", "E.right({ type: 'array', items: { type: 'nonsense' } })", "E.right({ type: 'object', properties: { a: { type: 'nonsense' } }, required: [] })", "E.right({ type: 'object' })", "E.right({ type: 'union', schemas: [{ type: 'nonsense' }, { type: 'string' }] })", "E.right({ type: 'union' })", "E.right({ type: 'ref', name: 'Zz', location: 'nowhere' })", "E.right({ type: 'ref', name: 'Zz' })", "E.right({ type: 'record', codomain: { type: 'nonsense' } })", "E.right({ type: 'string', enum: [] })", 'Promise.resolve(E.right({ type: "string" }))', "E.right({ type: 'any' })", "E.right({ type: 'undefined' })", "E.right({ type: 'date' })", "E.right({ type: 'tuple', schemas: [] })"];
    const AT = { response: ['L', '{}'], property: ['t.type({ a: L })', '{}'], optional: ['t.partial({ a: L })', '{}'], item: ['t.array(L)', '{}'], member: ['t.union([L, t.number])', '{}'], part: ['t.intersection([t.type({ b: L }), t.partial({ a: t.string })])', '{}'], record: ['t.record(t.string, L)', '{}'], alias: ['Al', '{}'], query: ['t.string', '{ query: { a: L } }'], 'whole query': ['t.string', '{ query: L }'], path: ['t.string', '{ params: { a: L } }'], body: ['t.string', '{ body: { a: L } }'], 'whole body': ['t.string', '{ body: L }'] };
    async function customs(c) {
      const given = c.pick(GIVEN, 'codec'), at = c.pick(Object.keys(AT), 'position');
      const [resp, req] = AT[at];
      const dir = path.join(root, 'custom');
      put(dir, { 'codecs.js': `module.exports = (E) => ({ lib: { L: () => ${given} } });\n`, 'index.ts': `${HEAD}import { L } from 'lib';\nexport const Al = L;\nexport const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest(${req}), response: { 200: ${resp} } }) } });\n` });
      purge(dir);
      const r = await g.command([path.join(dir, 'index.ts'), '-c', path.join(dir, 'codecs.js')]);
      const key = (x) => `${x}:custom:${at}:${given}`;
      if (!whole(c, key, r)) { c.check(given !== GIVEN[0] || at.startsWith('whole'), () => key('fails'), () => r.stderr.slice(0, 400)); return; }
      const op = r.doc.paths['/p'].get;
      if (/'(string|any)' \}\)$/.test(given)) {
        const S = { response: () => op.responses[200].content['application/json'].schema, property: () => op.responses[200].content['application/json'].schema.properties.a, alias: () => r.doc.components.schemas.Al, query: () => op.parameters[0].schema, path: () => op.parameters[0].schema, body: () => op.requestBody.content['application/json'].schema.properties.a, item: () => op.responses[200].content['application/json'].schema.items }[at];
        let s; try { s = S && S(); } catch (e) { s = undefined; }
        if (S) c.check(s !== undefined, () => key('missing'), () => JSON.stringify(op));
      }
    }

    // ------------------------------------------------------------ real processes
    const big = put(path.join(root, 'big'), { 'index.ts': `${HEAD}${Array.from({ length: 400 }, (_, i) => `/** ${'é text '.repeat(40)} */\nexport const C${i} = t.type({ a: t.string, b: t.array(${i % 40 ? `C${i - 1}` : 't.number'}) });\n`).join('')}${GOOD.replace(HEAD, '').replace('200: t.string', `200: t.type({ ${Array.from({ length: 10 }, (_, i) => `c${i}: C${i * 40 + 39}`).join(', ')} })`)}` });
    const inv = put(path.join(root, 'invocations'), { 'index.ts': GOOD, 'broken.ts': 'export const = ;', 'unresolved.ts': GOOD.replace('200: t.string', '200: Nope'), 'ref.ts': GOOD.replace("import * as t", "import { Nope } from './nope';\nimport * as t").replace('200: t.string', '200: Nope'), 'private.ts': GOOD.replace('export const api', '/**\n * @private\n * @public\n */\nconst route = h.httpRoute({ path: "/p", method: "GET", request: h.httpRequest({}), response: { 200: t.string } });\nexport const api').replace(/get: h\.httpRoute.*/, "get: route } });"), 'example.ts': GOOD.replace("{ get:", "{\n/**\n * @example { bad json\n */\nget:").replace('200: t.string', "200: t.type({\n/** @example { bad */\na: t.type({}) })"), 'c-throws.js': "throw new Error('x')", 'c-none.js': 'exports.__esModule = true;', 'nul.ts': GOOD + '\u0000', 'sub/package.json': '{ bad', 'sub/index.ts': GOOD });
    const INVOCATIONS = [['index.ts'], ['index.ts', '-n', 'x'], ['index.ts', '-n'], ['index.ts', '--name', 'x', '-v', '1', '-d', 'y'], ['index.ts', '--nope'], ['index.ts', 'broken.ts'], ['index.ts', '-n', 'x', '-n', 'y'], [], ['broken.ts'], ['unresolved.ts'], ['ref.ts'], ['private.ts'], ['example.ts'], ['nowhere.ts'], ['.'], ['index.ts', '-c', 'c-throws.js'], ['index.ts', '-c', 'c-none.js'], ['index.ts', '-c', 'nowhere.js'], ['sub/index.ts'], ['../big/index.ts'], ['../project0/index.ts'], ['../project1/index.ts'], ['../big/index.ts', '-n', 'slow'], ['--', 'index.ts'], ['index.ts', '--', '-n'], ['-c', 'index.ts'], ['nul.ts']];
    async function processes(c, i) {
      const how = c.pick(['pipe', 'file'], 'stdout'), rel = c.flag('from its directory');
      const args = INVOCATIONS[i].map((a) => (/^-|^[xy1]$|slow/.test(a) ? a : rel ? a : path.join(inv, a)));
      const outFile = path.join(root, 'out');
      let r;
      if (how === 'file') {
        const fd = fs.openSync(outFile, 'w');
        const q = cp.spawnSync(process.execPath, [cliFile, ...args], { encoding: 'utf8', cwd: rel ? inv : root, stdio: ['ignore', fd, 'pipe'], timeout: 60000 });
        fs.closeSync(fd);
        r = { code: q.status, stdout: fs.readFileSync(outFile, 'utf8'), stderr: q.stderr };
      } else if (args.includes('slow')) {
        // a reader that starts late
        const q = cp.spawnSync('/bin/bash', ['-o', 'pipefail', '-c', '"$0" "$@" | (sleep 1; cat)', process.execPath, cliFile, ...args], { encoding: 'utf8', cwd: rel ? inv : root, timeout: 60000, maxBuffer: 1 << 28 });
        r = { code: q.status, stdout: q.stdout, stderr: q.stderr };
      } else {
        const q = cp.spawnSync(process.execPath, [cliFile, ...args], { encoding: 'utf8', cwd: rel ? inv : root, timeout: 60000, maxBuffer: 1 << 28 });
        r = { code: q.status, stdout: q.stdout, stderr: q.stderr };
      }
      try { r.doc = JSON.parse(r.stdout); } catch (e) {}
      const key = (x) => `${x}:process:${INVOCATIONS[i].join(' ')}:${how}`;
      const ok = whole(c, key, r, () => r.stderr.slice(0, 500));
      const good = [0, 1, 3, 19, 20, 21, 22, 23].includes(i);
      const either = [2, 6, 24, 26].includes(i);
      if (!either) c.check(ok === good, () => key(good ? 'fails' : 'succeeds'), () => r.stderr.slice(0, 400));
      if (args.some((a) => /nul\.ts/.test(a))) return; // (ends the whole process)
      // and the harness sees what the real process does
      const cwd = process.cwd();
      let q;
      process.chdir(rel ? inv : root);
      try { purge(); q = await g.command(args); } finally { process.chdir(cwd); }
      c.check((q.code === 0) === ok && (!ok || q.stdout === r.stdout), () => key('harness'), () => `in process: ${q.code} ${q.stdout.length}, real: ${r.code} ${r.stdout.length}`, () => q.stderr.slice(0, 500));
    }

    return [
      { name: 'faults', cases: PROJECTS.length, split: 8, run: faults, deviations: thorough ? 2 : 1, what: 'failing file operations' },
      { name: 'contents', cases: FILES.length, run: contents, what: 'other contents of a file' },
      { name: 'cut', cases: FILES.length, chunk: 1, split: 2, run: cut, what: 'files cut after every byte' },
      { name: 'expressions', cases: SPOTS.length + (thorough ? PAIRS.length : 0), chunk: 1, run: expressions, what: 'ways to write an expression' },
      { name: 'info', cases: 1, split: 16, run: info, deviations: thorough ? 4 : 3, what: 'title, version, description, servers' },
      { name: 'entries', cases: 1, split: 8, run: entries, deviations: thorough ? undefined : 3, what: 'entry and codec files' },
      { name: 'several', cases: 1, split: 16, run: several, deviations: thorough ? 4 : 2, what: 'several api specs, some of them broken' },
      { name: 'customs', cases: 1, split: 4, run: customs, what: 'custom codecs' },
      { name: 'processes', cases: INVOCATIONS.length, run: processes, what: 'real processes' },
    ];
  },
};
