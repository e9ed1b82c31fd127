'use strict';
const fs = require('fs');
const path = require('path');
const cp = require('child_process');
const { show } = require('../lib/explore');
const makeGen = require('../lib/gen');
const { scratch } = require('../lib/build');

const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
const api = (request, response, path = '/p', extra = '') => `export const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '${path}', method: 'GET', request: h.httpRequest(${request}), response: { 200: ${response} } })${extra} } });\n`;
const pj = (o) => JSON.stringify({ name: 'n', version: '1.0.0', source: 'src/index.ts', ...o });
// one object for every schema the codecs of this file give out
const SHARED = (schema, pkg, names) => `const SHARED = ${schema};\nmodule.exports = (E) => ({ ${JSON.stringify(pkg)}: { ${names.map((n) => `${n}: () => E.right(SHARED)`).join(', ')} } });\n`;
const SHARED_PKG = (schema, names) => `const SHARED = ${schema};\nmodule.exports = (E) => ({ ${names.map((n) => `${n}: () => E.right(SHARED)`).join(', ')} });\n`;
const pkgFiles = (codec, dts = 'export declare const Pk: any;\nexport declare const Pk2: any;\n') => ({ 'node_modules/pkg/package.json': pj({ name: 'pkg', types: 'index.d.ts', source: undefined, customCodecFile: 'codecs.js' }), 'node_modules/pkg/index.d.ts': dts, 'node_modules/pkg/codecs.js': codec });

// sources in which something could stick to the process
const POOL = {
  plain: { files: { 'index.ts': `${HEAD}/** The type Foo\n * @example "a" */\nexport const Foo = t.type({ /** the a */ a: t.string, /** the b */ b: Bar });\n/** Bar it is */\nexport const Bar = t.string;\n${api('{ query: { q: Bar } }', 'Foo')}` } },
  multibyte: { files: { 'index.ts': `\ufeff/** ééé 漢字 😀 */\n${HEAD}/** naïve */\nexport const Foo = t.type({ /** ü */ a: t.literal('日本'), /** 😀😀 */ b: t.string, /** last */ c: t.number });\n${api('{}', 'Foo', '/é')}` } },
  comments: { files: { 'index.ts': `/** about it */\nimport * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\nimport './only';\nimport { A } from './a';\n/** the A2 */ export const A2 = t.type({ /** x */ x: A /* after */ });\n${api('{}', 'A2')}\n/* the end */`, 'only.ts': '// nothing here\n/* é */', 'a.ts': `// first\nimport * as t from 'io-ts';\n/** the A */\nexport const A = t.string;\n` } },
  broken: { files: { 'index.ts': `${HEAD}import './broken';\nimport './broken2';\nimport { A } from './a';\n${api('{}', 't.type({ /** one */ a: A })')}`, 'broken.ts': 'export const = ;\n/* é */', 'broken2.ts': "const é = '", 'a.ts': `import * as t from 'io-ts';\n/** the A */\nexport const A = t.type({ /** b */ b: t.string });\n` } },
  fails: { files: { 'index.ts': `${HEAD}import { A } from './nowhere';\n${api('{}', 'A')}` } },
  unparsable: { files: { 'index.ts': `${HEAD}/** é */ export const = 1;` } },
  collisions: { files: { 'index.ts': `${HEAD}import { Foo } from './a';\nimport * as b from './b';\n${api('{ query: { q: Foo } }', 't.type({ a: Foo, b: b.Foo, c: b.Bar })')}`, 'a.ts': `import * as t from 'io-ts';\nimport { Bar } from './b';\n/** a */ export const Foo = t.union([t.string, Bar]);\n`, 'b.ts': `import * as t from 'io-ts';\nimport * as a from './a';\nexport const Foo = t.number;\n/** bar */ export const Bar = t.array(t.string);\n` } },
  codecfile: { args: ['-c', 'codecs.js'], files: { 'codecs.js': SHARED("{ type: 'string', format: 'one' }", 'lib', ['L', 'M']), 'index.ts': `${HEAD}import { L, M } from 'lib';\n/** the K */ export const K = L;\n/** J */ export const J = M;\n${api('{ query: { /** the q */ q: L, r: M } }', 't.type({ k: K, /** l */ l: L, m: M, j: J })')}` } },
  codecfile2: { args: ['-c', 'codecs.js'], files: { 'codecs.js': SHARED("{ type: 'number', format: 'two' }", 'lib', ['L', 'M']), 'index.ts': `${HEAD}import { L, M } from 'lib';\nexport const K = L;\n${api('{ query: { q: L } }', 't.type({ k: K, l: L, m: M })')}` } },
  nocodecs: { files: { 'index.ts': `${HEAD}import { L } from 'lib';\n${api('{ query: { q: L } }', 't.string')}` } },
  override: { args: ['-c', 'codecs.js'], files: { 'codecs.js': "module.exports = (E) => ({ 'io-ts-types': { UUID: () => E.right({ type: 'boolean' }), NumberFromString: () => E.right({ type: 'boolean' }) } });\n", 'index.ts': `${HEAD}import { UUID } from 'io-ts-types';\n${api('{ query: { q: UUID } }', 'UUID')}` } },
  types: { files: { 'index.ts': `${HEAD}import { UUID, NumberFromString } from 'io-ts-types';\n${api('{ query: { q: NumberFromString } }', 't.type({ /** u */ u: UUID, v: UUID, /** @minLength 3 */ s: t.string, w: t.string })')}` } },
  pkg: { files: { ...pkgFiles(SHARED_PKG("{ type: 'string', format: 'pk' }", ['Pk', 'Pk2'])), 'index.ts': `${HEAD}import { Pk, Pk2 } from 'pkg';\n/** mine */ export const Mine = Pk;\n${api('{ query: { /** p */ p: Pk } }', 't.type({ mine: Mine, p: Pk, q: Pk2 })')}` } },
  pkg2: { files: { ...pkgFiles(SHARED_PKG("{ type: 'object', properties: { x: { type: 'union', schemas: [{ type: 'string' }, { type: 'undefined' }] }, y: { type: 'string' } }, required: ['x', 'y'] }", ['Pk', 'Pk2'])), 'index.ts': `${HEAD}import { Pk, Pk2 } from 'pkg';\n${api('{ query: Pk }', 't.type({ p: Pk, q: Pk2 })')}` } },
  pkg3: { files: { 'node_modules/pkg/package.json': pj({ name: 'pkg', source: 'index.ts' }), 'node_modules/pkg/index.ts': "import * as t from 'io-ts';\n/** plain */ export const Pk = t.boolean;\nexport const Pk2 = t.null;\n", 'index.ts': `${HEAD}import { Pk, Pk2 } from 'pkg';\n${api('{ query: { p: Pk } }', 't.type({ p: Pk, q: Pk2 })')}` } },
};
const NAMES = Object.keys(POOL);

// declarations and imports whose order and neighbours do not matter
const IMPORTS = ["import * as t from 'io-ts';", "import * as h from '@api-ts/io-ts-http';", "import { Foo as Foo1 } from './a';", "import { Foo as Foo2 } from './b';", "import { Foo as Foo3, type Ty } from 'pkg';", "import * as q from '@s/pkg';"];
const DECLS = ['/** one */\nexport const One = t.type({ /** a */ a: Foo1, b: Foo2 });', '/** two */\nexport const Two = t.type({ c: Foo3, d: q.Foo, one: One });', "export const Three = t.keyof({ /** x */ x: null, y: null });", "/**\n * @url https://x\n */\nexport const api = h.apiSpec({ 'a': { get: h.httpRoute({ path: '/a', method: 'GET', request: h.httpRequest({ query: { z: Three } }), response: { 200: Two, 400: One } }) } });"];
const NOISE = ["import { Foo } from './noise';", "import './broken';", "import 'pkg-noise';", "import { Foo as X1 } from 'pkg-codecs';", "import './missing';", "import 'missing-package';", "export * from './noise2';", "/** nothing */\nexport const Unused = t.type({ /** zz */ zz: t.string });", "/** a function */\nexport function f() { return h; }", "// a comment\n/** another */", "export const Foo = t.null;"];
const TREE = {
  'a.ts': "import * as t from 'io-ts';\nimport './b';\n/** foo of a */\nexport const Foo = t.type({ a: t.string });\n",
  'b.ts': "/** é */\nimport * as t from 'io-ts';\nimport { Foo as F } from './a';\nexport const Foo = t.type({ b: t.string, f: F });\n",
  'node_modules/pkg/package.json': pj({ name: 'pkg' }), 'node_modules/pkg/src/index.ts': "import * as t from 'io-ts';\nexport const Foo = t.type({ p: t.string });\nexport type Ty = string;\n",
  'node_modules/@s/pkg/package.json': pj({ name: '@s/pkg' }), 'node_modules/@s/pkg/src/index.ts': "import * as t from 'io-ts';\nimport { Foo as P } from 'pkg';\nexport const Foo = t.type({ sp: P });\n",
  'noise.ts': "import * as t from 'io-ts';\n/** noise é */\nexport const Foo = t.boolean;\nexport const One = t.boolean;\nexport const Two = t.boolean;\nexport const P = t.boolean;\n",
  'noise2.ts': "import * as t from 'io-ts';\nexport const One = t.boolean;\nexport const Three = t.boolean;\n", 'broken.ts': 'const é = ;',
  'node_modules/pkg-noise/package.json': pj({ name: 'pkg-noise' }), 'node_modules/pkg-noise/src/index.ts': "import * as t from 'io-ts';\nexport const Foo = t.boolean;\nexport const One = t.boolean;\nexport const Three = t.boolean;\n",
  'node_modules/pkg-codecs/package.json': pj({ name: 'pkg-codecs', customCodecFile: 'codecs.js' }), 'node_modules/pkg-codecs/src/index.ts': "import * as t from 'io-ts';\nexport const Foo = t.boolean;\n", 'node_modules/pkg-codecs/codecs.js': "module.exports = (E) => ({ Foo: () => E.right({ type: 'boolean' }), string: () => E.right({ type: 'boolean' }), One: () => E.right({ type: 'boolean' }) });\n",
};

module.exports = {
  id: 'C20',
  bounds: 'all histories of up to 3 (quick) / 4 (thorough) generations from 15 sources in one process, then each compared with a fresh process; every interleaving of the file operations of 2 concurrent commands (every pair of the 15) and of 3 small ones; every order of 6 imports and 4 declarations, and every set of up to 3 (quick) / 11 (thorough) unrelated imports and declarations around them; every source in 10 directories; real processes with 3 working directories, 4 locales, 2 time zones and 2 kinds of paths.',
  assumptions: ['The order in which declarations, properties and routes are written may show in the document; the order of imports and of declarations that nothing lists may not.', 'The directory has its own package.json, or neither has.'],
  scenarios(b, tier) {
    const thorough = tier === 'thorough';
    const g = makeGen(b);
    const root = scratch('vmc-det-');
    const cliFile = b.file('openapi-generator', 'cli.js');
    // the packages the sources need are found from everywhere
    const libs = { 'io-ts': 1, 'io-ts-types': 1, '@api-ts/io-ts-http': 1 };
    function put(dir, files) {
      for (const f of Object.keys(files)) { const p = path.join(dir, f); fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, files[f]); }
      return dir;
    }
    const PJ = { 'package.json': JSON.stringify({ name: 'the-name', version: '3.2.1', description: 'the description' }) };
    const dirs = {};
    for (const n of NAMES) dirs[n] = put(path.join(root, 'pool', n), { ...PJ, ...POOL[n].files });
    const argv = (n, dir = dirs[n]) => [path.join(dir, 'index.ts'), ...(POOL[n].args || []).map((a) => (a.endsWith('.js') ? path.join(dir, a) : a))];
    const outcome = (r) => (r.code === 0 ? r.stdout : `status ${r.code}${r.stdout === '' ? '' : ' with output ' + r.stdout}`);
    function real(args, opts = {}) {
      const r = cp.spawnSync(process.execPath, [cliFile, ...args], { encoding: 'utf8', env: { PATH: process.env.PATH, ...opts.env }, cwd: opts.cwd || root, timeout: 60000 });
      return outcome({ code: r.status, stdout: r.stdout });
    }
    const refs = new Map();
    const ref = (n) => { if (!refs.has(n)) refs.set(n, real(argv(n))); return refs.get(n); };
    // a process in which nothing was generated yet
    function fresh() {
      b.fresh();
      for (const k of Object.keys(require.cache)) if (k.startsWith(root + path.sep)) delete require.cache[k];
    }
    const describe = (x) => show(x, (k, v) => v);
    const tables = () => {
      const K = g.G('knownImports.js').KNOWN_IMPORTS;
      return Object.keys(K).map((p) => `${p}: ${Object.keys(K[p]).map((n) => `${n}=${String(K[p][n]).length}`).join()}`).join('\n');
    };
    const tableFns = () => { const K = g.G('knownImports.js').KNOWN_IMPORTS; return new Map(Object.keys(K).flatMap((p) => [[p, K[p]], ...Object.keys(K[p]).map((n) => [`${p}#${n}`, K[p][n]])])); };
    const sameMap = (a, m) => a.size === m.size && [...a].every(([k, v]) => m.get(k) === v);
    function diffAt(a, x) { let i = 0; while (i < a.length && a[i] === x[i]) i++; return `${JSON.stringify(a.slice(Math.max(0, i - 60), i + 60))} instead of ${JSON.stringify(x.slice(Math.max(0, i - 60), i + 60))}`; }
    function same(c, key, got, want, detail) {
      c.check(got === want, () => key, () => diffAt(got, want), () => detail);
    }
    if (Object.values(POOL).length === 0) throw new Error('no sources');
    // the codecs of the pool's own files: what they give out, seen before and after
    function given(n) {
      const out = [];
      for (const f of Object.keys(POOL[n].files)) if (/codecs\.js$/.test(f)) {
        const m = require.cache[path.join(dirs[n], f)];
        if (!m) continue;
        const E = b.require('fp-ts/Either');
        const flat = (o) => Object.entries(o).flatMap(([k, v]) => (typeof v === 'function' ? [[k, v]] : flat(v)));
        for (const [k, fn] of flat(m.exports(E))) out.push(`${k}: ${JSON.stringify(fn().right)}`);
      }
      return out.join('\n');
    }
    const pristine = new Map();
    function givenBy(n) {
      if (!pristine.has(n)) {
        fresh();
        for (const f of Object.keys(POOL[n].files)) if (/codecs\.js$/.test(f)) b.require(path.join(dirs[n], f));
        pristine.set(n, given(n));
        fresh();
      }
      return pristine.get(n);
    }

    // ------------------------------------------------------------ histories
    async function history(c, caseNo) {
      const len = thorough ? 4 : 3;
      const seq = [NAMES[caseNo]];
      for (let i = 1; i < len; i++) seq.push(c.pick(NAMES, `then`));
      seq.forEach((n) => { ref(n); givenBy(n); });
      fresh();
      const before = tableFns(), text = tables();
      for (let i = 0; i < seq.length; i++) {
        const n = seq[i];
        const got = outcome(await g.command(argv(n)));
        c.observe(`${n}${got.length}`);
        same(c, `history:${seq.slice(0, i + 1).join(',')}`, got, ref(n), seq);
        c.check(!given(n) || given(n) === givenBy(n), () => `schemas:${seq.slice(0, i + 1).join(',')}`, () => `the custom codecs of ${n} now give out ${given(n)} instead of ${givenBy(n)}`);
      }
      c.check(sameMap(before, tableFns()) && text === tables(), () => `tables:${seq.join(',')}`, () => diffAt(tables(), text));
    }

    // ------------------------------------------------------------ schedules
    // several commands at once; each file operation of each is a point where the others can go on
    async function concurrently(c, names) {
      names.forEach((n) => { ref(n); givenBy(n); });
      fresh();
      const { Project } = g.G('project.js');
      const fsp = b.require('fs/promises');
      const util = require('util');
      const gates = names.map(() => []);
      let running = -1; // whose code is running
      const out = names.map(() => []), codes = names.map(() => undefined), settled = names.map(() => false);
      const saved = { stat: fsp.stat, readFile: Project.prototype.readFile, log: console.log, error: console.error, info: console.info, warn: console.warn, exit: process.exit, argv: process.argv };
      const limit = Error.stackTraceLimit; Error.stackTraceLimit = 4;
      const gate = (who, label, work) => new Promise((resolve, reject) => gates[who].push({ label, go() { running = who; try { resolve(work()); } catch (e) { reject(e); } } }));
      const owner = (file) => names.findIndex((n, i) => (`${file}`).startsWith(where[i] + path.sep));
      // the same sources twice lie in two directories
      const where = names.map((n, i) => (names.indexOf(n) === i ? dirs[n] : twin(n, i)));
      const cmdPath = b.require.resolve('cmd-ts');
      const cached = require.cache[cmdPath] || (b.require('cmd-ts'), require.cache[cmdPath]);
      const cmd = cached.exports;
      const settle = async () => { for (let i = 0; i < 2; i++) await new Promise((r) => setImmediate(r)); };
      try {
        fsp.stat = (f) => { const who = owner(f); return gate(who < 0 ? running : who, 'stat', () => fs.statSync(f)); };
        Project.prototype.readFile = function (f) { const who = owner(f); return gate(who < 0 ? running : who, 'read', () => fs.readFileSync(f, 'utf8')); };
        console.log = (...x) => out[running].push(util.format(...x));
        console.error = console.warn = console.info = () => {};
        process.exit = (code) => { if (codes[running] === undefined) codes[running] = code; throw new Error('exit'); };
        for (let i = 0; i < names.length; i++) {
          running = i;
          delete require.cache[cliFile];
          let p;
          cached.exports = { ...cmd, run: (app, a) => (p = cmd.run(app, a)) };
          process.argv = [process.execPath, cliFile, ...argv(names[i], where[i])];
          b.require(cliFile);
          cached.exports = cmd;
          p.then(() => { settled[i] = true; }, () => { settled[i] = true; if (codes[i] === undefined) codes[i] = 1; });
          await settle();
        }
        for (;;) {
          const ready = names.map((_, i) => i).filter((i) => gates[i].length);
          if (!ready.length) { if (settled.every(Boolean)) break; await settle(); if (names.every((_, i) => !gates[i].length) && !settled.every(Boolean)) { c.fail(`stuck:${names.join('+')}`, 'a command neither ended nor waits for a file'); break; } continue; }
          // go on with the same command by default
          const list = ready.includes(running) ? [running, ...ready.filter((i) => i !== running)] : ready;
          const who = list[list.length > 1 ? c.choose(list.length, (v) => `${list[v]} ${gates[list[v]][0].label}`) : 0];
          gates[who].shift().go();
          await settle();
        }
      } finally {
        fsp.stat = saved.stat; Project.prototype.readFile = saved.readFile;
        Object.assign(console, { log: saved.log, error: saved.error, info: saved.info, warn: saved.warn });
        process.exit = saved.exit; process.argv = saved.argv; cached.exports = cmd; Error.stackTraceLimit = limit;
      }
      names.forEach((n, i) => {
        const got = outcome({ code: codes[i] || 0, stdout: out[i].length ? out[i].join('\n') + '\n' : '' });
        c.observe(`${n}${got.length}`);
        same(c, `schedule:${names.join('+')}:${n}`, got, ref(n), c.trail());
        c.check(!given(n) || given(n) === givenBy(n), () => `schemas:${names.join('+')}`, () => `the custom codecs of ${n} now give out ${given(n)} instead of ${givenBy(n)}`);
      });
    }
    const twins = new Map();
    function twin(n, i) { const k = `${n}${i}`; if (!twins.has(k)) twins.set(k, put(path.join(root, 'twin', k), { ...PJ, ...POOL[n].files })); return twins.get(k); }
    const PAIRS = NAMES.flatMap((x, i) => NAMES.slice(i).map((y) => [x, y]));
    const SMALL = ['plain', 'multibyte', 'codecfile', 'codecfile2', 'override', 'types', 'unparsable'];
    const TRIPLES = SMALL.flatMap((x, i) => SMALL.slice(i).flatMap((y, j) => SMALL.slice(i + j).map((z) => [x, y, z])));

    // ------------------------------------------------------------ order and unrelated things
    const treeDir = put(path.join(root, 'tree'), { ...PJ, ...TREE });
    let treeRef;
    async function around(c, imports, decls, key) {
      const entry = path.join(treeDir, 'index.ts');
      const write = (i, d) => fs.writeFileSync(entry, `${i.join('\n')}\n${d.join('\n')}\n`);
      if (treeRef === undefined) { write(IMPORTS, DECLS); treeRef = real([entry]); if (/^status/.test(treeRef)) throw new Error(treeRef); }
      write(imports, decls);
      const got = outcome(await g.command([entry]));
      c.observe(`${imports.join()}${decls.length}${got.length}`);
      same(c, key, got, treeRef, { index: fs.readFileSync(entry, 'utf8') });
    }
    const permute = (c, list, what) => { const left = [...list], out = []; while (left.length) out.push(left.splice(left.length > 1 ? c.choose(left.length, (v) => `${what} ${left[v].slice(-20)}`) : 0, 1)[0]); return out; };
    async function orders(c) {
      const imports = permute(c, IMPORTS, 'import'), decls = permute(c, DECLS, 'declaration');
      await around(c, imports, decls, `order:${imports.map((x) => IMPORTS.indexOf(x)).join('')}/${decls.map((x) => DECLS.indexOf(x)).join('')}`);
    }
    async function noise(c) {
      const imports = [], decls = [], sel = [];
      const first = c.flag('before'), mid = c.flag('between');
      NOISE.forEach((n, i) => { if (c.flag(n.slice(0, 30))) sel.push(i); });
      const parts = sel.map((i) => NOISE[i]);
      if (parts.some((p) => /Foo } from/.test(p)) && sel.includes(NOISE.length - 1)) c.prune();
      const im = parts.filter((p) => /^(import|export \*)/.test(p)), de = parts.filter((p) => !/^(import|export \*)/.test(p));
      imports.push(...(first ? [...im, ...IMPORTS] : [...IMPORTS, ...im]));
      decls.push(...(mid ? [DECLS[0], ...de, ...DECLS.slice(1)] : [...DECLS, ...de]));
      await around(c, imports, decls, `unrelated:${sel.join()}:${first}${mid}`);
    }

    // ------------------------------------------------------------ places
    const PLACES = ['a b', 'é漢', 'node_modules', 'x/node_modules/io-ts-types', '.hidden', 'z.ts', 'd/e/f/g/h/i/j/k/l/m', 'index', 'constructor', "it's \"q\""];
    async function places(c, i) {
      const n = NAMES[i];
      const pl = c.pick(['', ...PLACES], 'directory'), link = c.flag('through a link'), own = c.flag('no package.json');
      const dir = path.join(root, own ? 'places2' : 'places', n, pl);
      if (!fs.existsSync(path.join(dir, 'index.ts'))) put(dir, { ...(own ? {} : PJ), ...POOL[n].files });
      let at = dir;
      if (link) { const l = path.join(root, 'links', `${n}${own ? 1 : 0}${PLACES.indexOf(pl)}`); fs.mkdirSync(path.dirname(l), { recursive: true }); if (!fs.existsSync(l)) fs.symlinkSync(dir, l); at = l; }
      fresh();
      let want = ref(n);
      const got = outcome(await g.command(argv(n, at)));
      if (own && !/^status/.test(want)) { const d = JSON.parse(want); d.info = { title: 'openapi-generator', version: '0.0.1', description: 'API spec for openapi-generator' }; want = JSON.stringify(d, null, 2) + '\n'; }
      c.observe(`${n}${pl}${link}${own}`);
      same(c, `place:${n}:${pl}:${link}:${own}`, got, want, at);
    }

    // ------------------------------------------------------------ real processes
    const sortDir = put(path.join(root, 'sorted'), { ...PJ, 'index.ts': `${HEAD}export const ch = t.string;\nexport const h1 = t.string;\nexport const U = t.union([t.type({ ${['z', 'ch', 'h', 'aa', 'b', 'I', 'i', 'ı', 'ö', 'o', 'y', 'Z', 'a_', 'a-b', 'll', 'lz'].map((k) => `'${k}': t.string`).join(', ')} }), t.partial({ ${['lz', 'll', 'ö', 'p', 'aa', 'z', 'ch', 'd'].map((k) => `'${k}': t.number`).join(', ')} }), t.number]);\nexport const api = h.apiSpec({ ${['/ch', '/h', '/z', '/aa', '/Foo', '/bar', '/i', '/y', '/ö', '/o', '/_', '/{x}/-'].map((p, i) => `'r${i}': { ${['PUT', 'GET', 'POST'].map((m) => `${m.toLowerCase()}: h.httpRoute({ path: '${p}', method: '${m}', request: h.httpRequest({${p.includes('{x}') ? ' params: { x: t.string }' : ''}}), response: { 200: ${i % 2 ? 'ch' : 'h1'}, 400: U } })`).join(', ')} }`).join(', ')} });\n` });
    let sortRef;
    // a project that names its files in its package.json, and a directory with other files of those names
    const named = (n, f, type) => ({ 'package.json': JSON.stringify({ name: n, version: '1.0.0', description: n, 'openapi-generator': { 'codec-file': f } }), [f]: `module.exports = (E) => ({ lib: { L: () => E.right({ type: '${type}' }) } });\n`, 'src/index.ts': `${HEAD}import { L } from 'lib';\nimport { A } from './a';\nimport { P } from 'pkg';\n${api('{ query: { q: L } }', 't.type({ a: A, p: P })')}`, 'src/a.ts': `import * as t from 'io-ts';\nexport const A = t.literal('${n}');\n`, 'node_modules/pkg/package.json': pj({ name: 'pkg' }), 'node_modules/pkg/src/index.ts': `import * as t from 'io-ts';\nexport const P = t.literal('pkg of ${n}');\n` });
    const NAMED = [named('one', 'codecs.js', 'string'), named('two', './codecs.js', 'number'), named('three', 'd/codecs.js', 'boolean')].map((f, i) => put(path.join(root, 'named', `n${i}`), f));
    const empty = put(path.join(root, 'named', 'empty'), { 'x.txt': '' });
    const NREF = new Map();
    async function elsewhere(c, i) {
      const dir = NAMED[i];
      const at = c.pick([dir, ...NAMED.filter((d) => d !== dir), path.join(dir, 'src'), path.join(NAMED[(i + 1) % 3], 'src'), empty, path.join(dir, 'node_modules/pkg'), root], 'working directory');
      const rel = c.flag('relative path'), then = c.choose(4, (v) => (v ? `after project ${v - 1}` : 'first'));
      const key = `elsewhere:${i}:${path.relative(root, at)}:${rel}:${then}`;
      const entry = (d) => path.join(d, 'src/index.ts');
      if (!NREF.has(dir)) { NREF.set(dir, real([entry(dir)], { cwd: dir })); if (/^status/.test(NREF.get(dir))) throw new Error(NREF.get(dir)); }
      fresh();
      const cwd = process.cwd();
      process.chdir(at);
      let got;
      try {
        if (then) await g.command([entry(NAMED[then - 1])]);
        got = outcome(await g.command([rel ? path.relative(at, entry(dir)) : entry(dir)]));
      } finally { process.chdir(cwd); }
      c.observe(key);
      same(c, key, got, NREF.get(dir), at);
      const p = JSON.stringify(JSON.parse(got).paths);
      c.check(got.includes(`pkg of ${['one', 'two', 'three'][i]}`) && p.includes(`"${['string', 'number', 'boolean'][i]}"`), `${key}:content`, 'the document describes files of another project', p);
    }
    const REAL = ['sorted', 'plain', 'collisions', 'codecfile', 'pkg', 'fails'];
    async function processes(c, i) {
      const n = REAL[i];
      const locale = c.pick([undefined, 'cs_CZ.UTF-8', 'da_DK.UTF-8', 'tr_TR.UTF-8'], 'locale'), tz = c.pick([undefined, 'Pacific/Kiritimati'], 'time zone'), cwd = c.pick(['root', 'its directory', '/'], 'working directory'), rel = c.flag('relative path');
      const dir = n === 'sorted' ? sortDir : dirs[n];
      const at = cwd === 'root' ? root : cwd === '/' ? '/' : dir;
      const env = {}; if (locale) { env.LC_ALL = locale; env.LANG = locale; } if (tz) env.TZ = tz;
      const args = n === 'sorted' ? [path.join(dir, 'index.ts')] : argv(n, dir);
      const got = real(rel ? args.map((a) => (a.startsWith('/') ? path.relative(at, a) : a)) : args, { env, cwd: at });
      if (n === 'sorted' && sortRef === undefined) sortRef = real([path.join(dir, 'index.ts')]);
      c.observe(`${n}${locale}${tz}${cwd}${rel}`);
      same(c, `process:${n}:${locale || ''}:${tz || ''}:${cwd}:${rel}`, got, n === 'sorted' ? sortRef : ref(n), args);
    }

    return [
      { name: 'history', cases: NAMES.length, chunk: 1, split: 4, run: history, what: 'generations one after another in one process' },
      { name: 'schedules', cases: PAIRS.length, chunk: 4, run: (c, i) => concurrently(c, PAIRS[i]), what: 'two commands at once' },
      { name: 'three', cases: TRIPLES.length, chunk: 4, run: (c, i) => concurrently(c, TRIPLES[i]), deviations: thorough ? undefined : 3, what: 'three commands at once' },
      { name: 'orders', cases: 1, split: 32, run: orders, deviations: thorough ? undefined : 3, what: 'orders of imports and declarations' },
      { name: 'unrelated', cases: 1, split: 32, run: noise, deviations: thorough ? undefined : 4, what: 'unrelated imports and declarations' },
      { name: 'places', cases: NAMES.length, run: places, what: 'directories' },
      { name: 'elsewhere', cases: NAMED.length, run: elsewhere, what: 'working directories with files of the same names' },
      { name: 'processes', cases: REAL.length, run: processes, deviations: thorough ? undefined : 2, what: 'real processes' },
    ];
  },
};
