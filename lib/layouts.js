'use strict';
// Two modules of a program, each importing its neighbour under a relative path:
// where the modules lie, what path they use, and which of several files of that
// name exist is enumerated. The module loader of lib/gen.js (TypeScript before
// JavaScript, file before directory) says which file is meant.
const { show } = require('./explore');
const path = require('path').posix;
const DIRS = ['', 'a', 'b', 'a/s', 'b/s', 'a/a'];
const SPECS = ['./m', '../m', './s/m', './m/index', './s', '../s/m', './../a/m'];
const FORMS = { ts: ['m.ts'], js: ['m.js'], 'ts+js': ['m.js', 'm.ts'], dir: ['m/index.ts'], 'js-dir': ['m/index.js'], 'ts+dir': ['m.ts', 'm/index.ts'], 'dir+js-dir': ['m/index.js', 'm/index.ts'], 'js+dir': ['m.js', 'm/index.ts'], 'ts-and-s': ['m.ts', 's/index.ts'], 'm-s': ['m.ts', 's.ts', 's/index.ts'] };
const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
module.exports = function layouts(g, E, { ref }) {
  return async function run(c) {
    const files = {};
    const imp = [];
    const codec = (f) => (ref ? `t.type({ s: t.literal('${f}') })` : `t.literal('${f}')`);
    const used = new Map();
    for (const k of [0, 1]) {
      const dir = c.pick(DIRS, `dir${k}`, { free: true }), spec = c.pick(SPECS, `spec${k}`, { free: true });
      const base = path.normalize(path.join(dir, spec));
      if (base.startsWith('..') || base === '.') c.prune();
      imp.push({ k, dir, spec, base });
    }
    if (imp[0].dir === imp[1].dir && imp[0].spec === imp[1].spec) c.prune();
    for (const d of DIRS) {
      const near = imp.some((i) => [path.join(d, 'm'), path.join(d, 's'), path.join(d, 'm/index')].includes(i.base));
      const form = near ? c.pick(Object.keys(FORMS), `files in ${d || '.'}`) : 'ts';
      for (const f of FORMS[form]) files[path.join(d, f)] = `${HEAD}export const M = ${codec(path.join(d, f))};\n`;
    }
    for (const i of imp) {
      i.how = c.pick(['import', 'reexport', 'star', 'namespace', 'default-index'], `how${i.k}`);
      const me = path.join(i.dir, `x${i.k}.ts`);
      i.name = { import: 'X', reexport: 'X', star: 'M', namespace: 'X', 'default-index': 'X' }[i.how];
      files[me] = HEAD + { import: `import { M } from '${i.spec}';\nexport const X = t.type({ v: M });\n`, reexport: `export { M as X } from '${i.spec}';\n`, star: `export * from '${i.spec}';\n`, namespace: `import * as ns from '${i.spec}';\nexport const X = t.type({ v: ns.M });\n`, 'default-index': `import { M } from '${i.spec}';\nexport const X = t.array(M);\n` }[i.how];
    }
    files['index.ts'] = `${HEAD}${imp.map((i) => `import * as n${i.k} from './${path.join(i.dir, `x${i.k}`)}';\n`).join('')}export const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: n0.${imp[0].name}, 201: n1.${imp[1].name} } }) } });\n`;
    let mod;
    try { mod = g.evaluate(files); } catch (e) { if (/^no module/.test(e.message)) c.prune(); throw e; }
    const key = (k) => `layout-${k}:${imp.map((i) => `${i.dir}/${i.how}/${i.spec}`).join(' ')}:${Object.keys(files).filter((f) => /\b[ms](\/index)?\.[tj]s$/.test(f)).join(',')}`;
    const r = await g.run(files);
    c.observe(r.stdout + (r.code === 0 ? '' : 'failed'));
    c.check(r.code === 0 && r.doc, () => key('fails'), () => `the command failed: ${r.stderr.slice(0, 400)}`, () => files);
    const p = g.problems(r.doc);
    c.check(p.length === 0, () => key('malformed'), () => p.join('; '), () => ({ files, doc: r.doc }));
    const op = r.doc.paths['/p'].post, route = mod.api['x.y'].post;
    for (const code of ['200', '201']) {
      const schema = op.responses[code].content['application/json'].schema;
      for (const f of Object.keys(files)) {
        const x = ref ? { s: f } : f;
        for (const v of [x, { v: x }, [x]]) {
          const a = E.isRight(route.response[code].decode(v)), d = schema === undefined ? false : g.accepts(r.doc, schema, v);
          if (a !== d) c.fail(key(a ? 'rejects' : 'accepts'), `the schema of response ${code} ${d ? 'accepts' : 'rejects'} ${show(v)}, the codec does not agree`, { files, schema, components: r.doc.components });
        }
      }
    }
  };
};
