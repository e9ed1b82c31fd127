'use strict';
const { show } = require('../lib/explore');
const makeGen = require('../lib/gen');
const layouts = require('../lib/layouts');

const NAMES = ['Foo', 'Foo1', 'Foo2', 'Bar', 'constructor', '__proto__', 'Foo11'];
const PLACES = ['index.ts', 'a.ts', 'b.ts', 'd/a.ts', 'pkg', '@s/pkg', 'pkg:deep'];
const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
const base = (s) => [{ s }, { s, n: { s: '0' } }, { s, n: { s: '1' } }, { s, n: { s: '2' } }, { s, n: { s: '1', n: { s: '2' } } }, { s, n: { s: '2', n: { s: '1' } } }, { s, n: { s: '0', n: { s: '2' } } }, { s, n: { s: '2', n: { s: '0' } } }];
const BASE = ['0', '1', '2'].flatMap(base);
const VALUES = [null, 'a', {}, [], ...BASE, ...BASE.map((v) => ({ v })), ...BASE.map((v) => [v]), ...BASE.map((v) => ({ x: v })), ...BASE.map((v) => ({ v, w: 'a' }))];
// how a route uses a codec
const POSITIONS = [
  ['direct', (x) => x], ['property', (x) => `t.type({ v: ${x} })`], ['array', (x) => `t.array(t.type({ s: t.union([t.null, ${x}]) }))`], ['union', (x) => `t.union([t.number, t.type({ v: ${x} })])`],
  ['optional', (x) => `h.optionalized({ v: h.optional(${x}), w: t.string })`], ['record', (x) => `t.record(t.string, t.type({ v: ${x} }))`], ['intersection', (x) => `t.intersection([t.type({ v: ${x} }), t.partial({ w: t.string })])`], ['nested', (x) => `t.type({ v: t.type({ v: t.type({ v: ${x} }) }) })`],
  ['beside', (x) => `t.type({ v: t.union([Beside, t.type({ v: ${x} })]) })`], ['beside2', (x) => `t.type({ v: t.union([t.union([${x}, t.null]), Beside]) })`], ['beside3', (x) => `t.type({ w: Beside, v: t.union([t.type({ v: t.union([t.number, ${x}]) }), t.number]) })`],
];
VALUES.push(...BASE.map((v) => ({ v: { v: { v } } })), ...BASE.map((v) => [{ s: v }]), [{ s: null }], ...['x', 'y'].flatMap((z) => [{ v: { z } }, { w: { z }, v: 1 }, { w: { z }, v: { v: 1 } }, ...BASE.map((v) => ({ w: { z }, v: { v } }))]), { v: null }, ...BASE.map((v) => ({ v: { v } })), ...BASE.map((v) => ({ x: { v } })), 1);

module.exports = {
  id: 'C16',
  bounds: '2 and 3 codecs with every name from 7 (numbered names, Object.prototype members) in every file or package of 7, each defined directly, nesting or aliasing the next one, imported in 5 ways and used in 11 positions of responses, bodies and parameters, in both orders; up to 3 (quick) / 4 (thorough) choices off the default; cyclic definitions end.',
  assumptions: ['Two versions of one package in one program are not distinguished.'],
  scenarios(b, tier) {
    const E = b.require('fp-ts/Either');
    const g = makeGen(b);
    function build(c, count) {
      const defs = [];
      for (let k = 0; k < count; k++) {
        const d = { k, name: c.pick(NAMES, `name${k}`), place: c.pick(k === 0 ? PLACES.slice(1).concat('index.ts') : PLACES.slice(2).concat('index.ts', 'a.ts'), `place${k}`) };
        if (defs.some((e) => e.name === d.name && e.place === d.place)) c.prune();
        if (defs.some((e) => e.name === d.name && /pkg/.test(e.place + d.place) && e.place.split(':')[0] === d.place.split(':')[0])) c.prune(); // a package exports a name once
        defs.push(d);
      }
      for (const d of defs) {
        d.form = d.k + 1 < count ? c.pick(['direct', 'nests', 'alias'], `form${d.k}`) : 'direct';
        d.imp = c.pick(d.place === 'index.ts' ? ['local'] : ['renamed', 'namespace', 'named', 'barrel', 'barrel-star'], `import${d.k}`);
        d.pos = c.pick(POSITIONS, `position${d.k}`);
        d.where = c.pick(['response', 'body', 'query', 'unused'], `where${d.k}`);
      }
      const order = c.flag('reversed') ? [...defs].reverse() : defs;
      // ---- files
      const files = {};
      const parts = new Map();
      const P = (f) => { if (!parts.has(f)) parts.set(f, { imports: new Set(), body: [] }); return parts.get(f); };
      const fileOf = (pl) => (pl === 'pkg' ? 'node_modules/pkg/src/index.ts' : pl === '@s/pkg' ? 'node_modules/@s/pkg/src/index.ts' : pl === 'pkg:deep' ? 'node_modules/pkg/src/deep.ts' : pl);
      const spec = (from, pl) => {
        if (/pkg/.test(pl)) {
          if (/node_modules\/pkg/.test(from) && /^pkg/.test(pl)) return pl === 'pkg' ? './index' : './deep';
          return pl.split(':')[0];
        }
        const p = require('path').posix;
        let r = p.relative(p.dirname(from), pl).replace(/\.ts$/, '');
        return r.startsWith('.') ? r : './' + r;
      };
      for (const d of defs) if (/pkg/.test(d.place)) {
        const nm = d.place.split(':')[0];
        files[`node_modules/${nm}/package.json`] = JSON.stringify({ name: nm, version: '1.0.0', source: 'src/index.ts' });
        P(`node_modules/${nm}/src/index.ts`);
        if (d.place === 'pkg:deep') P(fileOf('pkg')).body.push(`export { ${d.name} } from './deep';`);
      }
      // later definitions first, so that evaluation order works inside a file
      for (const d of [...defs].reverse()) {
        const f = P(fileOf(d.place));
        let next = '';
        if (d.form !== 'direct') {
          const e = defs[d.k + 1];
          if (e.place === d.place) next = e.name;
          else {
            if (e.place === 'index.ts') c.prune(); // cyclic imports
            if (/pkg/.test(d.place) && !/pkg/.test(e.place)) c.prune(); // packages do not import the application
            if (d.place === 'pkg:deep' && e.place === 'pkg') c.prune();
            next = `N${d.k}`; f.imports.add(`import { ${e.name} as ${next} } from '${spec(fileOf(d.place), e.place)}';`);
          }
          // a package that defines the next one and re-exports this: cyclic imports
          if (d.place === 'pkg' && defs.some((x) => x.place === 'pkg:deep' && x.form !== 'direct' && defs[x.k + 1].place === 'pkg')) c.prune();
        }
        const own = d.form === 'direct' ? `t.type({ s: t.literal('${d.k}') })` : d.form === 'nests' ? `t.type({ s: t.literal('${d.k}'), n: ${next} })` : next;
        f.body.push(`export const ${d.name} = ${own};`);
      }
      const responses = [], body = [], query = [];
      const index = P('index.ts');
      const bound = new Set(defs.filter((d) => d.place === 'index.ts').map((d) => d.name));
      for (const d of order) {
        const s = d.place === 'index.ts' ? '' : spec('index.ts', d.place);
        let x;
        switch (d.imp) {
          case 'local': x = d.name; break;
          case 'renamed': index.imports.add(`import { ${d.name} as L${d.k} } from '${s}';`); x = `L${d.k}`; break;
          case 'namespace': index.imports.add(`import * as ns${d.k} from '${s}';`); x = `ns${d.k}.${d.name}`; break;
          case 'named': if (bound.has(d.name)) c.prune(); bound.add(d.name); index.imports.add(`import { ${d.name} } from '${s}';`); x = d.name; break;
          case 'barrel': index.imports.add(`import { Ex${d.k} as L${d.k} } from './barrel${d.k}';`); x = `L${d.k}`; P(`barrel${d.k}.ts`).body.push(`export { ${d.name} as Ex${d.k} } from '${s}';`); break;
          case 'barrel-star': if (d.name === '__proto__') c.prune(); index.imports.add(`import * as ns${d.k} from './barrel${d.k}';`); x = `ns${d.k}.${d.name}`; P(`barrel${d.k}.ts`).body.push(`export * from '${s}';`); break;
        }
        const use = d.pos[1](x);
        if (d.where === 'response') responses.push(`${200 + d.k}: ${use}`);
        if (d.where === 'body') body.push(`b${d.k}: ${use}`);
        if (d.where === 'query') query.push(`q${d.k}: ${use}`);
      }
      if (defs.some((d) => /^beside/.test(d.pos[0]))) index.body.push("export const Beside = t.type({ z: t.union([t.literal('x'), t.literal('y')]) });");
      if (!responses.length) responses.push('204: t.string');
      index.body.push(`export const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({ ${query.length ? `query: { ${query.join(', ')} } as any, ` : ''}${body.length ? `body: { ${body.join(', ')} }` : ''} }), response: { ${responses.join(', ')} } }) } });`);
      for (const [f, p] of parts) files[f] = HEAD + [...p.imports].join('\n') + '\n' + p.body.join('\n') + '\n';
      const key = (k) => `${k}:${defs.map((d) => `${d.name}@${d.place}/${d.form}/${d.imp}/${d.pos[0]}/${d.where}`).join(' ')}${order === defs ? '' : ' reversed'}`;
      return { files, key, defs };
    }
    async function run(c, count) {
      const { files, key, defs } = build(c, count);
      const route = g.evaluate(files).api['x.y'].post;
      const r = await g.run(files);
      c.observe(r.stdout + (r.code === 0 ? '' : 'failed'));
      c.check(r.code === 0 && r.doc, () => key('fails'), () => `the command failed: ${r.stderr.slice(0, 500)}`, () => files);
      const p = g.problems(r.doc);
      c.check(p.length === 0, () => key('malformed'), () => p.join('; '), () => ({ files, doc: r.doc }));
      const op = r.doc.paths['/p'].post;
      const cmp = (what, decode, schema) => {
        for (const v of VALUES) {
          const a = decode(v), d = schema === undefined ? false : g.accepts(r.doc, schema, v);
          if (a !== d) c.fail(key(`${what}-${a ? 'rejects' : 'accepts'}`), `the ${what} schema ${d ? 'accepts' : 'rejects'} ${show(v)}, the codec does not agree`, { files, schema, components: r.doc.components });
        }
      };
      for (const code of Object.keys(route.response)) cmp(`response ${code}`, (v) => E.isRight(route.response[code].decode(v)), (op.responses[code] || { content: { 'application/json': {} } }).content['application/json'].schema);
      // body and query: the value of one property at a time, the others absent or as they are
      for (const d of defs) {
        const x = d.where === 'body' ? `b${d.k}` : d.where === 'query' ? `q${d.k}` : undefined;
        if (!x) continue;
        const bare = (v) => { // errors that concern this property only
          const e = route.request.decode({ params: {}, headers: {}, query: d.where === 'query' ? { [x]: v } : {}, body: d.where === 'body' ? { [x]: v } : {} });
          return E.isRight(e) || !e.left.some((err) => err.context.some((q) => q.key === x));
        };
        let schema;
        if (d.where === 'body') schema = op.requestBody.content['application/json'].schema.properties[x];
        else { const pr = op.parameters.find((q) => q.name === x && q.in === 'query'); c.check(pr, () => key('no-parameter'), `no parameter ${x}`, () => ({ files, op })); schema = pr.schema; }
        cmp(d.where, bare, schema);
      }
    }
    // definitions that refer to each other: the command ends, with a document whose references resolve or with a failure
    const CYC = [['type', (x) => `t.type({ x: ${x} })`], ['array', (x) => `t.array(${x})`], ['alias', (x) => x], ['union', (x) => `t.union([t.null, ${x}])`], ['intersection', (x) => `t.intersection([t.type({ a: t.string }), ${x}])`], ['partial', (x) => `t.partial({ x: ${x} })`], ['arrow', (x) => `() => ${x}`], ['spread', (x) => `t.type({ ...${x} })`]];
    async function cycles(c) {
      const n = 1 + c.choose(3, (v) => `length${v + 1}`);
      const forms = [], split = c.flag('files');
      for (let i = 0; i < n; i++) forms.push(c.pick(CYC, `form${i}`));
      const call = (i) => (forms[i % n][0] === 'arrow' ? `C${i % n}()` : `C${i % n}`);
      const files = {};
      if (split) {
        for (let i = 0; i < n; i++) files[`c${i}.ts`] = `${HEAD}${n > 1 ? `import { C${(i + 1) % n} } from './c${(i + 1) % n}';\n` : ''}export const C${i}: any = ${forms[i][1](call(i + 1))};\n`;
      }
      files['index.ts'] = `${HEAD}${split ? "import { C0 } from './c0';\n" : forms.map((f, i) => `export const C${i}: any = ${f[1](call(i + 1))};\n`).join('')}export const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: ${call(0)} } }) } });\n`;
      const r = await g.run(files);
      c.observe(`${r.code} ${r.stdout}`);
      const key = (k) => `${k}:${forms.map((f) => f[0]).join('+')}${split ? '/files' : ''}`;
      if (r.code === 0) {
        c.check(r.doc, () => key('no-document'), 'status 0 without a document', () => ({ files, r: r.stdout }));
        const p = g.problems(r.doc);
        c.check(p.length === 0, () => key('malformed'), () => p.join('; '), () => ({ files, doc: r.doc }));
        if (forms.every((f) => ['type', 'partial'].includes(f[0]))) for (let i = 0; i < n; i++) c.check(JSON.stringify(r.doc.components.schemas).includes('$ref'), () => key('no-ref'), 'a cyclic codec without references', () => r.doc);
      } else {
        c.check(r.stdout === '', () => key('output'), 'a failure with output', () => r.stdout);
        c.check(!forms.every((f) => ['type', 'partial'].includes(f[0])), () => key('fails'), () => `cyclic object codecs are not described: ${r.stderr.slice(0, 300)}`, () => files);
      }
    }
    return [
      { name: 'two', split: 128, run: (c) => run(c, 2), deviations: tier === 'thorough' ? 4 : 3, what: 'two codecs' },
      { name: 'three', split: 128, run: (c) => run(c, 3), deviations: tier === 'thorough' ? 3 : 2, what: 'three codecs' },
      { name: 'cycles', run: cycles, what: 'cyclic definitions' },
      { name: 'layouts', shards: [6], run: layouts(g, E, { ref: true }), deviations: tier === 'thorough' ? 3 : 1, what: 'relative imports from every directory, with several files of a name' },
    ];
  },
};
