'use strict';
const { show } = require('../lib/explore');
const makeGen = require('../lib/gen');
const layouts = require('../lib/layouts');

// What a name can stand for: how it is defined (with a signature that tells it
// from every other definition of the same kind) and how it is used.
const KINDS = [
  { name: 'codec', def: (s) => `t.literal('${s}')`, use: (x) => `t.type({ v: ${x} })` },
  { name: 'object-codec', def: (s) => `t.type({ s: t.literal('${s}') })`, use: (x) => x },
  { name: 'argument', def: (s) => `t.literal('${s}')`, use: (x) => `t.type({ a: t.array(${x}), o: h.optional(${x}) })` },
  { name: 'literal', def: (s) => `'${s}' as const`, use: (x) => `t.type({ v: t.literal(${x}) })` },
  { name: 'spread', def: (s) => `{ s: t.literal('${s}') }`, use: (x) => `t.type({ v: t.string, ...${x} })` },
  { name: 'props', def: (s) => `{ s: t.literal('${s}') }`, use: (x) => `t.type(${x})` },
  { name: 'key', def: (s) => `'${s}'`, use: (x) => `t.type({ [${x}]: t.string })` },
  { name: 'template', def: (s) => `'${s}'`, use: (x) => `t.literal(\`x-\${${x}}\`)` },
  { name: 'path', def: (s) => `'/${s}'`, path: (x) => x },
  { name: 'path-template', def: (s) => `'${s}'`, path: (x) => `\`/p/\${${x}}\`` },
  { name: 'member', def: (s) => `{ m: t.literal('${s}'), n: t.literal('not-${s}') }`, use: (x) => `t.type({ v: ${x}.m })` },
  { name: 'enum', enum: (n, s) => `enum ${n} { m = '${s}', n = 'not-${s}' }`, use: (x) => `t.literal(${x}.m)` },
  { name: 'function', def: (s) => `() => t.literal('${s}')`, use: (x) => `t.type({ v: ${x}() })` },
  { name: 'union-member', def: (s) => `t.type({ s: t.literal('${s}') })`, use: (x) => `t.union([${x}, t.null])` },
  { name: 'array-spread', def: (s) => `[t.literal('${s}'), t.null]`, use: (x) => `t.union([t.number, ...${x}])` },
  { name: 'responses', def: (s) => `{ 200: t.literal('${s}') }`, responses: (x) => x },
  { name: 'route', def: (s) => `h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: t.literal('${s}') } })`, route: (x) => x },
  { name: 'actions', def: (s) => `{ post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: t.literal('${s}') } }) }`, actions: (x) => x },
  { name: 'api', def: (s) => `{ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: t.literal('${s}') } }) } }`, api: (x) => x },
];
// Every other place in which the generator follows a name
const lit = (s) => `t.literal('${s}')`;
const USES = [
  { name: 'assign-source', def: (s) => `{ s: ${lit(s)} }`, use: (x) => `t.type(Object.assign({ v: t.string }, ${x}))` },
  { name: 'assign-second', def: (s) => `{ s: ${lit(s)} }`, use: (x) => `t.type(Object.assign({}, { v: t.string }, ${x}))` },
  { name: 'assign-target', def: (s) => `{ s: ${lit(s)} }`, use: (x) => `t.type(Object.assign(${x}, { v: t.string }))` },
  { name: 'partial', def: (s) => `{ s: ${lit(s)} }`, use: (x) => `t.partial(${x})` },
  { name: 'strict', def: (s) => `{ s: ${lit(s)} }`, use: (x) => `t.strict(${x})` },
  { name: 'optionalized', def: (s) => `{ s: ${lit(s)} }`, use: (x) => `h.optionalized(${x})` },
  { name: 'exact', def: (s) => `t.type({ s: ${lit(s)} })`, use: (x) => `t.exact(${x})` },
  { name: 'keyof', def: (s) => `{ '${s}': null }`, use: (x) => `t.keyof(${x})` },
  { name: 'domain', def: (s) => `t.keyof({ '${s}': null })`, use: (x) => `t.record(${x}, t.string)` },
  { name: 'codomain', def: (s) => lit(s), use: (x) => `t.record(t.string, ${x})` },
  { name: 'intersection-member', def: (s) => `t.type({ s: ${lit(s)} })`, use: (x) => `t.intersection([t.type({ v: t.string }), ${x}])` },
  { name: 'union-list', def: (s) => `[${lit(s)}, t.null]`, use: (x) => `t.union(${x} as any)` },
  { name: 'intersection-list', def: (s) => `[t.type({ v: t.string }), t.type({ s: ${lit(s)} })]`, use: (x) => `t.intersection(${x} as any)` },
  { name: 'keys', def: (s) => `t.keyof({ m: '${s}' } as any)`, use: (x) => `t.literal(${x}.keys.m)` },
  { name: 'quoted-member', def: (s) => `{ m: ${lit(s)} }`, use: (x) => `t.type({ v: ${x}['m'] })` },
  { name: 'two-members', def: (s) => `{ m: { n: ${lit(s)} } }`, use: (x) => `t.type({ v: ${x}.m.n })` },
  { name: 'member-key', def: (s) => `{ m: '${s}' }`, use: (x) => `t.type({ [${x}.m]: t.string })` },
  { name: 'member-template', def: (s) => `{ m: '${s}' }`, use: (x) => `t.literal(\`x-\${${x}.m}\`)` },
  { name: 'member-spread', def: (s) => `{ m: { s: ${lit(s)} } }`, use: (x) => `t.type({ v: t.string, ...${x}.m })` },
  { name: 'member-function', def: (s) => `{ m: () => ${lit(s)} }`, use: (x) => `t.type({ v: ${x}.m() })` },
  { name: 'props-function', def: (s) => `() => ({ s: ${lit(s)} })`, use: (x) => `t.type(${x}())` },
  { name: 'spread-function', def: (s) => `() => ({ s: ${lit(s)} })`, use: (x) => `t.type({ v: t.string, ...${x}() })` },
  { name: 'two-spreads', def: (s) => `{ s: ${lit(s)} }`, use: (x) => `t.type({ s: t.string, ...${x}, ...{ v: t.string } })` },
  { name: 'spread-over', def: (s) => `{ s: ${lit(s)} }`, use: (x) => `t.type({ ...${x}, s: t.string })` },
  { name: 'array-spreads', def: (s) => `[${lit(s)}]`, use: (x) => `t.union([...${x}, t.null, ...${x}] as any)` },
  { name: 'brand', def: (s) => lit(s), use: (x) => `t.brand(${x}, (v): v is any => true, 'B' as any)` },
  { name: 'body', def: (s) => `{ s: ${lit(s)} }`, request: (x) => `h.httpRequest({ body: ${x} })` },
  { name: 'raw-body', def: (s) => lit(s), request: (x) => `t.intersection([h.httpRequest({}), t.type({ body: ${x} })])` },
  { name: 'query', def: (s) => `{ s: ${lit(s)} }`, request: (x) => `h.httpRequest({ query: ${x} })` },
  { name: 'query-spread', def: (s) => `{ s: ${lit(s)} }`, request: (x) => `h.httpRequest({ query: { v: t.string, ...${x} } })` },
  { name: 'headers', def: (s) => `{ s: ${lit(s)} }`, request: (x) => `h.httpRequest({ headers: ${x} })` },
  { name: 'request-parts', def: (s) => `{ query: { s: ${lit(s)} } }`, request: (x) => `h.httpRequest(${x})` },
  { name: 'request-spread', def: (s) => `{ query: { s: ${lit(s)} } }`, request: (x) => `h.httpRequest({ body: { v: t.string }, ...${x} })` },
  { name: 'request', def: (s) => `h.httpRequest({ query: { s: ${lit(s)} } })`, request: (x) => x },
  { name: 'request-intersection', def: (s) => `h.httpRequest({ query: { s: ${lit(s)} } })`, request: (x) => `t.intersection([${x}, h.httpRequest({ query: { v: t.string } })])` },
  { name: 'request-union-body', def: (s) => `h.httpRequest({ body: { s: ${lit(s)} } })`, request: (x) => `t.union([${x}, h.httpRequest({ body: { v: t.string } })])` },
  { name: 'response', def: (s) => lit(s), responses: (x) => `{ 200: ${x} }` },
  { name: 'response-spread', def: (s) => `{ 200: ${lit(s)} }`, responses: (x) => `{ 404: t.string, ...${x} }` },
  { name: 'status-key', def: (s) => (s === 'def' ? '201' : /^decoy\d/.test(s) ? `40${s[5]}` : '500'), responses: (x) => `{ [${x}]: t.string }` },
  { name: 'method', def: (s) => (s === 'def' ? `'PATCH' as const` : `'PUT' as const`), method: (x) => x },
  { name: 'route-parts', def: (s) => `{ path: '/p', method: 'POST' as const, request: h.httpRequest({}), response: { 200: ${lit(s)} } }`, route: (x) => `h.httpRoute(${x})` },
  { name: 'route-spread', def: (s) => `{ path: '/p', method: 'POST' as const, request: h.httpRequest({}), response: { 200: ${lit(s)} } }`, route: (x) => `h.httpRoute({ ...${x}, path: '/q' })` },
  { name: 'plain-route', def: (s) => `{ path: '/p', method: 'POST' as const, request: h.httpRequest({}), response: { 200: ${lit(s)} } }`, route: (x) => x },
  { name: 'actions-spread', def: (s) => `{ post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: ${lit(s)} } }) }`, actions: (x) => `{ ...${x}, get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) }` },
  { name: 'whole-api', def: (s) => `{ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: ${lit(s)} } }) } }`, spec: (x) => x },
  { name: 'spec-spread', def: (s) => `h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: ${lit(s)} } }) } })`, api: (x) => x },
  { name: 'action-name', def: (s) => `'${s}'`, api: (x) => `{ [${x}]: { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: t.string } }) } }` },
];
const SIGS = ['def', 'not-def', 'other', 'decoy0', 'decoy1', 'decoy2', 'decoy3', 'decoy4', 'not-decoy0', 'not-decoy1', 'not-decoy2', 'not-decoy3', 'not-decoy4'];
const VALUES = [null, 'a', 1, {}, ...SIGS.flatMap((s) => [s, 'x-' + s, { v: s }, { s }, { v: 'a', s }, { [s]: 'a' }, { a: [s] }, { a: [], o: s }])];
const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";

module.exports = {
  id: 'C17',
  KINDS, USES, VALUES, HEAD,
};
Object.assign(module.exports, {
  bounds: '19 kinds of named things x 9 ways to export x chains of up to 2 (quick) / 3 (thorough) re-exporting modules of 9 forms x 5 import forms x module locations x decoys with a colliding name; up to 4 (quick) / 5 (thorough) choices off the default.',
  assumptions: ['Forms the generator does not support (listed in the check) may fail, but must not produce a different meaning.'],
  scenarios(b, tier) {
    const E = b.require('fp-ts/Either');
    const g = makeGen(b);
    const EXPORTS = ['export-const', 'export-list', 'export-rename', 'default-name', 'list-default', 'default-expression', 'alias', 'alias-rename', 'let'];
    const STEPS = ['reexport', 'star', 'reexport-rename', 'import-export', 'import-export-rename', 'reexport-default', 'import-default', 'alias', 'star-and-own'];
    const IMPORTS = ['named', 'renamed', 'namespace', 'default-as', 'two'];
    const PLACES = ['./m', './d/m', './d/index', 'pkg', '@s/pkg', 'pkg-deep'];
    async function run(c, steps, kinds) {
      const files = {};
      let decoys = 0;
      const kind = c.pick(kinds, 'kind');
      const unsupported = [];
      const define = (n, s) => (kind.enum ? kind.enum(n, s) : `const ${n} = ${kind.def(s)}`);
      // ---- the definition
      const ex = c.pick(EXPORTS, 'export');
      let name = 'Foo', src = '';
      switch (ex) {
        case 'export-const': src = `export ${define('Foo', 'def')};`; break;
        case 'export-list': src = `${define('Foo', 'def')};\nexport { Foo };`; break;
        case 'export-rename': src = `${define('Foo', 'def')};\nexport { Foo as Bar };`; name = 'Bar'; break;
        case 'default-name': src = `${define('Foo', 'def')};\nexport default Foo;`; name = 'default'; break;
        case 'list-default': src = `${define('Foo', 'def')};\nexport { Foo as default };`; name = 'default'; break;
        case 'default-expression': if (kind.enum) c.prune(); src = `export default ${kind.def('def')};`; name = 'default'; break;
        case 'alias': if (kind.enum) c.prune(); src = `${define('Orig', 'def')};\nexport const Foo = Orig;`; break;
        case 'alias-rename': if (kind.enum) c.prune(); src = `${define('Bar', 'def')};\nconst Baz = Bar;\nexport { Baz as Foo };`; break;
        case 'let': if (kind.enum) c.prune(); src = `export let Foo = ${kind.def('def')};`; break;
      }
      // a decoy under the exported name (or another one) in the same module
      const declared = new Set(src.match(/(?:const|let|enum) (\w+)/g)?.map((x) => x.split(' ')[1]) || []);
      const decoy = (own) => {
        const n = ['Foo', 'Bar', 'Baz'].filter((x) => !own.has(x));
        const d = c.choose(1 + n.length, (v) => `decoy:${v ? n[v - 1] : '-'}`);
        if (!d) return '';
        own.add(n[d - 1]);
        return `${define(n[d - 1], `decoy${decoys++}`)};\n`;
      };
      src = decoy(declared) + src;
      // ---- where modules live
      let n = 0;
      let from = 'index.ts';
      const chain = [];
      for (let k = 0; k < steps && c.flag(`step${k}`); k++) chain.push(c.pick(STEPS, `form${k}`));
      const place = c.pick(PLACES, 'place');
      if (chain.length === 0 && /pkg-deep/.test(place)) c.prune();
      // file of module i: 0 = definition, 1.. = re-exporters; specifier used by the importer
      const isPkg = /pkg/.test(place);
      const pkg = place === '@s/pkg' ? '@s/pkg' : 'pkg';
      let entrySpec;
      const fileOf = (i, last) => {
        if (!isPkg) return place === './m' ? `m${i}.ts` : place === './d/m' ? `d/m${i}.ts` : last ? 'd/index.ts' : `d/m${i}.ts`;
        return last ? `node_modules/${pkg}/src/index.ts` : place === 'pkg-deep' ? `node_modules/${pkg}/src/deep/m${i}.ts` : `node_modules/${pkg}/src/m${i}.ts`;
      };
      const last = chain.length;
      entrySpec = isPkg ? pkg : place === './m' ? `./m${last}` : place === './d/m' ? `./d/m${last}` : './d';
      if (isPkg) files[`node_modules/${pkg}/package.json`] = JSON.stringify({ name: pkg, version: '1.0.0', source: 'src/index.ts', types: 'dist/src/index.d.ts' });
      files[fileOf(0, last === 0)] = HEAD + src + '\n';
      const relative = (a, bfile) => { const p = require('path').posix; let r = p.relative(p.dirname(a), bfile).replace(/\.ts$/, ''); return r.startsWith('.') ? r : './' + r; };
      for (let i = 1; i <= last; i++) {
        const me = fileOf(i, i === last), spec = relative(me, fileOf(i - 1, false));
        const own = new Set();
        const other = c.pick(['Bar', 'Foo', 'Baz'], `name${i}`);
        let body, next = name;
        switch (chain[i - 1]) {
          case 'reexport': body = `export { ${name} } from '${spec}';`; break;
          case 'star': if (name === 'default') c.prune(); body = `export * from '${spec}';`; break;
          case 'reexport-rename': if (other === name) c.prune(); body = `export { ${name} as ${other} } from '${spec}';`; next = other; break;
          case 'import-export': body = name === 'default' ? `import L from '${spec}';\nexport { L };` : `import { ${name} } from '${spec}';\nexport { ${name} };`; own.add(name); if (name === 'default') next = 'L'; break;
          case 'import-export-rename': body = `import { ${name} as L } from '${spec}';\nexport { L as ${other} };`; next = other; break;
          case 'reexport-default': if (name === 'default') c.prune(); body = `export { ${name} as default } from '${spec}';`; next = 'default'; break;
          case 'import-default': body = `import { ${name} as L } from '${spec}';\nexport default L;`; next = 'default'; break;
          case 'alias': body = `import { ${name} as L } from '${spec}';\nexport const ${other} = L;`; own.add(other); next = other; break;
          case 'star-and-own': if (name === 'default' || kind.enum) c.prune(); body = `export * from '${spec}';\nexport const ${other} = ${kind.def('other')};`; own.add(other); next = name; break;
        }
        if (!['reexport-rename', 'import-export-rename', 'alias', 'star-and-own'].includes(chain[i - 1]) && other !== 'Bar') c.prune();
        files[me] = HEAD + decoy(own) + body + '\n';
        name = next;
      }
      // ---- the use
      const imp = c.pick(IMPORTS, 'import');
      const own = new Set();
      let head = '', x;
      switch (imp) {
        case 'named': if (name === 'default') { head = `import Loc from '${entrySpec}';\n`; x = 'Loc'; } else { head = `import { ${name} } from '${entrySpec}';\n`; x = name; own.add(name); } break;
        case 'renamed': if (name === 'default') c.prune(); head = `import { ${name} as Loc } from '${entrySpec}';\n`; x = 'Loc'; break;
        case 'namespace': head = `import * as ns from '${entrySpec}';\n`; x = `ns.${name}`; break;
        case 'default-as': if (name !== 'default') c.prune(); head = `import { default as Baz } from '${entrySpec}';\n`; x = 'Baz'; own.add('Baz'); break;
        case 'two': if (name === 'default') c.prune(); head = `import { ${name} as Loc } from '${entrySpec}';\nimport * as ns2 from '${entrySpec}';\n`; x = 'Loc'; break;
      }
      const local = decoy(own);
      const alias = c.flag('local-alias');
      let decl = '';
      if (alias) { if (kind.enum) c.prune(); decl = `const Here = ${x};\n`; x = 'Here'; }
      const route = kind.route ? kind.route(x) : `h.httpRoute({ path: ${kind.path ? kind.path(x) : "'/p'"}, method: ${kind.method ? kind.method(x) : "'POST'"}, request: ${kind.request ? kind.request(x) : 'h.httpRequest({})'}, response: ${kind.responses ? kind.responses(x) : `{ 200: ${kind.use ? kind.use(x) : "t.literal('def')"} }`} })`;
      const actions = kind.actions ? kind.actions(x) : `{ post: ${route} }`;
      const api = kind.spec ? kind.spec(x) : kind.api ? `{ ...${kind.api(x)} }` : `{ 'x.y': ${actions} }`;
      files['index.ts'] = `${HEAD}${head}${local}${decl}export const api = h.apiSpec(${api});\n`;
      const key = (k) => `${k}:${kind.name}/${ex}/${chain.join('+') || 'direct'}/${imp}${alias ? '+alias' : ''}/${place}${decoys ? '/decoy' : ''}`;
      await judge(c, files, key, () => unsupported.length > 0 || cannot(kind, ex, chain, imp, alias, name), kind.request);
    }
    // forms that are refused (they were never supported); refusing is allowed, another meaning is not
    function cannot({ name: kind }, ex, chain, imp, alias) {
      const renamedConst = alias || /^alias/.test(ex) || chain.includes('alias');
      if (['literal', 'path', 'props', 'responses', 'function'].includes(kind)) return renamedConst;
      if (['enum', 'member', 'keys', 'whole-api', 'member-key', 'member-template', 'member-spread', 'member-function'].includes(kind)) return imp === 'namespace';
      if (['quoted-member', 'two-members', 'spread-function', 'props-function', 'actions-spread', 'member-function'].includes(kind)) return true;
      if (USES.some((u) => u.name === kind) && !/^assign-s/.test(kind)) return renamedConst;
      return false;
    }
    const REQUESTS = [{}, { s: 'def' }, { v: 'a' }, { s: 'def', v: 'a' }, { s: 'other' }, { s: 'decoy0' }, { s: 'decoy1' }, { s: 'decoy2' }].flatMap((o) => ['query', 'headers', 'body'].map((k) => ({ params: {}, query: {}, headers: {}, body: {}, [k]: o }))).concat(['def', 'other', 'decoy0', 'decoy1', null].map((body) => ({ params: {}, query: {}, headers: {}, body })), [{ params: {}, query: { s: 'def' }, headers: {}, body: { v: 'a' } }]);
    function acceptsRequest(doc, op, q) {
      for (const p of op.parameters) {
        const v = { query: q.query, path: q.params, header: q.headers }[p.in][p.name];
        if (v === undefined ? p.required : !g.accepts(doc, p.schema, v)) return false;
      }
      return !op.requestBody || g.accepts(doc, op.requestBody.content['application/json'].schema, q.body);
    }
    async function judge(c, files, key, mayFail, requests) {
      const mod = g.evaluate(files);
      const routes = Object.values(mod.api).flatMap((a) => Object.values(a));
      const r = await g.run(files);
      c.observe(r.stdout + (r.code === 0 ? '' : 'failed'));
      if (r.code !== 0 && mayFail()) return;
      c.check(r.code === 0 && r.doc, () => key('fails'), () => `the command failed: ${r.stderr.slice(0, 400)}`, () => files);
      const p = g.problems(r.doc);
      c.check(p.length === 0, () => key('malformed'), () => p.join('; '), () => ({ files, doc: r.doc }));
      const want = routes.map((x) => x.path).sort(), got = Object.keys(r.doc.paths).sort();
      c.check(show(want) === show(got), () => key('paths'), () => `the spec has the paths ${show(want)}, the document ${show(got)}`, () => ({ files }));
      for (const rt of routes) {
        const op = r.doc.paths[rt.path][rt.method.toLowerCase()];
        c.check(op, () => key('method'), 'no such operation', () => ({ files, doc: r.doc }));
        c.check(show(Object.keys(rt.response)) === show(Object.keys(op.responses)), () => key('responses'), 'other responses', () => ({ files, doc: r.doc }));
        if (requests) {
          for (const q of REQUESTS) {
            const a = E.isRight(rt.request.decode(q)), d = acceptsRequest(r.doc, op, q);
            if (a !== d) c.fail(key(a ? 'request-rejects' : 'request-accepts'), `the operation ${d ? 'accepts' : 'rejects'} the request ${show(q)}, the codec does not agree`, { files, operation: op, components: r.doc.components });
          }
        }
        for (const code of Object.keys(rt.response)) {
          const schema = op.responses[code].content['application/json'].schema;
          for (const v of VALUES) {
            const a = E.isRight(rt.response[code].decode(v)), d = schema === undefined ? false : g.accepts(r.doc, schema, v);
            if (a !== d && (a || !/\[WARN\] Unimplemented function call/.test(r.stdout + r.stderr))) c.fail(key(a ? 'rejects' : 'accepts'), `the schema ${d ? 'accepts' : 'rejects'} ${show(v)}, the codec does not agree`, { files, schema, components: r.doc.components });
          }
        }
      }
    }
    // functions without parameters: what their body declares hides what the module declares
    const LOCALS = ['', 'const N = V;', 'let N = V;', 'const { N } = { N: V };', 'const { a: N } = { a: V };', 'const [N] = [V];', 'function N() { return V; }', 'const N = O;', 'const other = V;', 'if (true) { const N = V; }', 'for (const N of [V]) {}', 'try { const N = V; } catch (N) {}', 'const g = (N: any) => N;', 'const g = () => { const N = V; return N; };', 'class N {}', 'var N = V;', 'const x = 1, N = V;', 'type N = string;', 'const q: typeof N = N;', "if (false) return V;", "if (true) return V;", "switch ('a' as string) { case 'a': return V; }", 'while (true) { return V; }', 'try { return V; } finally {}', '{ return V; }', "'use strict';", 'console.error();', 'if (false) throw new Error();', 'const N2 = N;', 'N;', 'label: { break label; }'];
    const RETURNS = ['N', 't.type({ v: N })', 't.type({ N })', 't.type({ N: O })', 't.type({ v: t.array(N) })', 't.union([N, t.null])', 'here.N', '(N as any)', 't.type({ [K]: N })', "t.type({ v: t.literal('other') })", '(() => N)()', 'N2', 'inner()', 't.type({ ...{ v: N } })'];
    async function bodies(c) {
      const one = c.pick(LOCALS, 'local'), two = c.pick(LOCALS, 'second'), ret = c.pick(RETURNS, 'returned'), hid = c.pick(['N', 't', 'h', 'inner', 'here', 'K', 'O'], 'hidden'), where = c.pick(['here', 'imported', 'imported name'], 'where'), form = c.pick(['block', 'expression', 'function', 'function expression', 'method', 'typed', 'nested'], 'function');
      const sub = (x) => x.replace(/\bN\b/g, hid).replace(/\bV\b/g, hid === 't' ? "{ type: () => u.literal('decoy0'), string: u.number }" : hid === 'K' ? "'decoy1'" : hid === 'here' ? "{ N: u.literal('decoy0') }" : hid === 'inner' ? "(() => u.literal('decoy0'))" : "u.literal('decoy0')");
      const body = `${sub(one)} ${sub(two)} return ${ret};`;
      if (form === 'expression' && (one || two)) c.prune();
      const names = "const N = t.literal('def');\nconst O = t.literal('other');\nconst K = 's';\nconst here = { N: t.literal('def') };\nconst inner = () => N;\nconst N2 = t.literal('def');\n";
      const fn = { block: `const F = () => { ${body} };`, expression: `const F = () => (${ret});`, function: `function F() { ${body} }`, 'function expression': `const F = function () { ${body} };`, method: `const obj = { F() { ${body} } };\nconst F = () => obj.F();`, typed: `const F = (): any => { ${body} };`, nested: `const G = () => { ${body} };\nconst F = () => G();` }[form];
      const files = {};
      const u = "import * as u from 'io-ts';\n";
      if (where === 'here') files['index.ts'] = `${HEAD}${u}${names}${fn}\nexport const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: F() } }) } });\n`;
      else {
        files['names.ts'] = HEAD + names.replace(/const /g, 'export const ');
        files['f.ts'] = where === 'imported' ? `${HEAD}${u}${names}${fn}\nexport { F };\n` : `${HEAD}${u}import { N, O, K, here, inner, N2 } from './names';\n${fn}\nexport { F };\n`;
        files['index.ts'] = `${HEAD}import { F } from './f';\nconst N = t.literal('decoy2');\nexport const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: F() } }) } });\n`;
      }
      try { const r = g.evaluate(files).api['x.y'].post.response[200]; r.decode(1); } catch (e) { c.prune(); } // not a program that runs
      const plain = !one && !two && ['N', 't.type({ v: N })', 't.type({ v: t.array(N) })', 't.union([N, t.null])', "t.type({ v: t.literal('other') })", 'N2', 'inner()'].includes(ret) && ['block', 'expression', 'typed', 'nested'].includes(form);
      await judge(c, files, (k) => `body-${k}:${one}/${two}/${ret}/${hid}/${where}/${form}`, () => !plain);
    }
    // packages: how they name their entry point, and several packages of one name
    async function packages(c) {
      const files = {};
      const fields = ['source', 'typings', 'types', 'main'].filter((f) => c.flag(f));
      const spelling = c.pick(['src/i.ts', './src/i.ts', 'src/i', './src'], 'entry');
      const isrc = spelling === './src' ? 'src/index.ts' : 'src/i.ts';
      const only = fields[0];
      const info = { name: 'pkg', version: '1.0.0' };
      for (const f of fields) info[f] = f === only ? spelling : c.flag(`${f} exists`) ? 'src/decoy.ts' : 'dist/missing.d.ts';
      const scope = c.flag('scoped') ? '@s/pkg' : 'pkg';
      const def = (s, form) => HEAD + (form ? `const Foo = t.literal('${s}');\nexport { Foo };\n` : `export const Foo = t.literal('${s}');\n`);
      const own = c.flag('export list');
      files[`node_modules/${scope}/package.json`] = JSON.stringify({ ...info, ...(fields.length ? {} : { source: isrc }) });
      files[`node_modules/${scope}/${isrc}`] = def('def', own);
      files[`node_modules/${scope}/src/decoy.ts`] = def('decoy4');
      const copies = c.pick(['none', 'in other', 'in d', 'in both', 'in other, hidden name'], 'copies');
      const copy = (dir, s, hidden) => { files[`${dir}/node_modules/${scope}/package.json`] = JSON.stringify({ name: scope, version: '2.0.0', source: 'i.ts' }); files[`${dir}/node_modules/${scope}/i.ts`] = hidden ? `${HEAD}const Foo = t.literal('decoy3');\nconst Bar = t.literal('${s}');\nexport { Bar as Foo };\nexport const own = Foo;\n` : def(s, own); };
      if (/other|both/.test(copies)) copy('node_modules/other', 'decoy0', /hidden/.test(copies));
      if (/d$|both/.test(copies)) copy('d', 'decoy1');
      const using = (form, n) => ({ named: [`import { Foo } from '${scope}';`, 'Foo'], star: [`import * as P from '${scope}';`, 'P.Foo'], renamed: [`import { Foo as Q } from '${scope}';`, 'Q'], reexport: [`import { Foo as R${n} } from './re';`, `R${n}`] })[form];
      const place = c.pick(['only here', 'other', 'd', 'other and here', 'd and here', 'other and d'], 'used in');
      const form = c.pick(['named', 'star', 'renamed', 'reexport'], 'import');
      const wrap = c.pick([(x) => x, (x) => `t.array(${x})`, (x) => `t.type({ v: ${x} })`, (x) => `h.optional(${x})`], 'use');
      const imports = [], members = [];
      const first = c.flag('other first');
      const here = () => { const [i, u] = using(form, 0); imports.push(i); if (form === 'reexport') files['re.ts'] = `export { Foo } from '${scope}';\n`; members.push(`r: ${wrap(u)}`); };
      const mod = (file, dir, name, spec) => { const [i, u] = using(form, 1); files[file] = `${HEAD}${i}\nexport const ${name} = ${wrap(u)};\n`; if (form === 'reexport') files[`${dir}/re.ts`] = `export { Foo } from '${scope}';\n`; imports.push(`import { ${name} } from '${spec}';`); members.push(`${name}: ${name}`); };
      const parts = [];
      if (/here/.test(place)) parts.push(here);
      if (/other/.test(place)) parts.push(() => { files['node_modules/other/package.json'] = JSON.stringify({ name: 'other', version: '1.0.0', source: 'i.ts' }); mod('node_modules/other/i.ts', 'node_modules/other', 'o', 'other'); });
      if (/d/.test(place.replace('and', ''))) parts.push(() => mod('d/m.ts', 'd', 'd', './d/m'));
      if (first) parts.reverse();
      if (c.flag('bystander')) { files['by.ts'] = def('decoy2'); imports.push("import { Foo as By } from './by';"); members.push('by: By'); }
      parts.forEach((f) => f());
      files['index.ts'] = `${HEAD}${imports.join('\n')}\nexport const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { ${members.map((m, i) => `${200 + i}: ${m.slice(m.indexOf(':') + 2)}`).join(', ')} } }) } });\n`;
      // (a package without types has no entry point, and one whose codecs come in two versions may be refused)
      await judge(c, files, (k) => `package-${k}:${fields}/${spelling}/${scope}/${copies}/${place}/${form}/${first}/${own}`, () => fields.length === 1 && only === 'main');
    }
    // an export of a module takes precedence over what its star exports give, however it is written
    const OWN_EXPORTS = [
      ['const', 'export const A = V;', 1], ['list', 'const A = V;\nexport { A };', 1], ['renamed', 'const L = V;\nexport { L as A };', 1], ['from', "export { A } from './own';", 1], ['renamed from', "export { B as A } from './own';", 1], ['imported', "import { A } from './own';\nexport { A };", 1], ['second', 'export const Z = t.null, A = V;', 1],
      ['destructured', 'export const { A } = { A: V };'], ['destructured as', 'export const { a: A } = { a: V };'], ['destructured default', 'export const { A = V } = {} as any;'], ['destructured deep', 'export const { a: { A } } = { a: { A: V } };'], ['destructured rest', 'export const { Z, ...A } = { Z: t.null, ...V };'], ['array', 'export const [A] = [V];'], ['array later', 'export const [, A] = [t.null, V];'], ['array rest', 'export const [...A] = [V];'],
      ['let later', 'export let A: any;\nA = V;'], ['function', 'export function A() { return V; }'], ['class', 'export class A { static v = V; }'], ['namespace', 'export namespace A { export const v = V; }'], ['namespace from', "export * as A from './own';"], ['enum', "export enum A { v = 'def' }"], ['import equals', "import own = require('./own');\nexport import A = own.A;"], ['declared', 'declare const A: any;\nexport { A };'],
      ['list of function', 'function A() { return V; }\nexport { A };'], ['list of class', 'class A { static v = V; }\nexport { A };'], ['list of destructured', 'const { A } = { A: V };\nexport { A };'], ['list of namespace', "import * as A from './own';\nexport { A };"],
    ];
    const STAR_USES = ['t.type({ v: A })', 'A', 't.array(A)', 'A.v', 'A()', 'A.A', 't.literal(A.v)', 't.type({ s: A[0] })', 't.type(A)', 't.type({ v: Al })', 't.type({ v: N.A })'];
    async function precedence(c) {
      const own = c.pick(OWN_EXPORTS, 'own export'), use = c.pick(STAR_USES, 'use'), stars = c.pick(['after', 'before', 'two', 'through', 'both sides'], 'star exports'), via = c.pick(['direct', 'star', 'named', 'namespace', 'import-export'], 'via');
      const decoy = c.pick(["t.literal('decoy0')", "{ v: t.literal('decoy0'), A: t.literal('decoy0') }", "() => t.literal('decoy0')", "{ s: t.literal('decoy0') }", "{ v: 'decoy0' }"], 'decoy');
      const files = { 'o.ts': `${HEAD}export const A = ${decoy};\nexport const other = t.literal('other');\n`, 'own.ts': `${HEAD}export const A = t.literal('def');\nexport const B = t.literal('def');\nexport const v = A;\n` };
      const star = stars === 'two' ? "export * from './o';\nexport * from './o2';\n" : stars === 'through' ? "export * from './t';\n" : "export * from './o';\n";
      if (stars === 'two') files['o2.ts'] = `${HEAD}export const other2 = t.literal('not-def');\n`;
      if (stars === 'through') files['t.ts'] = "export * from './o';\n";
      const value = own[0] === 'destructured rest' ? "{ s: t.literal('def') }" : "t.literal('def')";
      files['m.ts'] = `${HEAD}${stars === 'before' ? '' : star}${own[1].replace(/\bV\b/g, value)}\n${stars === 'before' ? star : stars === 'both sides' ? "export * from './own2';\n" : ''}`;
      if (stars === 'both sides') files['own2.ts'] = `${HEAD}export const A = t.literal('decoy1');\n`;
      let from = './m';
      if (via !== 'direct' && via !== 'namespace') { from = './via'; files['via.ts'] = { star: "export * from './m';\n", named: "export { A } from './m';\n", 'import-export': "import { A } from './m';\nexport { A };\n" }[via]; }
      const ns = via === 'namespace';
      files['index.ts'] = `${HEAD}import ${ns ? '* as M' : '{ A }'} from '${from}';\nimport * as N from '${from}';\nconst Al: any = ${ns ? 'M.A' : 'A'};\nexport const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: ${ns ? use.replace(/(?<![.\w])A\b/g, 'M.A') : use} } }) } });\n`;
      try { const codec = g.evaluate(files).api['x.y'].post.response[200]; VALUES.forEach((v) => codec.decode(v)); } catch (e) { c.prune(); } // not a program that runs
      await judge(c, files, (k) => `precedence-${k}:${own[0]}/${use}/${stars}/${via}/${decoy}`, () => !own[2] || use !== 't.type({ v: A })');
    }
    // one string, written in every way
    const SPELLINGS = ["'def'", '"def"', "'\\x64ef'", "'d\\u0065f'", "'d\\u{65}f'", "'de\\\nf'", '`def`', '`\\x64ef`', '`d\\u0065f`', '`d${K}f`', '`${D}${K}f`', '`${D}ef`', '`d${`e`}f`', "`d${'e'}f`", '`de\\\nf`', "('def')", "'def' as const", '`${`${D}`}${K}f`', "`${'def'}`", '`${E1.e}ef`', '`${O1.e}ef`', "'d' + 'ef'", "['d', 'ef'].join('')", "String('def')", "'xdef'.slice(1)"];
    async function spellings(c) {
      const s = c.pick(SPELLINGS, 'spelling', { free: true });
      const may = /\+|\(['"[]|join|slice|String/.test(s) && s !== "('def')";
      const quoted = /^(['"])[^'"]*\1$/.test(s);
      const slash = /^['"`]/.test(s) && /^(['"`])(?:[^]*)\1$/.test(s) ? s[0] + '/' + s.slice(1) : `\`/\${${s}}\``;
      const place = c.pick(['literal', 'key', 'quoted key', 'path', 'keyof', 'member', 'enum', 'action', 'union', 'record', 'path template'], 'place', { free: true });
      const named = c.pick(['inline', 'const', 'imported', 'object', 'aliased'], 'named');
      if (place === 'quoted key' && (!quoted || named !== 'inline')) c.prune();
      if (place === 'enum' && named !== 'inline') c.prune();
      if (place === 'action' && may) c.prune(); // (names that only running the program tells count as names of their own)
      const files = {};
      let pre = "const K = 'e';\nconst D = 'd';\nenum E1 { e = 'd' }\nconst O1 = { e: 'd' } as const;\n";
      const val = place === 'path' ? slash : s;
      let v = val;
      if (named === 'const') { pre += `const S = ${val};\n`; v = 'S'; }
      if (named === 'aliased') { pre += `const S0 = ${val};\nconst S = S0;\n`; v = 'S'; }
      if (named === 'object') { pre += `const S = { s: ${val} };\n`; v = 'S.s'; }
      if (named === 'imported') { files['s.ts'] = `${pre}export const S = ${val};\n`; pre = "import { S } from './s';\nconst K = 'decoy0';\nconst D = 'decoy1';\n"; v = 'S'; }
      let path = "'/p'", codec = "t.literal('other')", action = "'x.y'";
      switch (place) {
        case 'literal': codec = `t.literal(${v})`; break;
        case 'key': codec = `t.type({ [${v}]: t.literal('a') })`; break;
        case 'quoted key': codec = `t.type({ ${v}: t.literal('a') })`; break;
        case 'path': path = v; break;
        case 'path template': path = `\`/p/\${${v}}\``; break;
        case 'keyof': codec = `t.keyof({ [${v}]: null, a: 1 })`; break;
        case 'member': pre += `const M = { s: ${v} };\n`; codec = 't.literal(M.s)'; break;
        case 'enum': pre += `enum M { s = ${v} }\n`; codec = 't.literal(M.s)'; break;
        case 'action': action = `[${v}]`; break;
        case 'union': codec = `t.union([t.literal(${v}), t.null])`; break;
        case 'record': codec = `t.record(t.literal(${v}), t.literal('a'))`; break;
      }
      const route = `{ post: h.httpRoute({ path: ${path}, method: 'POST', request: h.httpRequest({}), response: { 200: ${codec} } }) }`;
      files['index.ts'] = `${HEAD}${pre}export const api = h.apiSpec({ ${place === 'action' ? "def: { post: h.httpRoute({ path: '/q', method: 'POST', request: h.httpRequest({}), response: { 200: t.null } }) }, " : ''}${action}: ${route} });\n`;
      await judge(c, files, (k) => `spelling-${k}:${s}/${place}/${named}`, () => may || named === 'aliased' || (/key|action/.test(place) && named === 'inline'));
    }
    return [
      { name: 'packages', split: 16, run: packages, deviations: tier === 'thorough' ? 5 : 3, what: 'entry points of packages and several packages of one name' },
      { name: 'precedence', shards: [OWN_EXPORTS.length], run: precedence, deviations: tier === 'thorough' ? 4 : 3, what: 'exports of a module beside its star exports' },
      { name: 'spellings', cases: 1, run: spellings, what: 'one string in every spelling and place' },
      { name: 'uses', shards: [USES.length], run: (c) => run(c, 1, USES), deviations: tier === 'thorough' ? 4 : 3, what: 'every other place in which a name is followed' },
      { name: 'bodies', split: 32, run: bodies, deviations: tier === 'thorough' ? 4 : 2, what: 'bodies of functions' },
      { name: 'chains', shards: [KINDS.length], run: (c) => run(c, tier === 'thorough' ? 3 : 2, KINDS), deviations: tier === 'thorough' ? 5 : 4, what: 'chains of exports, re-exports and imports' },
      { name: 'layouts', shards: [6], run: layouts(g, E, { ref: false }), deviations: tier === 'thorough' ? 3 : 1, what: 'relative imports from every directory, with several files of a name' },
    ];
  },
});
