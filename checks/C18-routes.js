'use strict';
const { show } = require('../lib/explore');
const makeGen = require('../lib/gen');

const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\nimport { NumberFromString } from 'io-ts-types';\n";
// codecs of parameters: [expression, accepted values, rejected values, optional]
const CODECS = [
  ['t.string', ['a', '1'], [], false],
  ["t.literal('a')", ['a'], ['1'], false],
  ['h.optional(t.string)', ['a', '1'], [], true],
  ["h.optional(t.literal('a'))", ['a'], ['1'], true],
  ['NumberFromString', ['1'], [], false],
  ['Lit', ['a'], ['1'], false],
  ['OptLit', ['a'], ['1'], true],
  ['h.optional(Lit)', ['a'], ['1'], true],
  ["t.union([t.literal('a'), t.literal('b')])", ['a', 'b'], ['1'], false],
];
const CODEC_DEFS = "export const Lit = t.literal('a');\nexport const OptLit = h.optional(t.literal('a'));\n";
const SECTIONS = ['query', 'params', 'headers', 'body'];
const NAMES = { query: ['q', 'r'], params: ['id', 'key'], headers: ['x-a', 'x-b'], body: ['b', 'c'] };
const KEYED = { ok: 200, created: 201, invalidRequest: 400, unauthenticated: 401, permissionDenied: 403, notFound: 404, internalError: 500 };

module.exports = {
  id: 'C18',
  bounds: 'requests: every section absent, with one or two properties of 9 codecs, written in 6 ways, alone or in unions and intersections of up to 2 (quick) / 3 (thorough) requests named, imported or inline; specs: unions of 2 and 3 requests that declare a header or path parameter in 9 ways each; bodies of 14 codecs that are no objects, beside httpRequest, in 6 wrappers and 6 places; specs: up to 3 entries of 18 forms with routes of 9 forms in apiSpecs of 9 forms; routes: every form of path, method, request and response; up to 3 or 4 choices off the default.',
  assumptions: ['In a union of requests, path and header parameters of the same name have the same codec in all members, and a parameter is required as in the first member that has it (documented and pinned limitation).', 'Two routes with the same path and method are not described separately.', 'Forms marked unsupported may fail, but must not lose anything silently.'],
  scenarios(b, tier) {
    const T = tier === 'thorough';
    const E = b.require('fp-ts/Either');
    const g = makeGen(b);
    const dec = (codec, v) => E.isRight(codec.decode(v));

    // ---------------------------------------------------------- requests
    async function requests(c) {
      const types = { imports: new Set(), body: [] }, main = { body: [] };
      let n = 0;
      const codecOf = {};
      const fixedCodec = (sec, name) => {
        const k = `${sec}.${name}`;
        if (codecOf[k] === undefined) codecOf[k] = c.pick(CODECS, `codec ${k}`);
        return codecOf[k];
      };
      let union = false, nested = false;
      function section(sec, dflt) {
        // names present
        const pool = NAMES[sec];
        const sel = c.pick(dflt ? [[0], [0, 1], [], [1]] : [[], [0], [0, 1], [1]], sec);
        const how = sel.length ? c.pick(sec === 'params' ? ['inline', 'const', 'imported', 'spread', 'spread-imported'] : ['inline', 'const', 'imported', 'spread', 'spread-imported', 'shorthand'], `${sec} form`) : 'none';
        const props = sel.map((i) => {
          const codec = sec === 'query' || sec === 'body' ? c.pick(CODECS, `codec ${sec}.${pool[i]}`) : fixedCodec(sec, pool[i]);
          return { loc: sec, name: pool[i], codec };
        });
        if (sec === 'params' && props.some((p) => p.codec[3])) c.prune();
        return { sec, how, props };
      }
      const lit = (props) => `{ ${props.map((p) => `${/-/.test(p.name) ? JSON.stringify(p.name) : p.name}: ${p.codec[0]}`).join(', ')} }`;
      const impc = { t: '' };
      function leaf(first) {
        const secs = SECTIONS.map((s) => section(s, first && s === 'query'));
        const raw = c.flag('raw');
        const parts = [];
        for (const s of secs) {
          if (s.how === 'none') { if (raw) parts.push(`${s.sec}: t.type({})`); continue; }
          const id = `P${n++}`;
          let e;
          switch (s.how) {
            case 'inline': e = lit(s.props); break;
            case 'const': main.body.push(`const ${id} = ${lit(s.props)};`); e = id; break;
            case 'imported': types.body.push(`export const ${id} = ${lit(s.props)};`); types.imports.add(id); e = id; break;
            case 'spread': main.body.push(`const ${id} = ${lit(s.props.slice(0, 1))};`); e = `{ ...${id}${s.props.length > 1 ? ', ' + lit(s.props.slice(1)).slice(2, -2) : ''} }`; break;
            case 'spread-imported': types.body.push(`export const ${id} = ${lit(s.props.slice(-1))};`); types.imports.add(id); e = `{ ${s.props.length > 1 ? lit(s.props.slice(0, 1)).slice(2, -2) + ', ' : ''}...${id} }`; break;
            case 'shorthand': if (raw || main.body.some((x) => x.startsWith(`const ${s.sec} `))) c.prune(); main.body.push(`const ${s.sec} = ${lit(s.props)};`); parts.push(s.sec); continue;
          }
          if (raw) e = s.props.every((p) => p.codec[3]) && c.flag('optionalized') ? `h.optionalized(${e})` : s.props.some((p) => p.codec[3]) ? `h.optionalized(${e})` : `t.type(${e})`;
          parts.push(`${s.sec}: ${e}`);
        }
        return { expr: raw ? `t.type({ ${parts.join(', ')} })` : `h.httpRequest({ ${parts.join(', ')} })`, members: [secs.flatMap((s) => s.props)], hasBody: [secs.some((s) => s.sec === 'body' && s.props.length)] };
      }
      function request(depth, first) {
        const op = depth > 0 ? c.pick(['single', 'union', 'intersection'], 'request') : 'single';
        let r;
        if (op === 'single') r = leaf(first);
        else {
          const k = T && depth > 1 ? 2 + c.choose(2, (v) => `arity${2 + v}`) : 2;
          const subs = [];
          for (let i = 0; i < k; i++) subs.push(request(depth - 1, first && i === 0));
          const expr = `t.${op}([${subs.map((s) => s.expr).join(', ')}])`;
          if (op === 'union') { union = true; if (subs.some((s) => s.composed)) nested = true; r = { expr, members: subs.flatMap((s) => s.members) }; }
          else {
            let members = [[]];
            for (const s of subs) members = members.flatMap((m) => s.members.map((x) => {
              if (x.some((p) => m.some((q) => q.loc === p.loc && q.name === p.name && q.codec !== p.codec))) c.prune();
              return [...m, ...x.filter((p) => !m.some((q) => q.loc === p.loc && q.name === p.name))];
            }));
            r = { expr, members };
          }
          r.composed = true;
        }
        const how = c.pick(['inline', 'const', 'imported'], 'request form');
        if (how !== 'inline') {
          const id = `R${n++}`;
          if (how === 'imported') {
            const ids = r.expr.match(/\bP\d+\b/g) || [];
            if (ids.some((x) => main.body.some((l) => l.startsWith(`const ${x} `))) || /\bR\d+\b/.test(r.expr) && main.body.some((l) => (r.expr.match(/\bR\d+\b/g) || []).some((x) => l.startsWith(`const ${x} `))) || /[{,] (query|headers|body)[ ,]/.test(r.expr.replace(/(query|headers|body): /g, ''))) c.prune();
            types.body.push(`export const ${id} = ${r.expr};`); types.imports.add(id);
          } else main.body.push(`const ${id} = ${r.expr};`);
          r.expr = id;
        }
        return r;
      }
      const r = request(T ? 2 : 1, true);
      const files = {
        'types.ts': `${HEAD}${CODEC_DEFS}${types.body.join('\n')}\n`,
        'index.ts': `${HEAD}import { ${['Lit', 'OptLit', ...types.imports].join(', ')} } from './types';\n${main.body.join('\n')}\nexport const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p/{id}/{key}', method: 'POST', request: ${r.expr}, response: { 200: t.string } }) } });\n`,
      };
      const members = r.members;
      const codec = g.evaluate(files).api['x.y'].post.request;
      const res = await g.run(files);
      c.observe(res.stdout + (res.code ? 'failed' : ''));
      const key = (k) => `${k}:${r.members.map((m) => m.map((p) => `${p.loc}.${p.name}=${p.codec[0]}`).join(',')).join('|')}/${c.trail().filter((x) => /form|request|raw=1|optionalized=1/.test(x) && !/"inline"|"single"/.test(x)).join(' ')}`;
      const D = () => ({ files, op: res.doc && res.doc.paths });
      // (the members of a union have to be requests, not compositions of them; anything else may fail, but not silently)
      if (nested && res.code !== 0) { c.check(res.stdout === '', () => key('output'), 'a failure with output', () => res.stdout); return; }
      c.check(res.code === 0 && res.doc, () => key('fails'), () => res.stderr.slice(0, 500), () => files);
      const pr = g.problems(res.doc);
      c.check(pr.length === 0, () => key('malformed'), () => pr.join('; '), D);
      const op = res.doc.paths['/p/{id}/{key}'].post;
      const IN = { query: 'query', params: 'path', headers: 'header' };
      const params = op.parameters;
      const ids = params.map((p) => `${p.in} ${p.name}`);
      c.check(new Set(ids).size === ids.length, () => key('duplicate-parameter'), () => `a parameter is listed twice: ${ids.join(', ')}`, D);
      const exploded = params.find((p) => p.in === 'query' && p.explode);
      const want = new Set();
      // (in an intersection with a union, the query of the rest can be described one by one)
      if (exploded) for (const m of members) for (const p of m) if (p.loc === 'query' && ids.includes(`query ${p.name}`)) want.add(`query ${p.name}`);
      for (const m of members) for (const p of m) if (p.loc !== 'body' && !(p.loc === 'query' && exploded)) want.add(`${IN[p.loc]} ${p.name}`);
      if (exploded) { c.check(union, () => key('exploded'), 'an exploded parameter without a union', D); want.add(`query ${exploded.name}`); }
      c.check([...want].sort().join() === [...ids].sort().join(), () => key('parameters'), () => `parameters ${ids.join(', ')} instead of ${[...want].join(', ')}`, D);
      const hasBody = members.some((m) => m.some((p) => p.loc === 'body'));
      const bodySchema = op.requestBody && op.requestBody.content['application/json'].schema;
      c.check(hasBody ? !!bodySchema : !bodySchema || op.requestBody, () => key('body'), () => `the body is ${bodySchema ? '' : 'not '}described`, D);
      // does the document describe this request? undefined, or what is wrong with it
      function complaint(v, m) {
        for (const p of params) {
          if (p === exploded) continue;
          const sec = { query: v.query, path: v.params, header: v.headers }[p.in];
          if (sec[p.name] === undefined) { if (p.required && m.some((q) => IN[q.loc] === p.in && q.name === p.name)) return `${p.in} ${p.name} is required`; } else if (!g.accepts(res.doc, p.schema, sec[p.name])) return `${p.in} ${p.name} is ${sec[p.name]}`;
        }
        if (exploded) {
          const alone = (n) => params.some((p) => p.in === 'query' && p !== exploded && p.name === n);
          if (!g.accepts(res.doc, exploded.schema, v.query) && (Object.keys(v.query).some((n) => !alone(n)) || (exploded.required && m.some((q) => q.loc === 'query' && !q.codec[3] && !alone(q.name))))) return `query is ${show(v.query)}`;
        }
        if (bodySchema && m.some((p) => p.loc === 'body') && !g.accepts(res.doc, bodySchema, v.body)) return `body is ${show(v.body)}`;
      }
      const make = (m, vals) => { const v = { query: {}, params: {}, headers: {}, body: {} }; m.forEach((p, i) => { if (vals[i] !== undefined) v[p.loc][p.name] = vals[i]; }); return v; };
      for (const m of members) {
        // valid requests: every combination of accepted values and absent optional properties
        const opts = m.map((p) => [...p.codec[1], ...(p.codec[3] ? [undefined] : [])]);
        const base = opts.map((o) => o[0]);
        const combos = opts.reduce((a, o) => a.length * o.length > 64 ? a.map((x) => [...x, o[0]]) : a.flatMap((x) => o.map((y) => [...x, y])), [[]]);
        for (const vals of combos) {
          const v = make(m, vals);
          c.check(dec(codec, v), () => key('model'), () => `the codec rejects ${show(v)}`, D);
          const w = complaint(v, m);
          c.check(w === undefined, () => key('rejects'), () => `the codec accepts ${show(v)}, the document does not describe it: ${w}`, D);
        }
        // invalid ones, one property at a time
        m.forEach((p, i) => {
          for (const bad of [...p.codec[2], ...(p.codec[3] ? [] : [undefined])]) {
            const v = make(m, base.map((x, k) => (k === i ? bad : x)));
            if (members.length === 1) {
              c.check(!dec(codec, v), () => key('model'), () => `the codec accepts ${show(v)}`, D);
              c.check(complaint(v, m) !== undefined, () => key('accepts'), () => `the codec rejects ${show(v)}, the document describes it`, D);
            } else if (!dec(codec, v) && p.loc !== 'query' && p.loc !== 'body') {
              // a union: no member accepts this value, or every member needs the parameter
              const others = members.map((o) => o.find((q) => q.loc === p.loc && q.name === p.name));
              if (bad === undefined && !others.every((q) => q && !q.codec[3])) continue;
                            c.check(complaint(v, m) !== undefined, () => key('accepts'), () => `no member accepts ${show(v)}, the document describes it`, D);
            } else if (!dec(codec, v)) {
              if (p.loc === 'body' && members.every((o) => o.some((q) => q.loc === 'body'))) {
                const okAny = members.some((o) => o.filter((q) => q.loc === 'body').every((q) => (v.body[q.name] === undefined ? q.codec[3] : q.codec[0] === 'NumberFromString' || q.codec[1].includes(v.body[q.name]))));
                if (!okAny) c.check(!g.accepts(res.doc, bodySchema, v.body), () => key('body-accepts'), () => `no member accepts the body ${show(v.body)}, the document describes it`, D);
              }
              if (p.loc === 'query' && exploded && Object.keys(v.query).length && members.every((o) => o.some((q) => q.loc === 'query'))) {
                const okAny = members.some((o) => o.filter((q) => q.loc === 'query').every((q) => (v.query[q.name] === undefined ? q.codec[3] : q.codec[0] === 'NumberFromString' || q.codec[1].includes(v.query[q.name]))));
                if (!okAny) c.check(!g.accepts(res.doc, exploded.schema, v.query), () => key('query-accepts'), () => `no member accepts the query ${show(v.query)}, the document describes it`, D);
              }
            }
          }
        });
      }
    }

    // ---------------------------------------------------------- compositions
    // what an api spec exports at run time, against the operations of the document
    async function compare(c, files, key, { mayFail } = {}) {
      const exp = g.evaluate(files);
      const r = await g.run(files);
      c.observe(r.stdout + (r.code ? 'failed' : ''));
      if (r.code !== 0) {
        c.check(mayFail, () => key('fails'), () => r.stderr.slice(0, 500), () => files);
        c.check(r.stdout === '', () => key('output'), 'a failure with output', () => r.stdout);
        return;
      }
      c.check(r.doc, () => key('no-document'), 'no document', () => files);
      const pr = g.problems(r.doc);
      c.check(pr.length === 0, () => key('malformed'), () => pr.join('; '), () => ({ files, doc: r.doc }));
      const want = new Map();
      for (const spec of exp.specs()) for (const action of Object.keys(spec)) for (const m of Object.keys(spec[action])) {
        const route = spec[action][m];
        want.set(`${route.method} ${route.path}`, route);
      }
      const got = [];
      for (const p of Object.keys(r.doc.paths)) for (const m of Object.keys(r.doc.paths[p])) got.push(`${m.toUpperCase()} ${p}`);
      const D = () => ({ files, paths: r.doc.paths });
      c.check(got.slice().sort().join() === [...want.keys()].sort().join(), () => key('operations'), () => `operations ${got.sort().join(', ')} instead of ${[...want.keys()].sort().join(', ')}`, D);
      for (const [k, route] of want) {
        const m = k.slice(0, k.indexOf(' ')), p = k.slice(k.indexOf(' ') + 1);
        const op = r.doc.paths[p][m.toLowerCase()];
        const codes = Object.keys(route.response).map((x) => String(KEYED[x] || x));
        c.check(codes.slice().sort().join() === Object.keys(op.responses).sort().join(), () => key('responses'), () => `responses ${Object.keys(op.responses)} instead of ${codes} of ${k}`, D);
        for (const x of Object.keys(route.response)) {
          const s = op.responses[String(KEYED[x] || x)].content['application/json'].schema;
          for (const v of ['a', 'b', 'c', 'd', 'e', 'f', 'r0', 'r1', 'r2', 'r3', 'r4', 'r5', 1, null, {}]) c.check(dec(route.response[x], v) === g.accepts(r.doc, s, v), () => key('response'), () => `response ${x} of ${k}: ${show(v)}`, D);
        }
        const q = op.parameters.find((y) => y.in === 'query' && y.name === 'sig');
        for (const v of ['r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'a']) {
          const ok = dec(route.request, { query: { sig: v }, params: {}, headers: {}, body: {} });
          c.check(q && q.required && g.accepts(r.doc, q.schema, v) === ok, () => key('request'), () => `query sig=${v} of ${k}`, D);
        }
      }
    }
    // entries of the argument of apiSpec
    const ENTRY = ['inline', 'const', 'imported', 'two-methods', 'spread-const', 'spread-api', 'spread-imported', 'spread-imported-api', 'spread-namespace', 'spread-package', 'spread-inline', 'spread-nested', 'shorthand', 'computed', 'methods-spread', 'override', 'spread-default', 'spread-function', 'override-computed', 'spread-call'];
    // names of actions that evaluate to the one given, and calls whose result is not their first argument (or is it)
    const COMPUTED = [(n) => `['${n}']`, (n) => `[\`${n}\`]`, (n, id) => { return [`[${id}n]`, `const ${id}n = '${n}';`]; }, (n, id) => [`[${id}n.k]`, `const ${id}n = { k: '${n}' } as const;`], (n, id) => [`[${id}n]`, `const ${id}m = '${n.slice(0, 1)}';\nconst ${id}n = \`\${${id}m}${n.slice(1)}\`;`], (n, id) => [`[${id}n]`, `const ${id}n = '${n}' as const;`], (n, id) => [`[${id}n.K]`, `enum ${id}n { K = '${n}' }`], (n, id) => [`[${id}n]`, null, `export const ${id}n = '${n}';`]];
    const CALLS = [(x, y, k) => `((a: any, b: string) => ({ [b]: a[b] }))(${x}, '${k}')`, (x, y) => `Object.assign({}, ${x}, ${y})`, (x, y) => `Object.assign(${x}, ${y})`, (x) => `Object.freeze(${x})`, (x) => `idSpec(${x})`, (x, y, k) => `pickSpec(${x}, '${k}')`, (x) => `mkSpec(${x})`, (x) => `h.apiSpec(h.apiSpec(${x}))`, (x) => `[${x}][0]`, (x) => `new (class { constructor(x: any) { return x; } } as any)(${x})`];
    const ROUTE = ['inline', 'const', 'imported', 'renamed', 'namespace', 'shorthand', 'as', 'default', 'alias', 'string-key'];
    const API = ['inline', 'list', 'named-import', 'renamed-import', 'argument', 'imported-argument', 'two', 'as', 'namespace-argument', 'local-too', 'default-too', 'let', 'reexport-too'];
    const FNS = 'const idSpec = (x: any) => x;\nfunction pickSpec(x: any, k: string) { return { [k]: x[k] }; }\nconst mkSpec = h.apiSpec;';
    const LOUD = new Set(['spread-call', 'shorthand', 'methods-spread', 'spread-function', 'spread-inline', 'spread-nested', 'as', 'namespace-argument', 'renamed-import', 'default-too']);
    async function compositions(c) {
      const api = c.pick(API, 'api');
      const count = 1 + c.choose(3, (v) => `entries${v + 1}`);
      const used = [api];
      const index = [], other = { imports: ['httpRoute'], body: [] }, imports = new Set();
      const pkg = [];
      let rn = 0;
      const def = (i) => `h.httpRoute({ path: '/p${i}', method: '${['GET', 'POST', 'PUT', 'DELETE', 'PATCH'][i % 5]}', request: h.httpRequest({ query: { sig: t.literal('r${i}') } }), response: { 200: t.literal('r${i}') } })`;
      const meth = (i) => ['get', 'post', 'put', 'delete', 'patch'][i % 5];
      // a property `method: route` of an action
      function route(where, plain) {
        const i = rn++;
        const form = plain ? 'inline' : c.pick(ROUTE, `route${i}`);
        used.push(form);
        const id = `Route${i}`;
        const m = meth(i);
        const here = where === 'other' ? other.body : index;
        switch (form) {
          case 'inline': return `${m}: ${def(i)}`;
          case 'const': here.push(`const ${id} = ${def(i)};`); return `${m}: ${id}`;
          case 'imported': files['routes.ts'] += `export const ${id} = ${def(i)};\n`; impOf(where).add(`import { ${id} } from './routes';`); return `${m}: ${id}`;
          case 'renamed': files['routes.ts'] += `const ${id} = ${def(i)};\nexport { ${id} as X${i} };\n`; impOf(where).add(`import { X${i} as ${id} } from './routes';`); return `${m}: ${id}`;
          case 'namespace': files['routes.ts'] += `export const ${id} = ${def(i)};\n`; impOf(where).add(`import * as routes from './routes';`); return `${m}: routes.${id}`;
          case 'shorthand': if (m === 'delete') c.prune(); here.push(`const ${m} = ${def(i)};`); return m;
          case 'as': return `${m}: ${def(i)} as any`;
          case 'default': files[`route${i}.ts`] = `${HEAD}const ${id} = ${def(i)};\nexport default ${id};\n`; impOf(where).add(`import ${id} from './route${i}';`); return `${m}: ${id}`;
          case 'alias': here.push(`const ${id}a = ${def(i)};\nconst ${id} = ${id}a;`); return `${m}: ${id}`;
          case 'string-key': return `'${m}': ${def(i)}`;
        }
      }
      const otherImports = new Set();
      const impOf = (where) => (where === 'other' ? otherImports : imports);
      const files = { 'routes.ts': HEAD, 'index.ts': '' };
      const entries = [];
      const inner = (where, i) => `'a${i}.x': { ${route(where)} }`;
      for (let e = 0; e < count; e++) {
        const form = c.pick(ENTRY, `entry${e}`);
        used.push(form);
        const id = `E${e}`;
        switch (form) {
          case 'inline': entries.push(inner('index', e)); break;
          case 'two-methods': entries.push(`'a${e}.x': { ${route('index')}, ${route('index')} }`); break;
          case 'const': index.push(`const ${id} = { ${route('index')} };`); entries.push(`'a${e}.x': ${id}`); break;
          case 'imported': { const rt = route('other'); other.body.push(`export const ${id} = { ${rt} };`); imports.add(`import { ${id} } from './other';`); entries.push(`'a${e}.x': ${id}`); break; }
          case 'spread-const': { const rt = inner('index', e); index.push(`const ${id} = { ${rt} };`); entries.push(`...${id}`); break; }
          case 'spread-api': { const rt = inner('index', e); index.push(`const ${id} = h.apiSpec({ ${rt} });`); entries.push(`...${id}`); break; }
          case 'spread-imported': { const rt = inner('other', e); other.body.push(`export const ${id} = { ${rt} };`); imports.add(`import { ${id} } from './other';`); entries.push(`...${id}`); break; }
          case 'spread-imported-api': { const rt = inner('other', e); other.body.push(`export const ${id} = h.apiSpec({ ${rt} });`); imports.add(`import { ${id} } from './other';`); entries.push(`...${id}`); break; }
          case 'spread-namespace': { const rt = inner('other', e); other.body.push(`export const ${id} = h.apiSpec({ ${rt} });`); imports.add(`import * as other from './other';`); entries.push(`...other.${id}`); break; }
          case 'spread-default': { const rt = inner('other', e); files[`d${e}.ts`] = ''; other.body.push(`export const ${id} = h.apiSpec({ ${rt} });`); files[`d${e}.ts`] = `import { ${id} } from './other';\nexport default ${id};\n`; imports.add(`import ${id} from './d${e}';`); entries.push(`...${id}`); break; }
          case 'spread-package': { const i = rn++; pkg.push(`export const ${id} = h.apiSpec({ 'a${e}.x': { ${meth(i)}: ${def(i)} } });`); imports.add(`import { ${id} } from 'pkg';`); entries.push(`...${id}`); break; }
          case 'spread-inline': entries.push(`...{ ${inner('index', e)} }`); break;
          case 'spread-nested': { const rt = inner('index', e), rt2 = `'n${e}': { ${route('index', true)} }`; index.push(`const ${id}a = h.apiSpec({ ${rt} });\nconst ${id} = { ...${id}a, ${rt2} };`); entries.push(`...${id}`); break; }
          case 'spread-function': { const rt = inner('index', e); index.push(`const ${id} = () => ({ ${rt} });`); entries.push(`...${id}()`); break; }
          case 'shorthand': { const rt = route('index'); index.push(`const ${id} = { ${rt} };`); entries.push(id); break; }
          case 'computed': { index.push(`const ${id} = 'a${e}.x';`); entries.push(`[${id}]: { ${route('index')} }`); break; }
          case 'methods-spread': { const rt = route('index'), rt2 = route('index', true); index.push(`const ${id} = { ${rt} };`); entries.push(`'a${e}.x': { ...${id}, ${rt2} }`); break; }
          case 'override-computed': {
            const name = `a${e}.x`, x = c.pick(COMPUTED, `name${e}`)(name, id), [k, decl, imp] = Array.isArray(x) ? x : [x];
            if (decl) index.push(decl);
            if (imp) { other.body.push(imp); imports.add(`import { ${id}n } from './other';`); }
            const r1 = `'${name}': { ${route('index', true)} }`, r2 = `${k}: { ${route('index', true)} }`;
            entries.push(...(c.flag('swapped') ? [r2, r1] : [r1, r2]));
            break;
          }
          case 'spread-call': {
            index.push(`const ${id} = { 'a${e}.x': { ${route('index', true)} }, 'b${e}.x': { ${route('index', true)} } };\nconst ${id}y = { 'c${e}.x': { ${route('index', true)} } };`);
            if (!index.includes(FNS)) index.unshift(FNS);
            const call = c.pick(CALLS, `call${e}`)(id, `${id}y`, `b${e}.x`);
            if (c.flag('named')) { index.push(`const ${id}z = ${call};`); entries.push(`...${id}z`); } else entries.push(`...${call}`);
            break;
          }
          // a later entry replaces the one of the same name
          case 'override': { const rt = inner('index', e); index.push(`const ${id} = { ${rt} };`); const rt2 = inner('index', e); const after = c.flag('before'); entries.push(...(after ? [rt2, `...${id}`] : [`...${id}`, rt2])); break; }
        }
      }
      const obj = `{ ${entries.join(', ')} }`;
      let tail, head = HEAD, specs = '[api]';
      switch (api) {
        case 'inline': tail = `export const api = h.apiSpec(${obj});`; break;
        case 'list': tail = `const api = h.apiSpec(${obj});\nexport { api };`; break;
        case 'named-import': head += "import { apiSpec } from '@api-ts/io-ts-http';\n"; tail = `export const api = apiSpec(${obj});`; break;
        case 'renamed-import': head += "import { apiSpec as spec } from '@api-ts/io-ts-http';\n"; tail = `export const api = spec(${obj});`; break;
        case 'argument': tail = `const obj = ${obj};\nexport const api = h.apiSpec(obj as any) as any;`.replace(' as any) as any', ')'); break;
        case 'imported-argument': files['arg.ts'] = ''; tail = null; break;
        case 'namespace-argument': files['arg.ts'] = ''; tail = null; break;
        case 'two': tail = `export const api = h.apiSpec(${obj});\nexport const api2 = h.apiSpec({ 'second': { ${route('index', true)} } });`; specs = '[api, api2]'; break;
        case 'as': tail = `export const api = h.apiSpec(${obj}) as any;\nexport const api2 = h.apiSpec({ 'second': { ${route('index', true)} } });`; specs = '[api, api2]'; break;
        case 'local-too': tail = `const part = h.apiSpec({ 'second': { ${route('index', true)} } });\nexport const api = h.apiSpec({ ...part, ${entries.join(', ')} });`; break;
        case 'default-too': tail = `export const api = h.apiSpec(${obj});\nexport default h.apiSpec({ 'second': { ${route('index', true)} } });`; specs = '[api, exports.default]'; break;
        case 'reexport-too': tail = `export const api = h.apiSpec(${obj});\nexport { api as other };`; break;
        case 'let': tail = `export let api = h.apiSpec(${obj});`; break;
      }
      if (other.body.length) files['other.ts'] = HEAD + [...otherImports].join('\n') + '\n' + other.body.join('\n') + '\n';
      if (pkg.length) { files['node_modules/pkg/package.json'] = JSON.stringify({ name: 'pkg', version: '1.0.0', source: 'src/index.ts' }); files['node_modules/pkg/src/index.ts'] = HEAD + pkg.join('\n') + '\n'; }
      const body = [...imports].join('\n') + '\n' + index.join('\n') + '\n';
      const fn = `\nexport const specs = () => ${specs};\n`;
      if (tail === null) {
        files['arg.ts'] = HEAD + body + `export const obj = ${obj};\n`;
        files['index.ts'] = HEAD + (api === 'imported-argument' ? "import { obj } from './arg';\nexport const api = h.apiSpec(obj);" : "import * as arg from './arg';\nexport const api = h.apiSpec(arg.obj);") + fn;
      } else files['index.ts'] = head + body + tail + fn;
      const key = (k) => `${k}:${used.filter((x) => x !== 'inline').join('+')}`;
      await compare(c, files, key, { mayFail: used.some((x) => LOUD.has(x)) });
    }

    // ---------------------------------------------------------- one route
    const PATHS = [['literal', "'/p'"], ['const', 'PATH', "const PATH = '/p';"], ['template', '`/${SEG}`', "const SEG = 'p';"], ['imported', 'IPATH'], ['as', "'/p' as const"], ['plain-template', '`/p`'], ['imported-template', '`${IPATH}/x`'], ['alias', 'PATH2', "const PATH1 = '/p';\nconst PATH2 = PATH1;"], ['member', 'PATHS.a', "const PATHS = { a: '/p', b: '/q' } as const;"], ['concat', "'/' + 'p'"], ['multi', '`${SEG}/${SEG}-x${IPATH}`', "const SEG = '/s';"]];
    const METHODS = [['literal', "'POST'"], ['const', 'METHOD', "const METHOD = 'POST';"], ['as', "'POST' as const"], ['imported', 'IMETHOD']];
    const RESP = [['inline', (r) => `{ ${r} }`], ['const', (r, f) => { f.push(`const RESP = { ${r} };`); return 'RESP'; }], ['imported', (r, f, o) => { o.push(`export const IRESP = { ${r} };`); return 'IRESP'; }], ['spread', (r, f) => { f.push(`const RESP = { ${r} };`); return "{ 418: t.literal('f'), ...RESP }"; }], ['spread-imported', (r, f, o) => { o.push(`export const IRESP = { ${r} };`); return "{ ...IRESP, 418: t.literal('f') }"; }], ['spread-override', (r, f) => { f.push(`const RESP = { ${r} };`); return "{ ...RESP, 200: t.literal('f') }"; }], ['overridden', (r, f) => { f.push(`const RESP = { ${r} };`); return "{ 200: t.literal('f'), ...RESP }"; }], ['as', (r) => `{ ${r} } as const`], ['imported-spread-imported', (r, f, o) => { o.push(`const IN = { ${r} };\nexport const IRESP = { ...IN, 418: t.literal('f') };`); return 'IRESP'; }]];
    const KEYS = [['numeric', '200'], ['string', "'200'"], ['computed', '[OK]'], ['computed-member', '[Status.OK]'], ['ok', 'ok'], ['notFound', 'notFound'], ['created', 'created'], ['enum', '[Enum.OK]'], ['404', '404'], ['imported', '[IOK]'], ['permissionDenied', 'permissionDenied'], ['internalError', "'internalError'"]];
    const CODEC = [['inline', "t.literal('b')"], ['const', 'Resp', "const Resp = t.literal('b');"], ['imported', 'IResp'], ['nullable', "t.union([t.literal('b'), t.null])"], ['namespace', 'o.IResp'], ['string', 't.string']];
    const ROUTES = [['inline', (x) => `h.httpRoute(${x})`], ['const', (x, f) => { f.push(`const DEF = ${x};`); return 'h.httpRoute(DEF)'; }], ['imported', (x, f, o) => null], ['spread', (x, f) => { f.push(`const DEF = ${x};`); return "h.httpRoute({ ...DEF, path: '/q' })"; }], ['named', (x, f) => { f.push(`const R = h.httpRoute(${x});`); return 'R'; }], ['as', (x) => `h.httpRoute(${x} as const)`]];
    const REQ = ['inline', 'const', 'imported', 'shorthand'];
    async function single(c) {
      const f = [], o = ["export const IPATH = '/p';", "export const IMETHOD = 'POST';", "export const IResp = t.literal('b');", 'export const IOK = 202;'];
      const path = c.pick(PATHS, 'path'), method = c.pick(METHODS, 'method'), resp = c.pick(RESP, 'responses'), rt = c.pick(ROUTES, 'route'), req = c.pick(REQ, 'request');
      if (rt[0] === 'imported') c.prune();
      for (const x of [path, method]) if (x[2]) f.push(x[2]);
      const nr = c.choose(3, (v) => `responses${v + 1}`) + 1;
      const codes = [];
      const keys = [];
      for (let i = 0; i < nr; i++) {
        const k = c.pick(KEYS, `code${i}`), co = c.pick(CODEC, `codec${i}`);
        const dflt = i === 0 ? k : k;
        if (keys.includes(k[0])) { if (k[0] === 'numeric') { keys.push('extra'); codes.push(`${300 + i}: ${co[1]}`); if (co[2] && !f.includes(co[2])) f.push(co[2]); continue; } c.prune(); }
        if (['numeric', 'string', 'ok', 'enum', 'computed', 'computed-member'].includes(k[0]) && keys.some((x) => ['numeric', 'string', 'ok', 'enum', 'computed', 'computed-member'].includes(x))) c.prune();
        if ((k[0] === 'notFound' || k[0] === '404') && keys.some((x) => x === 'notFound' || x === '404')) c.prune();
        keys.push(dflt[0]);
        if (k[0] === 'computed') f.push('const OK = 200;');
        if (k[0] === 'computed-member') f.push('const Status = { OK: 200 } as const;');
        if (k[0] === 'enum') f.push('enum Enum { OK = 200, NO = 400 }');
        if (co[2] && !f.includes(co[2])) f.push(co[2]);
        codes.push(`${k[1]}: ${co[1]}`);
      }
      const list = codes.join(', ');
      if (/imported/.test(resp[0]) && /\bResp\b|Status|OK\]|Enum|o\.I/.test(list)) c.prune();
      if (/overrid/.test(resp[0]) && keys.some((k) => k === 'ok' )) c.prune(); // 200 twice
      const request = "h.httpRequest({ query: { sig: t.literal('r0') } })";
      let rx = request;
      if (req === 'const') { f.push(`const Req = ${request};`); rx = 'Req'; }
      if (req === 'imported') { o.push(`export const IReq = ${request};`); rx = 'IReq'; }
      if (req === 'shorthand') f.push(`const request = ${request};`);
      const before = [], rs = resp[1](list, before, o);
      const obj = `{ path: ${path[1]}, method: ${method[1]}, ${req === 'shorthand' ? 'request' : `request: ${rx}`}, response: ${rs} }`;
      const after = [];
      const expr = rt[1](obj, after, o);
      const files = {
        'other.ts': HEAD + o.join('\n') + '\n',
        'index.ts': `${HEAD}import * as o from './other';\nimport { IPATH, IMETHOD, IResp, IOK${/imported/.test(resp[0]) ? ', IRESP' : ''}${req === 'imported' ? ', IReq' : ''} } from './other';\n${[...new Set([...f, ...before, ...after])].join('\n')}\nexport const api = h.apiSpec({ 'x.y': { post: ${expr} } });\nexport const specs = () => [api];\n`,
      };
      const key = (k) => `${k}:${[path[0], method[0], resp[0], rt[0], req, ...keys].filter((x) => !['inline', 'literal', 'numeric', 'extra'].includes(x)).join('+')}`;
      await compare(c, files, key, { mayFail: ['concat', 'alias'].includes(path[0]) });
    }
    // routes whose paths are almost the same, in one spec or two
    const NEAR = ['/p', '/p/', '/P', '//p', '/p//', '/p/q', '/p/q/', '/p//q', '/p/Q', '/p-q', '/p_q', '/p.q', '/p~1q', '/p%2Fq', '/p%20q', '/p q', '/p?q', '/p#q', '/p:q', '/p*', '/p/{a}', '/p/{a}/', '/p/{b}', '/p/{A}', '/p/:a', '/p/{a}{b}', '/p/{a}-{b}', '/p/{a}.json', '/{p}', '/', '', 'p', '/é', '/e\u0301', '/\u00e9', '/constructor', '/__proto__', '/toString', '/p\\\\q', "/p\\'q", '/p"q', '/1', '1', '2', '/$ref', '/p/\u0131', '/p/i', '/p/I'];
    async function near(c, i) {
      const ps = [NEAR[i], NEAR[c.choose(NEAR.length, (v) => NEAR[v])]];
      if (c.flag('a third')) ps.push(c.pick(['/p', '/p/', '/p/{a}', '/z'], 'third'));
      const ms = ps.map((_, k) => c.pick(k ? ['get', 'put'] : ['get'], `method${k}`));
      const text = ps.map((p) => new Function(`return '${p}'`)());
      const ids = text.map((p, k) => `${ms[k]} ${p}`);
      if (new Set(ids).size < ids.length) c.prune();
      const how = c.pick(['one spec', 'one action', 'two specs'], 'how');
      if (how === 'one action' && new Set(ms).size < ms.length) c.prune();
      const rt = ps.map((p, k) => `${ms[k]}: h.httpRoute({ path: '${p}', method: '${ms[k].toUpperCase()}', request: h.httpRequest({ query: { sig: t.literal('r${k}') } }), response: { 200: t.literal('r${k}') } })`);
      const src = how === 'one action' ? `export const api = h.apiSpec({ 'x.y': { ${rt.join(', ')} } });\nexport const specs = () => [api];` : how === 'one spec' ? `export const api = h.apiSpec({ ${rt.map((x, k) => `'x${k}': { ${x} }`).join(', ')} });\nexport const specs = () => [api];` : `${rt.map((x, k) => `export const api${k} = h.apiSpec({ 'x': { ${x} } });\n`).join('')}export const specs = () => [${rt.map((_, k) => `api${k}`)}];`;
      await compare(c, { 'index.ts': HEAD + src + '\n' }, (k) => `near-${k}:${how}:${ids.join(' ')}`);
    }
    // every name a response may have
    async function statuses(c, i) {
      const h = b.pkg('io-ts-http');
      const name = Object.keys(h.KeyToHttpStatus)[i], code = h.KeyToHttpStatus[name];
      const k = c.pick([name, JSON.stringify(name), String(code), `'${code}'`], 'key');
      const r = await g.run({ 'index.ts': `${HEAD}export const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { ${k}: t.literal('a') } }) } });\n` });
      const codes = r.doc ? Object.keys(r.doc.paths['/p'].get.responses).join() : `status ${r.code}`;
      c.observe(codes);
      c.check(codes === String(code), `status:${k}`, `the response ${k} is described as ${codes}`);
    }
    // a union of requests that declare the same parameter differently: it is described as in the first of them
    async function shared(c) {
      const n = 2 + c.choose(T ? 2 : 2, (v) => `${v + 2} members`);
      const loc = c.pick(['headers', 'params'], 'section', { free: true }), IN = { headers: 'header', params: 'path' }[loc];
      const list = CODECS.filter((x) => loc === 'headers' || !x[3]);
      const members = [];
      for (let i = 0; i < n; i++) {
        const a = c.choose(list.length + 1, (v) => `a${i} ${v ? list[v - 1][0] : 'absent'}`), other = i > 0 && c.flag(`other ${i}`);
        members.push({ a: a ? list[a - 1] : undefined, b: other ? c.pick(list, `b${i}`) : undefined });
      }
      const how = c.pick(['inline', 'const', 'raw'], 'form');
      const src = [], names = { a: loc === 'headers' ? 'x-a' : 'id', b: loc === 'headers' ? 'x-b' : 'key' };
      const exprs = members.map((m, i) => {
        const props = ['a', 'b'].filter((k) => m[k]).map((k) => `'${names[k]}': ${m[k][0]}`).join(', ');
        const e = how === 'raw' ? `t.type({ ${loc}: h.optionalized({ ${props} }) })` : `h.httpRequest({ ${loc}: { ${props} }, query: { q${i}: t.string } })`;
        if (how === 'const') { src.push(`const M${i} = ${e};`); return `M${i}`; }
        return e;
      });
      const r = await g.run({ 'types.ts': `${HEAD}${CODEC_DEFS}`, 'index.ts': `${HEAD}import { Lit, OptLit } from './types';\n${src.join('\n')}\nexport const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p/{id}/{key}', method: 'POST', request: t.union([${exprs.join(', ')}]), response: { 200: t.string } }) } });\n` });
      c.observe(r.stdout + (r.code ? 'failed' : ''));
      const key = (k) => `shared-${k}:${loc}:${how}:${members.map((m) => `${m.a ? m.a[0] : '-'}/${m.b ? m.b[0] : '-'}`).join('|')}`;
      c.check(r.code === 0 && r.doc, () => key('fails'), () => r.stderr.slice(0, 500), () => exprs);
      const pr = g.problems(r.doc);
      c.check(pr.length === 0, () => key('malformed'), () => pr.join('; '), () => r.doc);
      const params = r.doc.paths['/p/{id}/{key}'].post.parameters.filter((p) => p.in === IN);
      const D = () => ({ exprs, params });
      const want = ['a', 'b'].map((k) => [names[k], members.map((m) => m[k]).find(Boolean)]).filter((x) => x[1]);
      c.check(params.map((p) => p.name).sort().join() === want.map((x) => x[0]).sort().join(), () => key('parameters'), () => `${params.map((p) => p.name)} instead of ${want.map((x) => x[0])}`, D);
      for (const [name, codec] of want) {
        const p = params.find((q) => q.name === name);
        c.check(!p.required || !codec[3], () => key('required'), () => `${name} is required though the first member that has it does not need it`, D);
        for (const v of codec[1]) c.check(g.accepts(r.doc, p.schema, v), () => key('rejects'), () => `the first member accepts ${name} ${v}, the document does not`, D);
      }
    }
    // the documented way to give a body that is no object: an intersection with a plain object
    const RAW = ['t.string', 't.number', 't.boolean', "t.literal('a')", 't.array(NumberFromString)', 't.union([t.string, t.null])', 't.record(t.string, t.number)', 'Lit', 't.union([t.number, t.array(Lit)])', 't.type({ k: t.string })', 'h.optional(t.string)', 't.intersection([t.type({ k: t.string }), t.type({ l: t.number })])', 'Raw', 't.array(Raw)'];
    const RAW_VALUES = ['a', 'b', '', '1', 1, 0, true, false, null, [], ['1'], [1], ['a'], ['x'], {}, { k: 'a' }, { k: 1 }, { k: 'a', l: 1 }, { l: 1 }, { z: 'q' }, [{ k: 'a' }], [{}]];
    async function rawBody(c) {
      const codec = c.pick(RAW, 'codec', { free: true });
      const wrap = c.pick(['t.type({ body: # })', 't.partial({ body: # })', 'h.optionalized({ body: # })', 't.strict({ body: # })', 't.exact(t.type({ body: # }))', "t.type({ 'body': # })"], 'wrapper');
      const where = c.pick(['inline', 'const', 'imported', 'codec-const', 'codec-imported', 'request-const'], 'where');
      const beside = c.pick(['params', 'query', 'nothing', 'body', 'headers'], 'beside');
      const first = c.flag('body first'), three = c.flag('three members');
      const method = c.pick(['POST', 'PUT', 'PATCH', 'DELETE'], 'method');
      if (beside === 'body' && !/^(t\.type|t\.record|t\.intersection|Raw)/.test(codec)) c.prune();
      const types = [`export const Raw = t.type({ k: t.string });`], main = [], imports = new Set(['Lit', 'OptLit', 'Raw']);
      let inner = codec;
      if (where === 'codec-const') { main.push(`const Inner = ${codec};`); inner = 'Inner'; }
      if (where === 'codec-imported') { types.push(`export const Inner = ${codec};`); imports.add('Inner'); inner = 'Inner'; }
      let m = wrap.replace('#', inner);
      if (where === 'const') { main.push(`const Body = ${m};`); m = 'Body'; }
      if (where === 'imported') { types.push(`export const Body = ${m};`); imports.add('Body'); m = 'Body'; }
      const req = `h.httpRequest({ ${({ params: 'params: { id: t.string }', query: 'query: { q: t.string }', nothing: '', body: 'body: { m: t.string }', headers: "headers: { 'x-a': t.string }" })[beside]} })`;
      const members = first ? [m, req] : [req, m];
      if (three) members.splice(1, 0, `t.type({ query: t.type({ z: t.string }) })`);
      let request = `t.intersection([${members.join(', ')}])`;
      if (where === 'request-const') { main.push(`const Request = ${request};`); request = 'Request'; }
      const files = { 'types.ts': `${HEAD}${CODEC_DEFS}${types.join('\n')}\n`, 'index.ts': `${HEAD}import { ${[...imports].join(', ')} } from './types';\n${main.join('\n')}\nexport const api = h.apiSpec({ 'x.y': { ${method.toLowerCase()}: h.httpRoute({ path: '/p/{id}', method: '${method}', request: ${request}, response: { 200: t.string } }) } });\n` };
      const exp = g.evaluate(files), r = await g.run(files);
      c.observe(r.stdout + (r.code ? 'failed' : ''));
      const key = (k) => `raw-${k}:${codec}:${wrap}:${where}:${beside}:${first}:${three}`;
      c.check(r.code === 0 && r.doc, () => key('fails'), () => r.stderr.slice(0, 500), () => files);
      const pr = g.problems(r.doc);
      c.check(pr.length === 0, () => key('malformed'), () => pr.join('; '), () => r.doc);
      const op = r.doc.paths['/p/{id}'][method.toLowerCase()], schema = op.requestBody && op.requestBody.content['application/json'].schema;
      c.check(schema, () => key('missing'), 'the body is not described', () => ({ files, op }));
      const route = exp.api['x.y'][method.toLowerCase()];
      for (const v0 of RAW_VALUES) {
        const v = beside === 'body' ? (v0 && typeof v0 === 'object' && !Array.isArray(v0) && codec !== 't.record(t.string, t.number)' ? { ...v0, m: 'x' } : v0) : v0;
        const want = dec(route.request, { params: { id: '1' }, query: { q: 'q', z: 'z' }, headers: { 'x-a': 'x' }, body: v });
        if (codec.includes('NumberFromString') || codec.includes('t.record')) { if (!want && g.accepts(r.doc, schema, v)) { if (codec.includes('t.record') && beside !== 'body') c.check(false, () => key('value'), () => show(v), () => op.requestBody); continue; } }
        c.check(want === g.accepts(r.doc, schema, v), () => key('value'), () => `the body ${show(v)} is ${want ? '' : 'not '}accepted by the codec`, () => ({ files, body: op.requestBody }));
      }
      const names = (op.parameters || []).map((p) => `${p.in} ${p.name}`).sort().join();
      const wantNames = [...(beside === 'params' ? ['path id'] : beside === 'query' ? ['query q'] : beside === 'headers' ? ['header x-a'] : []), ...(three ? ['query z'] : [])].sort().join();
      c.check(names === wantNames, () => key('parameters'), () => `parameters ${names} instead of ${wantNames}`, () => ({ files, op }));
    }
    return [
      { name: 'raw-body', split: 16, run: rawBody, deviations: T ? 5 : 3, what: 'requests that are intersections of httpRequest with an object whose body has any type' },
      { name: 'shared', split: 16, run: shared, deviations: T ? 5 : 4, what: 'unions of requests that share parameters' },
      { name: 'statuses', cases: Object.keys(b.pkg('io-ts-http').KeyToHttpStatus).length, chunk: 8, run: statuses, what: 'every name of a response' },
      { name: 'requests', split: 64, run: requests, deviations: T ? 4 : 3, what: 'every request' },
      { name: 'compositions', split: 64, run: compositions, deviations: T ? 4 : 3, what: 'every composition of an api spec' },
      { name: 'near', cases: NEAR.length, run: near, deviations: T ? undefined : 2, what: 'routes whose paths are almost the same' },
      { name: 'routes', split: 64, run: single, deviations: T ? 4 : 3, what: 'every form of a route' },
    ];
  },
};
