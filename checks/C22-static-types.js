'use strict';
const { show } = require('../lib/explore');
const makeTypes = require('../lib/types');

const HEAD = ["import * as t from 'io-ts';", "import * as h from '@api-ts/io-ts-http';", "import * as N from 'io-ts-types';", "import * as E from 'fp-ts/Either';", "import * as X from '@api-ts/express-wrapper';", "import * as R from '@api-ts/typed-express-router';", "import * as S from '@api-ts/superagent-wrapper';", "import * as P from '@api-ts/response';", 'type Mutual<A, B> = [A] extends [B] ? ([B] extends [A] ? true : false) : false;'];
const ABSENT = Symbol('absent');
// values of one property
const VALS = [ABSENT, undefined, null, 'a', 'b', 1, true, [], ['a'], [1], {}, { a: 'a' }, { a: 1 }, { a: undefined }, { a: 'a', b: 1 }, { a: 'a', b: 'x' }];
const FEW = [ABSENT, undefined, null, 'a', 1, ['a'], { a: 'a' }];
const LEAVES = ['t.string', 't.number', 'h.optional(t.string)', 'N.NumberFromString', 'h.optional(N.NumberFromString)', 't.boolean', 't.null', "t.literal('a')", 't.undefined', 't.unknown', 't.any', 't.void', 't.array(t.string)', 'h.optional(t.array(t.string))', 't.type({ a: t.string })', 't.partial({ a: t.string })', 't.record(t.string, t.string)', 't.union([t.undefined, t.number])', 't.union([t.string, t.null])', "t.union([t.literal('a'), t.undefined, t.null])", 'h.optional(h.optional(t.string))',
  'h.optionalized({ a: t.string, b: h.optional(t.number) })', 'h.optional(h.optionalized({ a: h.optional(t.string) }))', 't.intersection([t.type({ a: t.string }), t.partial({ b: t.number })])', 't.union([t.string, t.array(t.string)])', 't.keyof({ a: 1, b: 1 })'];
// TypeScript treats values without a common property loosely for types all of whose properties are optional
const weak = (leaf, v) => /^(t\.partial|h\.optional\(h\.optionalized)/.test(leaf || '') && v !== undefined && v !== null && v !== ABSENT && (typeof v !== 'object' || Array.isArray(v));
const kind = (v) => (v === undefined ? 'undefined' : v === null ? 'null' : Array.isArray(v) ? 'array' : typeof v);
const object = (m) => { const o = {}; for (const k of Object.keys(m)) if (m[k] !== ABSENT) o[k] = m[k]; return o; };

module.exports = {
  id: 'C22',
  jobs: 8,
  bounds: 'Codecs: optionalized codecs (also exact) of one or two properties, each of 26 codecs, with 15 values and the absent property per property; requests: one or two such codecs in any two of the four sections; results: one or two response codecs, 15 bodies per status, with and without a second operation, every way to answer (service functions by status and by key, sendEncoded typed and unchecked, the three response helpers) and to read (decode, decodeExpecting); inputs: nine requests (plain, unions, intersections) under five methods with 256 values; operations: every set of up to two (thorough: four) declared methods of three operations (one of them named constructor), every handler left out once; methods: nine keys, with 14 methods each; chains: up to three (thorough: four) of six middlewares before three requests, and up to the seven that are possible with three (thorough: any number) of them giving one of two properties. Every probe is checked by the TypeScript checker of the repository against the sources of the current tree.',
  assumptions: ['The compiler options are those of the repository (strict); values that share no property with a type all of whose properties are optional are left to the compiler (TS2559, TS2560).', 'Codecs of nothing but undefined in requests, t.unknown in bodies and the empty api spec are not judged.'],
  scenarios(b, tier) {
    const t = b.require('io-ts'), h = b.pkg('io-ts-http'), N = b.require('io-ts-types');
    const make = (text) => new Function('t', 'h', 'N', `return ${text};`)(t, h, N);
    let T; const types = () => (T = T || makeTypes(b));
    const VT = makeTypes.valueType;
    // one probe: lines with what is expected of each
    function probe() {
      const lines = [...HEAD], wants = [];
      return {
        add: (line) => { lines.push(line); },
        // want: true = accepted, false = rejected
        expect: (line, want, what) => { lines.push(line); wants.push([lines.length - 1, want, what]); },
        judge(c, key) {
          const found = types().check(lines);
          const expected = new Set(wants.map((w) => w[0]));
          for (const [n, ds] of found) if (!expected.has(n)) c.fail(key('rejected'), `a declaration is rejected: ${ds[0].text.slice(0, 300)}`, lines[n]);
          let bits = '';
          for (const [n, want, what] of wants) {
            const ds = found.get(n);
            bits += ds ? '0' : '1';
            if (want === !ds) continue;
            // TypeScript's check for values that share no property with a type all of whose properties are optional
            if (want && ds.every((d) => d.codes.includes(2559) || d.codes.includes(2560))) continue;
            c.fail(key(want ? 'too-narrow' : 'too-wide'), want ? `TypeScript rejects ${what()}, which is right at run time: ${ds[0].text.slice(0, 300)}` : `TypeScript accepts ${what()}, which is wrong at run time`, lines.slice(HEAD.length).filter((l, i) => !expected.has(i + HEAD.length)).concat(lines[n]));
          }
          c.observe(bits);
        },
      };
    }
    const leaf = (c, where, opts) => LEAVES[c.choose(LEAVES.length, (v) => `${where}: ${LEAVES[v]}`, opts)];
    const encodings = (codec, vals) => vals.filter((v) => v !== ABSENT && codec.is(v)).map((v) => codec.encode(v)).concat(codec.is('1') ? [codec.encode('1')] : []);

    // ---- optionalized: TypeOf and OutputOf
    async function codecs(c) {
      const A = leaf(c, 'a', { free: true });
      const withB = c.flag('b');
      const Bx = withB ? leaf(c, 'b', { free: true }) : undefined;
      const wrap = c.pick(['h.optionalized', 't.exact(h.optionalized'], 'codec');
      const text = `${wrap}({ a: ${A}${withB ? `, b: ${Bx}` : ''} })${wrap.startsWith('t.exact') ? ')' : ''}`;
      const codec = make(text);
      const p = probe();
      p.add(`const c = ${text};`); p.add('type A = t.TypeOf<typeof c>; type O = t.OutputOf<typeof c>;');
      const props = { a: make(A), ...(withB ? { b: make(Bx) } : {}) };
      const kinds = {};
      for (const k of Object.keys(props)) { kinds[k] = new Set(encodings(props[k], VALS).map(kind)); if (props[k].is(undefined)) kinds[k].add('absent'); }
      const anyOut = { a: /unknown|any/.test(A), b: withB && /unknown|any/.test(Bx) };
      let n = 0;
      for (const va of withB ? (tier === 'thorough' ? VALS : FEW) : VALS) for (const vb of withB ? VALS : [ABSENT]) {
        if (weak(A, va) || weak(Bx, vb)) continue;
        const v = object({ a: va, b: vb });
        p.expect(`export const x${++n} = (v: ${VT(v)}): A => v;`, codec.is(v), () => `${show(v)} as a value of ${text}`);
        if (codec.is(v)) p.expect(`export const o${n} = (v: ${VT(codec.encode(v))}): O => v;`, true, () => `${show(codec.encode(v))} as an output of ${text}`);
        const possible = Object.keys(props).every((k) => (k in v ? kinds[k].has(kind(v[k])) || anyOut[k] || (v[k] === undefined && kinds[k].has('absent')) : kinds[k].has('absent')));
        if (!possible) p.expect(`export const q${n} = (v: ${VT(v)}): O => v;`, false, () => `${show(v)} as an output of ${text}`);
      }
      p.judge(c, (k) => `codec-${k}:${text}`);
    }

    // ---- httpRequest: which codecs it takes in which section, and the flat type of the request
    const SECTIONS = { query: (v) => v === undefined || typeof v === 'string' || (Array.isArray(v) && v.every((x) => typeof x === 'string')), params: (v) => v === undefined || typeof v === 'string', headers: (v) => v === undefined || typeof v === 'string', body: () => true };
    async function requests(c) {
      const names = Object.keys(SECTIONS);
      const sa = c.pick(names, 'section of a', { free: true }), A = leaf(c, 'a', { free: true });
      const withB = c.flag('b');
      const sb = withB && c.pick(names, 'section of b', { free: true }), Bx = withB && LEAVES[c.choose(tier === 'thorough' ? LEAVES.length : 5, (v) => `b: ${LEAVES[v]}`, { free: true })];
      // codecs of nothing but undefined have no place in a request, and t.unknown no encoding that is known to fit
      for (const [s, x] of [[sa, A], [sb, Bx]]) if (x === 't.undefined' || x === 't.void' || (x === 't.unknown' && s === 'body')) c.prune();
      const parts = {};
      (parts[sa] = parts[sa] || []).push(`a: ${A}`); if (withB) (parts[sb] = parts[sb] || []).push(`b: ${Bx}`);
      const text = `h.httpRequest({ ${Object.keys(parts).map((s) => `${s}: { ${parts[s].join(', ')} }`).join(', ')} })`;
      const fits = (s, x) => s === 'body' || x === 't.any' || encodings(make(x), VALS.concat([['a', 'b']])).every(SECTIONS[s]) && x !== 't.void';
      const ok = fits(sa, A) && (!withB || fits(sb, Bx));
      const key = (k) => `request-${k}:${text}`;
      const p = probe();
      if (!ok) { p.expect(`export const r = ${text};`, false, () => `${text}, whose encoding does not fit into a request`); return p.judge(c, key); }
      const codec = make(text);
      p.add(`const r = ${text};`); p.add("const route = h.httpRoute({ path: '/p', method: 'POST', request: r, response: {} });"); p.add('type A = h.RequestType<typeof route>; type O = t.OutputOf<typeof r>;');
      let n = 0;
      for (const va of VALS) for (const vb of withB ? FEW : [ABSENT]) {
        if (weak(A, va) || weak(Bx, vb)) continue;
        const v = object({ a: va, b: vb });
        p.expect(`export const x${++n} = (v: ${VT(v)}): A => v;`, codec.is(v), () => `${show(v)} as ${text}`);
        if (codec.is(v)) { const e = codec.encode(v); p.expect(`export const o${n} = (v: ${VT(JSON.parse(JSON.stringify(e)))}): O => v;`, true, () => `${show(e)} as an output of ${text}`); }
      }
      p.judge(c, key);
    }

    // ---- results: what handlers may answer and what the client is told it gets
    const KEYS = { 200: 'ok', 201: 'created', 400: 'invalidRequest', 404: 'notFound' };
    async function results(c) {
      const A = leaf(c, '200', { free: true });
      const B400 = c.flag('400') ? leaf(c, '400') : undefined;
      const second = c.flag('second operation');
      const decl = { 200: A, ...(B400 ? { 400: B400 } : {}) };
      const codec = {}; for (const s of Object.keys(decl)) codec[s] = make(decl[s]);
      const text = `{ ${Object.keys(decl).map((s) => `${s}: ${decl[s]}`).join(', ')} }`;
      const p = probe();
      p.add(`const route = h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({ params: {} }), response: ${text} });`);
      p.add(`const other = h.httpRoute({ path: '/o', method: 'PUT', request: h.httpRequest({}), response: { 404: t.boolean, 200: t.literal('zz') } });`);
      p.add(`const spec = h.apiSpec({ 'a.b': { get: route }${second ? ", 'c.d': { put: other }" : ''} });`);
      p.add('declare const client: S.ApiClient<S.SuperagentRequest<S.Response>, typeof spec>; declare const router: R.WrappedRouter<typeof spec>;');
      p.add("type Req = ReturnType<(typeof client)['a.b']['get']>; type D = Awaited<ReturnType<Req['decode']>>; declare const req: Req;");
      let n = 0;
      const statuses = ['200', '400', '404'];
      for (const s of statuses) {
        p.expect(`export const e${s} = () => req.decodeExpecting(${s});`, s in decl, () => `decodeExpecting(${s}) with responses ${text}`);
        if (s in decl) p.expect(`export const st${s} = async () => { const r = await req.decodeExpecting(${s}); const x: Mutual<typeof r.status, ${s}> = true; const e: undefined = r.error; return [x, e]; };`, true, () => `the status and error of decodeExpecting(${s})`);
        for (const v of VALS) {
          if (v === ABSENT || weak(decl[s], v)) continue;
          const good = s in decl && codec[s].is(v), i = ++n, V = VT(v);
          p.expect(`export const d${i} = (v: { status: ${s}; body: ${V}; original: S.Response }): D => v;`, good, () => `the decoded response ${s} ${show(v)} with responses ${text}`);
          if (s in decl) p.expect(`export const b${i} = async (v: ${V}) => { const r = await req.decodeExpecting(${s}); const x: typeof r.body = v; return x; };`, good, () => `${show(v)} as the body of decodeExpecting(${s}) with responses ${text}`);
          p.expect(`export const f${i} = (v: ${V}): X.ServiceFunction<typeof route> => () => ({ type: ${s}, payload: v });`, good, () => `a service function that returns ${s} with ${show(v)} and responses ${text}`);
          p.expect(`export const k${i} = (v: ${V}): X.ServiceFunction<typeof route> => async () => ({ type: '${KEYS[s]}', payload: v });`, good, () => `a service function that returns ${KEYS[s]} with ${show(v)} and responses ${text}`);
          p.expect(`export const w${i} = (v: ${V}) => router.get('a.b', [(_q, res) => res.sendEncoded(${s}, v)]);`, good, () => `sendEncoded(${s}, ${show(v)}) with responses ${text}`);
          if (i % 3 === 0) {
            p.expect(`export const u${i} = (v: ${V}) => router.getUnchecked('a.b', [(_q, res) => { res.sendEncoded(${s}, v); }]);`, good, () => `sendEncoded(${s}, ${show(v)}) of an unchecked route with responses ${text}`);
            p.expect(`export const h${i} = (v: ${V}): X.ServiceFunction<typeof route> => () => P.Response.${KEYS[s]}(v);`, good, () => `Response.${KEYS[s]}(${show(v)}) with responses ${text}`);
            p.expect(`export const g${i} = (v: ${V}): X.ServiceFunction<typeof route> => () => P.KeyedResponse.${KEYS[s]}(v);`, good, () => `KeyedResponse.${KEYS[s]}(${show(v)}) with responses ${text}`);
            p.expect(`export const j${i} = (v: ${V}): X.ServiceFunction<typeof route> => async () => h.Response.${KEYS[s]}(v);`, good, () => `h.Response.${KEYS[s]}(${show(v)}) with responses ${text}`);
          }
        }
      }
      p.expect(`export const de = (v: { status: 'decodeError'; error: string; body: unknown; original: S.Response }): D => v;`, true, () => 'a decodeError');
      p.expect(`export const dn = (v: { status: 'decodeError'; body: unknown; original: S.Response }): D => v;`, false, () => 'a decodeError without a message');
      p.judge(c, (k) => `results-${k}:${text}${second ? ' and another operation' : ''}`);
    }

    // ---- inputs: what handlers are told they get is what the client has to give
    const REQUESTS = ['h.httpRequest({})', 'h.httpRequest({ query: { a: t.string } })', 'h.httpRequest({ query: { a: h.optional(N.NumberFromString) } })', 'h.httpRequest({ params: { a: t.string }, body: { b: t.type({ a: t.string }) } })', "h.httpRequest({ headers: { a: t.literal('a') }, body: { b: h.optional(t.array(t.string)) } })", "t.union([h.httpRequest({ query: { a: t.literal('a') } }), h.httpRequest({ body: { b: t.number } })])", 't.intersection([h.httpRequest({ query: { a: t.string } }), h.httpRequest({ body: { b: h.optional(t.boolean) } })])', 't.union([h.httpRequest({ query: { a: t.string } }), h.httpRequest({ query: { a: h.optional(t.array(t.string)) }, body: { b: t.boolean } })])', 't.intersection([h.httpRequest({ params: { a: N.NumberFromString } }), t.type({ body: t.type({ b: t.string }) })])'];
    async function inputs(c) {
      const text = c.pick(REQUESTS, 'request', { free: true });
      const method = c.pick(['get', 'post', 'put', 'delete', 'patch'], 'method', { free: true });
      const codec = make(text);
      const nested = text.includes('t.type({ body');
      const p = probe();
      p.add(`const route = h.httpRoute({ path: '/p', method: '${method.toUpperCase()}', request: ${text}, response: { 200: t.string } });`);
      p.add(`const spec = h.apiSpec({ 'a.b': { ${method}: route } });`);
      p.add('declare const client: S.ApiClient<S.SuperagentRequest<S.Response>, typeof spec>; declare const router: R.WrappedRouter<typeof spec>; type Handlers = Parameters<typeof X.routerForApiSpec<typeof spec>>[0]["routeHandlers"];');
      let n = 0;
      for (const va of VALS) for (const vb of VALS) {
        const v = nested ? object({ a: va, body: vb === ABSENT ? ABSENT : { b: vb } }) : object({ a: va, b: vb });
        const good = codec.is(v), i = ++n, V = VT(v);
        p.expect(`export const c${i} = (v: ${V}) => client['a.b'].${method}(v);`, good, () => `the client call with ${show(v)} for ${text}`);
        if (i % 2 === 0 && tier !== 'thorough') continue;
        p.expect(`export const r${i} = (v: ${V}) => router.${method}('a.b', [(q, _s) => { const x: typeof q.decoded = v; return x; }]);`, good, () => `${show(v)} as what a typed handler of ${text} may get`);
        p.expect(`export const u${i} = (v: E.Either<t.Errors, ${V}>) => router.${method}Unchecked('a.b', [(q, _s) => { const x: typeof q.decoded = v; return x; }]);`, good, () => `${show(v)} as what an unchecked handler of ${text} may get`);
        p.expect(`export const s${i} = (v: ${V}): X.ServiceFunction<typeof route> => (input) => { const x: typeof input = v; return { type: 200, payload: String(x) }; };`, good, () => `${show(v)} as what a service function of ${text} may get`);
        p.expect(`export const m${i} = (v: ${V}) => X.routerForApiSpec({ spec, routeHandlers: { 'a.b': { ${method}: X.routeHandler<typeof route>({ handler: (input) => { const x: typeof input = v; return { type: 200, payload: String(x) }; } }) } } });`, good, () => `${show(v)} as what a route handler of ${text} may get`);
      }
      p.judge(c, (k) => `inputs-${k}:${method} ${text}`);
    }

    // ---- operations: specs, clients, routers and handlers have the operations and methods that are declared
    const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
    async function operations(c) {
      const ops = ['a.b', 'c', 'constructor'];
      const declared = {};
      let count = 0;
      for (const o of ops) { declared[o] = []; for (const m of METHODS.slice(0, tier === 'thorough' ? 5 : 4)) if (c.flag(`${o} ${m}`)) { declared[o].push(m); count++; } }
      if (count === 0) c.prune(); // h.apiSpec({}) is any api
      const missing = c.choose(count + 1, (v) => `handler ${v} left out`, { free: true });
      const used = ops.filter((o) => declared[o].length);
      const p = probe();
      const route = (m) => `h.httpRoute({ path: '/p', method: '${m.toUpperCase()}', request: h.httpRequest({}), response: { 200: t.string } })`;
      p.add(`const spec = h.apiSpec({ ${used.map((o) => `'${o}': { ${declared[o].map((m) => `${m}: ${route(m)}`).join(', ')} }`).join(', ')} });`);
      p.add('declare const client: S.ApiClient<S.SuperagentRequest<S.Response>, typeof spec>; declare const router: R.WrappedRouter<typeof spec>;');
      let i = 0, k = 0;
      for (const o of [...ops, 'zz']) for (const m of [...METHODS, 'head']) {
        const has = (declared[o] || []).includes(m), n = ++i;
        if (o !== 'constructor' || used.includes(o)) p.expect(`export const c${n} = () => client['${o}'].${m}({});`, has, () => `the call client['${o}'].${m}() for ${JSON.stringify(declared)}`);
        if (m === 'head') continue;
        p.expect(`export const r${n} = () => router.${m}('${o}', [(_q, s) => s.sendEncoded(200, 'x')]);`, has, () => `router.${m}('${o}') for ${JSON.stringify(declared)}`);
        p.expect(`export const u${n} = () => router.${m}Unchecked('${o}', [(_q, s) => s.sendEncoded(200, 'x')]);`, has, () => `router.${m}Unchecked('${o}') for ${JSON.stringify(declared)}`);
      }
      const handlers = `{ ${used.map((o) => `'${o}': { ${declared[o].filter(() => ++k !== missing).map((m) => `${m}: (_i: {}) => ({ type: 200 as const, payload: 'x' })`).join(', ')} }`).join(', ')} }`;
      p.expect(`export const all = () => X.routerForApiSpec({ spec, routeHandlers: ${handlers} });`, missing === 0, () => `the handlers ${handlers} for ${JSON.stringify(declared)}`);
      p.expect(`export const srv = () => X.createServer(spec, () => (${handlers}));`, missing === 0, () => `the server with handlers ${handlers} for ${JSON.stringify(declared)}`);
      p.judge(c, (w) => `operations-${w}:${JSON.stringify(declared)}`);
    }
    // methods of a spec: the key and the method of the route have to agree
    async function methods(c) {
      const p = probe();
      const key = c.pick([...METHODS, 'head', 'options', 'GET', 'all'], 'key', { free: true });
      const beside = c.flag('beside a valid one', { free: true });
      for (const m of [...METHODS, 'head', 'options']) for (const form of [m.toUpperCase(), m]) {
        const valid = METHODS.includes(key) && METHODS.includes(m) && form === m.toUpperCase() && key === m;
        const other = key === 'put' ? 'patch' : 'put';
        p.expect(`export const s_${form} = h.apiSpec({ 'a.b': { ${beside ? `${other}: h.httpRoute({ path: '/q', method: '${other.toUpperCase()}', request: h.httpRequest({}), response: {} }), ` : ''}${key}: { path: '/p', method: '${form}' as const, request: h.httpRequest({}), response: { 200: t.string } } } });`, valid, () => `a spec with a ${form} route as '${key}'`);
      }
      p.judge(c, (w) => `methods-${w}:${key}`);
    }

    // ---- middleware chains: the handler is told the merged properties
    const MWS = [['plain', null], ['mx', { x: 'number' }], ['mxs', { x: 'string' }], ['ma', { a: 'boolean' }], ['mxy', { x: 'boolean', y: 'string' }], ['mo', {}]];
    const obj = (o) => `{ ${Object.keys(o).map((k) => `${k}: ${o[k]};`).join(' ')} }`;
    // links: [name, properties, declaration]
    function chain(c, base, links) {
      const merged = Object.assign({}, base, ...links.map((m) => m[1] || {}));
      const p = probe();
      const q = Object.keys(base);
      p.add(`const route = h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({ ${q.length ? `query: { ${q.map((k) => `${k}: t.string`).join(', ')} }` : ''} }), response: { 200: t.string } });`);
      p.add("import type { RequestHandler as R_Handler } from 'express'; type X_Mw<T extends {}> = ReturnType<typeof X.middlewareFn<T>>;");
      for (const [n, o] of new Map(links.map((l) => [l[0], l[1]]))) p.add(`declare const ${n}: ${o ? `X_Mw<${obj(o)}>` : 'R_Handler'};`);
      const names = links.map((m) => m[0]);
      const of = `[${names.map((x) => `typeof ${x}`).join(', ')}]`;
      p.expect(`export type T1 = X.MiddlewareChainOutput<h.RequestType<typeof route>, ${of}>; export const y1: Mutual<T1, ${obj(merged)}> = true;`, true, () => `the merged input of [${names}] on ${obj(base)}`);
      p.expect(`export const y2 = X.routeHandler<typeof route, ${of}>({ middleware: [${names.join(', ')}], handler: (input) => { const y: Mutual<typeof input, ${obj(merged)}> = true; return { type: 200, payload: String(y) }; } });`, true, () => `the input of the handler behind [${names}] on ${obj(base)}`);
      p.add("type Slot = Parameters<typeof X.routerForApiSpec<{ 'a.b': { get: typeof route } }>>[0]['routeHandlers']['a.b']['get'];");
      p.expect(`export const y3 = (): Slot => X.routeHandler({ middleware: [${names.join(', ')}], handler: (input: ${obj(merged)}) => ({ type: 200 as const, payload: String(input) }) });`, true, () => `a handler of the merged input behind [${names}] on ${obj(base)}`);
      const wrong = { ...merged, [Object.keys(merged)[0] || 'z']: 'symbol' };
      p.expect(`export const y4 = X.routeHandler<typeof route, ${of}>({ middleware: [${names.join(', ')}], handler: (_input: ${obj(wrong)}) => ({ type: 200, payload: 'x' }) });`, false, () => `a handler of ${obj(wrong)} behind [${names}] on ${obj(base)}`);
      p.judge(c, (w) => `chains-${w}:[${links.map((l) => l[1] ? obj(l[1]) : 'plain')}] on ${obj(base)}`);
    }
    async function chains(c) {
      const base = c.pick([{}, { a: 'string' }, { a: 'string', x: 'string' }], 'request', { free: true });
      const len = c.choose(tier === 'thorough' ? 5 : 4, (v) => `length ${v}`, { free: true });
      const links = [];
      for (let i = 0; i < len; i++) links.push(MWS[c.choose(MWS.length, (v) => MWS[v][0], { free: true })]);
      chain(c, base, links);
    }
    // up to the longest chain there is: each link is plain or gives one of two properties, typed by its place
    async function longchains(c) {
      const base = { a: 'string', x: 'string' };
      const len = 4 + c.choose(4, (v) => `length ${v + 4}`, { free: true });
      const links = [];
      for (let i = 0; i < len; i++) { const k = c.choose(3, (v) => ['plain', 'gives x', 'gives y'][v]); links.push(k === 0 ? ['plain', null] : [`m${i}`, { [k === 1 ? 'x' : 'y']: String(i) }]); }
      chain(c, base, links);
    }
    return [
      { name: 'codecs', shards: [LEAVES.length], run: codecs, what: 'optionalized' },
      { name: 'requests', shards: [4, LEAVES.length], run: requests, what: 'httpRequest' },
      { name: 'results', shards: [LEAVES.length], deviations: tier === 'thorough' ? undefined : 2, run: results, what: 'results of handlers and decoded responses' },
      { name: 'inputs', shards: [REQUESTS.length, 5], run: inputs, what: 'inputs of handlers and clients' },
      { name: 'operations', shards: [2, 2, 2], deviations: tier === 'thorough' ? 4 : 2, run: operations, what: 'operations of clients, routers and handlers' },
      { name: 'methods', run: methods, what: 'methods of a spec' },
      { name: 'chains', shards: [3, tier === 'thorough' ? 5 : 4], run: chains, what: 'inputs behind middleware chains' },
      { name: 'longchains', shards: [4, 3, 3], deviations: tier === 'thorough' ? undefined : 3, run: longchains, what: 'inputs behind long middleware chains' },
    ];
  },
};
