'use strict';
const { show } = require('../lib/explore');
const makeGen = require('../lib/gen');

// ---- JSON values the schema and the codec are compared on
const ATOMS = ['a', 'b', '', '1', 0, 1, -1, 1.5, true, false, null];
const NEST = [...ATOMS, [], ['a'], [1], [null], {}, { a: 'a' }, { a: 1 }, { b: 'a' }, { a: null }];
const VALUES = (() => {
  const out = [...ATOMS, [], {}];
  for (const x of NEST) out.push([x], { a: x }, { b: x });
  for (const x of ['a', 1, null, true, { a: 'a' }, ['a']]) for (const y of ['a', 'b', 1, null, { a: 'a' }]) out.push([x, y], { a: x, b: y }, { a: x, x: y }, { x, y });
  for (const x of ATOMS) out.push({ x }, { a: { a: x, b: 'a' } }, [{ a: x, b: 1 }], { a: [x, 'a'] });
  out.push([['a'], ['b']], { x: { a: 'a' } }, { x: ['a'] }, { a: 'a', b: 'a', x: 1 }, { a: [{ a: 'a' }] }, { a: { a: { a: 'a' } } }, { a: { a: 'a' }, b: { a: 1 } });
  return out;
})();

const LEAVES = ['t.string', 't.number', 't.boolean', "t.literal('a')", 't.literal(1)', 't.literal(true)', 't.null', "t.keyof({ a: null, b: null })", 'N.NonEmptyString', 't.unknown', 't.UnknownRecord'];
// [name, arity, template]
const OPS = [
  ['array', 1, (x) => `t.array(${x})`],
  ['type', 1, (x) => `t.type({ a: ${x} })`],
  ['partial', 1, (x) => `t.partial({ a: ${x} })`],
  ['optionalized', 1, (x) => `h.optionalized({ a: ${x}, b: h.optional(${x}) })`],
  ['optional', 1, (x) => `h.optional(${x})`],
  ['nullable', 1, (x) => `t.union([${x}, t.null])`],
  ['nullish', 1, (x) => `t.type({ a: t.union([${x}, t.null, t.undefined]) })`],
  ['record', 1, (x) => `t.record(t.string, ${x})`],
  ['recordK', 1, (x) => `t.record(t.keyof({ a: null, b: null }), ${x})`],
  ['recordU', 1, (x) => `t.record(t.union([t.literal('a'), t.literal('x')]), ${x})`],
  ['recordL', 1, (x) => `t.record(t.literal('a'), ${x})`],
  ['recordO', 1, (x) => `t.record(t.keyof({ x: null }), ${x})`],
  ['strict', 1, (x) => `t.strict({ a: ${x} })`],
  ['exact', 1, (x) => `t.exact(t.type({ a: ${x} }))`],
  ['readonlyArray', 1, (x) => `t.readonlyArray(${x})`],
  ['nonEmptyArray', 1, (x) => `N.nonEmptyArray(${x})`],
  ['readonlyNonEmptyArray', 1, (x) => `N.readonlyNonEmptyArray(${x})`],
  ['union', 2, (x, y) => `t.union([${x}, ${y}])`],
  ['union3', 2, (x, y) => `t.union([${x}, ${y}, t.undefined])`],
  ['type2', 2, (x, y) => `t.type({ a: ${x}, b: ${y} })`],
  ['optionalized2', 2, (x, y) => `h.optionalized({ a: ${x}, b: ${y} })`],
  ['inter', 2, (x, y) => `t.intersection([t.type({ a: ${x} }), t.partial({ b: ${y} })])`],
  ['interSame', 2, (x, y) => `t.intersection([t.type({ a: ${x} }), t.partial({ a: ${y} })])`],
  ['interX', 2, (x, y) => `t.intersection([${x}, ${y}])`],
];
const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\nimport * as N from 'io-ts-types';\n";

// every codec the generator documents, with what it decodes (packages that are
// not installed here are represented by the predicate their name documents).
// exact: the schema says exactly that; otherwise it must not reject what the codec accepts
const num = (f) => (v) => typeof v === 'number' && f(v);
const str = (f) => (v) => typeof v === 'string' && v.trim() !== '' && !Number.isNaN(Number(v)) && f(Number(v));
const bigstr = (f) => (v) => { if (typeof v !== 'string' || !/^-?\d+$/.test(v)) return false; return f(BigInt(v)); };
const int = Number.isInteger;
const NUMBERS = {
  NaturalFromString: str((n) => int(n) && n >= 0), Negative: num((n) => n < 0), NegativeFromString: str((n) => n < 0), NegativeInt: num((n) => int(n) && n < 0), NegativeIntFromString: str((n) => int(n) && n < 0),
  NonNegative: num((n) => n >= 0), NonNegativeFromString: str((n) => n >= 0), NonNegativeInt: num((n) => int(n) && n >= 0), NonNegativeIntFromString: str((n) => int(n) && n >= 0),
  NonPositive: num((n) => n <= 0), NonPositiveFromString: str((n) => n <= 0), NonPositiveInt: num((n) => int(n) && n <= 0), NonPositiveIntFromString: str((n) => int(n) && n <= 0),
  NonZero: num((n) => n !== 0), NonZeroFromString: str((n) => n !== 0), NonZeroInt: num((n) => int(n) && n !== 0), NonZeroIntFromString: str((n) => int(n) && n !== 0),
  Positive: num((n) => n > 0), PositiveFromString: str((n) => n > 0), Zero: num((n) => n === 0), ZeroFromString: str((n) => n === 0),
};
const BIGINTS = {
  BigIntFromString: bigstr(() => true), NegativeBigIntFromString: bigstr((n) => n < 0n), NonNegativeBigIntFromString: bigstr((n) => n >= 0n), NonPositiveBigIntFromString: bigstr((n) => n <= 0n),
  NonZeroBigIntFromString: bigstr((n) => n !== 0n), PositiveBigIntFromString: bigstr((n) => n >= 1n), ZeroBigIntFromString: bigstr((n) => n === 0n),
};
const EXACT_NUMBERS = ['Negative', 'NonNegative', 'NonPositive', 'Positive'];
const SIGN = { Negative: (n) => n < 0, NonNegative: (n) => n >= 0, NonPositive: (n) => n <= 0, Positive: (n) => n > 0 };
const LEAFVALUES = ['', ' ', 'a', '0', '1', '-1', '1.5', '-2', '12', 'true', '2020-01-01', '2020-01-01T00:00:00.000Z', '00000000-0000-4000-8000-000000000000', '{"a":1}', 0, 1, -1, 1.5, -1.5, 2, true, false, null, [], ['a'], [1], {}, { a: 1 }, { a: 'a' }];

module.exports = {
  id: 'C14',
  bounds: 'Every codec expression of nesting depth 1 over 11 leaf codecs and 24 combinators, each sub-expression inline or as a named codec; depth 2 (quick) / 3 (thorough) with up to 3 / 4 choices off the default; every documented leaf codec in 7 contexts; every form of property map over 2 keys. Each in a response and in a request body, compared on about 240 JSON values (depth up to 3).',
  assumptions: ['A property typed t.unknown may be listed as required (it is required in the TypeScript type); a union with t.unknown is described by its other members; a union of a primitive with a codec from its string form is described by the decoded primitive (documented simplifications).', 'io-ts-numbers and io-ts-bigint are not installed here: the meaning of their codecs is taken from their names; io-ts-numbers\' NumberFromString is not compared because the pattern the generator gives it cannot be checked against the missing package.', 'OpenAPI 3.0 schemas are read by an evaluator in lib/gen.js; null is described by nullable or by an untyped schema; oneOf is read as anyOf.'],
  scenarios(b, tier) {
    const E = b.require('fp-ts/Either');
    const g = makeGen(b);
    // expressions: each sub-expression may be a named const
    function expr(c, depth, consts, where, named) {
      const n = depth > 0 ? LEAVES.length + OPS.length : LEAVES.length;
      const i = c.choose(n, (v) => `${where}:${v < LEAVES.length ? LEAVES[v] : OPS[v - LEAVES.length][0]}`);
      if (i < LEAVES.length) return { text: LEAVES[i], op: 'leaf' };
      const op = OPS[i - LEAVES.length];
      const subs = [];
      for (let k = 0; k < op[1]; k++) {
        const s = expr(c, depth - 1, consts, `${where}${k}`, true);
        if (/^(union|nullable|nullish|interSame)/.test(op[0]) && s.text === 't.unknown') c.prune();
        if (/^union/.test(op[0]) && k === 1 && /^t.(literal.true.|null)$/.test(s.text) && subs[0] === s.text) c.prune(); // union of one value with itself
        if ((op[0] === 'nullable' || op[0] === 'nullish') && s.text === 't.null') c.prune();
        if (op[0] === 'interX' && s.optional) c.prune();
        if (op[0] === 'union3' && s.text === 't.null') c.prune(); // compared in 'nullish'
        if (c.flag(`${where}${k}-named`)) {
          const nm = `C${consts.length}`; consts.push(`export const ${nm} = ${s.text};`); subs.push(nm);
        } else subs.push(s.text);
      }
      const text = op[2](...subs);
      return { text, optional: op[0] === 'optional' || op[0] === 'union3' || (/^(union|nullable)$/.test(op[0]) && /optional|undefined/.test(text)) || false };
    }
    async function compare(c, consts, use, key, head = HEAD, lax = true, files = {}) {
      const src = `${head}${consts.join('\n')}\nexport const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({ body: { v: ${use} } } as any), response: { 200: ${use} } }) } });\n`;
      const mod = g.evaluate({ ...files, 'index.ts': src });
      const route = mod.api['x.y'].post;
      const codec = route.response[200];
      const r = await g.run({ ...files, 'index.ts': src });
      c.observe(r.stdout);
      c.check(r.code === 0 && r.doc, () => key('fails'), () => `the command failed: ${r.stderr.slice(0, 600)}`, src);
      const p = g.problems(r.doc);
      c.check(p.length === 0, () => key('malformed'), () => p.join('; '), () => ({ src, doc: r.doc }));
      const op = r.doc.paths['/p'].post;
      const schema = op.responses['200'].content['application/json'].schema;
      const body = op.requestBody && op.requestBody.content['application/json'].schema;
      const acc = lax ? g.acceptsLax : g.accepts;
      for (const v of VALUES) {
        const want = E.isRight(codec.decode(v));
        const got = schema === undefined ? false : acc(r.doc, schema, v);
        if (want !== got) c.fail(key('response' + (want ? '-rejects' : '-accepts')), `the schema ${got ? 'accepts' : 'rejects'} ${show(v)}, the codec does not agree`, { src, schema, components: r.doc.components });
      }
      const bodies = [{}, { zz: 1 }, ...VALUES.filter((v, i) => i % 2 === 0 || i < 40).map((v) => ({ v }))];
      for (const v of bodies) {
        const want = E.isRight(route.request.decode({ params: {}, query: {}, headers: {}, body: v }));
        const got = body === undefined ? true : acc(r.doc, body, v);
        if (want !== got) c.fail(key('body' + (want ? '-rejects' : '-accepts')), `the body schema ${got ? 'accepts' : 'rejects'} ${show(v)}, the request codec does not agree`, { src, body, components: r.doc.components });
      }
    }
    const top = (depth) => async function run(c) {
      const consts = [];
      const e = expr(c, depth, consts, 'X');
      let use = e.text;
      if (c.flag('top-named')) { consts.push(`export const Top = ${use};`); use = 'Top'; }
      await compare(c, consts, use, (k) => `${k}:${e.text}${consts.length ? ' | ' + consts.join(' ') : ''}`);
    };

    // ---- every documented codec, alone and inside each context
    const installed = ['t.string', 't.number', 't.boolean', 't.null', 't.nullType', 't.unknown', 't.any', 't.UnknownRecord', "t.literal('a')", 't.literal(1)', 't.literal(true)', 't.literal(false)', "t.literal('')", 't.literal(0)', "t.keyof({ a: 1, '1': 1 })", "t.keyof({ a: null })", 'N.NonEmptyString', 'N.JsonRecord', 'N.Json', 't.identity(t.string)'];
    const oneWay = ['N.NumberFromString', 'N.BigIntFromString', 'N.BooleanFromNumber', 'N.DateFromISOString', 'N.DateFromNumber', 'N.DateFromUnixTime', 'N.IntFromString', 'N.JsonFromString', 'N.UUID', "t.brand(t.string, (s): s is any => s.length > 1, 'B')"];
    const stubCodec = (t, name, pred) => new t.Type(name, pred, (i, ctx) => (pred(i) ? t.success(i) : t.failure(i, ctx)), (x) => x);
    const LEAFCASES = [];
    for (const x of installed) LEAFCASES.push({ text: x, exact: true });
    for (const x of oneWay) LEAFCASES.push({ text: x, jsonType: /FromNumber|FromUnix/.test(x) ? 'number' : 'string' });
    for (const n of Object.keys(NUMBERS)) LEAFCASES.push({ pkg: 'io-ts-numbers', name: n, pred: NUMBERS[n], bound: SIGN[/^(NonNegative|NonPositive|Negative|Positive)(?!.*FromString)/.exec(n) ? RegExp.$1 : ''], stringBound: SIGN[/^(NonPositive|Negative|Positive|NonNegative)FromString$/.exec(n) ? RegExp.$1 : ''] });
    for (const n of Object.keys(BIGINTS)) LEAFCASES.push({ pkg: 'io-ts-bigint', name: n, pred: BIGINTS[n], stringBound: SIGN[/^(NonPositive|Negative|Positive|NonNegative)BigInt/.exec(n) ? RegExp.$1 : ''] });
    LEAFCASES.push({ pkg: 'io-ts-bigint', name: 'NonEmptyString', pred: (v) => typeof v === 'string' && v.length > 0, exactPred: true });
    const CONTEXTS = [
      ['direct', (x) => x, (v) => v], ['property', (x) => `t.type({ a: ${x} })`, (v) => ({ a: v })], ['optional property', (x) => `h.optionalized({ a: h.optional(${x}) })`, (v) => ({ a: v })],
      ['array', (x) => `t.array(${x})`, (v) => [v]], ['record', (x) => `t.record(t.string, ${x})`, (v) => ({ a: v })], ['intersection', (x) => `t.intersection([t.type({ a: ${x} }), t.type({ b: t.string })])`, (v) => ({ a: v, b: 'b' })], ['named', (x) => 'Named', (v) => v],
    ];
    async function leaves(c, ci) {
      const L = LEAFCASES[ci];
      const text = L.pkg ? `P.${L.name}` : L.text;
      const importStyle = L.pkg ? c.pick(['star', 'named'], 'import', { free: true }) : 'star';
      const use0 = L.pkg && importStyle === 'named' ? L.name : text;
      const ctx = CONTEXTS[c.choose(CONTEXTS.length, (v) => CONTEXTS[v][0], { free: true })];
      const use = ctx[1](use0);
      const head = HEAD + (L.pkg ? (importStyle === 'star' ? `import * as P from '${L.pkg}';\n` : `import { ${L.name} } from '${L.pkg}';\n`) : '');
      const src = `${head}export const Named = ${use0};\nexport const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: ${use} } }) } });\n`;
      let decodes;
      if (L.pkg) decodes = L.pred;
      else { const codec = g.evaluate({ 'index.ts': src }).Named; decodes = (v) => { try { return E.isRight(codec.decode(v)); } catch (e) { return false; } }; }
      const r = await g.run({ 'index.ts': src });
      c.observe(r.stdout);
      const key = (k) => `leaf-${k}:${text}:${ctx[0]}`;
      c.check(r.code === 0 && r.doc, () => key('fails'), () => r.stderr.slice(0, 500), src);
      const schema = r.doc.paths['/p'].get.responses['200'].content['application/json'].schema;
      for (const v of LEAFVALUES) {
        const w = ctx[2](v);
        if (L.text === 'N.BooleanFromNumber' && typeof v === 'number' && v !== 0 && v !== 1) continue; // described by the two numbers it encodes to
        const ok = decodes(v) && !(L.jsonType && typeof v !== L.jsonType);
        const got = g.acceptsLax(r.doc, schema, w);
        if (ok && !got) c.fail(key('rejects'), `the codec decodes ${show(v)} but the schema rejects it`, { schema, doc: r.doc.components });
        if (!ok && got) {
          const wrongType = L.jsonType && typeof v !== L.jsonType;
          const wrongType2 = L.pkg && typeof v !== (/FromString|NonEmptyString/.test(L.name) ? 'string' : 'number');
          const bound = L.bound && typeof v === 'number' && !L.bound(v);
          if (L.exact || L.exactPred || wrongType || wrongType2 || bound) c.fail(key('accepts'), `the schema accepts ${show(v)}, which the codec rejects`, { schema, doc: r.doc.components });
        }
      }
      if (L.stringBound) {
        // numeric bounds given next to a string form describe the number in the string
        let leaf = ctx[0] === 'named' ? r.doc.components.schemas.Named : schema;
        leaf = (leaf.properties && leaf.properties.a) || leaf.items || leaf.additionalProperties || leaf;
        const inside = (n) => (leaf.minimum === undefined || (leaf.exclusiveMinimum ? n > leaf.minimum : n >= leaf.minimum)) && (leaf.maximum === undefined || (leaf.exclusiveMaximum ? n < leaf.maximum : n <= leaf.maximum));
        for (const n of [-2, -1, 1, 2, 0]) if (L.stringBound(n)) c.check(inside(n), () => key('bounds'), () => `the bounds exclude ${n}`, leaf);
        if (leaf.minimum !== undefined || leaf.maximum !== undefined) for (const n of [-2, 2, 0]) if (!L.stringBound(n)) c.check(!inside(n), () => key('bounds'), () => `the bounds include ${n}`, leaf);
      }
    }

    // ---- property maps written in every supported way
    const KEYFORMS = [(k) => k, (k) => `'${k}'`, (k) => `[K_${k}]`, (k) => `[Enum.${k}]`];
    async function maps(c) {
      const combos = ['inline', 'spread-const', 'spread-inline', 'const', 'assign', 'assign-const', 'shorthand', 'imported-spread', 'as-const'];
      const form = c.pick(combos, 'form', { free: true });
      const wrap = c.pick(['t.type', 't.partial', 'h.optionalized', 't.strict'], 'codec', { free: true });
      const kf = KEYFORMS[c.choose(KEYFORMS.length, 'key form')];
      const A = c.pick(['t.string', 'h.optional(t.string)', 't.number', 'Named', "t.literal('a')"], 'A');
      const B = c.pick(['t.number', 'h.optional(t.number)', 't.string', 't.array(t.string)'], 'B');
      const over = c.flag('override'); // the second source declares key a again
      const consts = ["const K_a = 'a';", "const K_b = 'b';", "enum Enum { a = 'a', b = 'b' }", 'export const Named = t.boolean;'];
      const first = `{ ${kf('a')}: ${A} }`, second = over ? `{ ${kf('b')}: ${B}, ${kf('a')}: t.boolean }` : `{ ${kf('b')}: ${B} }`;
      const inner = (o) => o.slice(1, -1);
      let map; const files = {};
      switch (form) {
        case 'inline': map = over ? `{ ${kf('a')}: t.boolean, ${kf('b')}: ${B} }` : `{ ${inner(first)}, ${inner(second)} }`; break;
        case 'spread-const': consts.push(`const base = ${first};`); map = `{ ...base, ${inner(second)} }`; break;
        case 'spread-inline': map = `{ ...${first}, ${inner(second)} }`; break;
        case 'const': consts.push(`const base = ${first};`, `const props = { ...base, ${inner(second)} };`); map = 'props'; break;
        case 'assign': map = `Object.assign({}, ${first}, ${second})`; break;
        case 'assign-const': consts.push(`const base = ${first};`, `const more = ${second};`); map = 'Object.assign({}, base, more)'; break;
        case 'shorthand': if (kf !== KEYFORMS[0] || over) c.prune(); consts.push(`const a = ${A};`, `const b = ${B};`); map = '{ a, b }'; break;
        case 'imported-spread': files['base.ts'] = `${HEAD}import { Named } from './named';\nconst K_a = 'a';\nenum Enum { a = 'a', b = 'b' }\nexport const base = ${first};\n`; files['named.ts'] = "import * as t from 'io-ts';\nexport const Named = t.boolean;\n"; consts.unshift("import { base } from './base';"); map = `{ ...base, ${inner(second)} }`; break;
        case 'as-const': consts.push(`const base = ${first} as const;`); map = `{ ...base, ${inner(second)} } as const`; break;
      }
      consts.push(`export const Codec = ${wrap}(${map});`);
      await compare(c, consts, 'Codec', (k) => `map-${k}:${form}:${wrap}(${map})`, HEAD, true, files);
    }
    // the one union the generator's own tests pin: X, null and undefined outside a property
    async function nullish(c) {
      const X = c.pick(['t.string', 't.array(t.string)', 't.type({ a: t.string })'], 'X', { free: true });
      const order = c.pick([(x) => `[${x}, t.null, t.undefined]`, (x) => `[t.null, ${x}, t.undefined]`, (x) => `[t.undefined, ${x}, t.null]`], 'order', { free: true });
      await compare(c, [], `t.union(${order(X)})`, (k) => `nullish-${k}:${order(X)}`);
    }
    // ---- the keys of a record: sets of names that are written out, named, named again, united or imported
    const KEYLEAVES = ["t.literal('a')", "t.literal('x')", 't.keyof({ a: null, b: null })', "t.union([t.literal('b'), t.literal('x')])", 't.string', 'N.NonEmptyString', 'FarKeys', 'Far2'];
    function keyset(c, depth, consts, where) {
      const n = KEYLEAVES.length + (depth > 0 ? 3 : 0);
      const i = c.choose(n, (v) => `${where}:${KEYLEAVES[v] || ['named', 'union', 'union3'][v - KEYLEAVES.length]}`);
      if (i < KEYLEAVES.length) return KEYLEAVES[i];
      if (i === KEYLEAVES.length) { const x = keyset(c, depth - 1, consts, where + 'n'); const nm = `K${consts.length}`; consts.push(`export const ${nm} = ${x};`); return nm; }
      const a = keyset(c, depth - 1, consts, where + '0'), z = keyset(c, depth - 1, consts, where + '1');
      return `t.union([${a}, ${z}${i === KEYLEAVES.length + 2 ? ", t.literal('b')" : ''}])`;
    }
    const CODOMAINS = [['t.string', ''], ['h.optional(t.string)', ''], ['V', 'export const V = t.number;'], ['V', 'export const V = h.optional(t.string);'], ['W', 'export const V = h.optional(t.string);\nexport const W = V;'], ['W', 'export const V = h.optional(t.string);\nexport const W = t.union([V, t.number]);'], ['t.unknown', '']];
    async function keys(c) {
      const consts = ["import { FarKeys, Far2 } from './far';"];
      const dom = keyset(c, tier === 'thorough' ? 3 : 2, consts, 'K');
      const [cod, decl] = CODOMAINS[c.choose(CODOMAINS.length, (v) => CODOMAINS[v][1] || CODOMAINS[v][0])];
      if (decl) consts.push(decl);
      const around = c.pick([(x) => x, (x) => `t.type({ a: ${x} })`, (x) => `t.array(${x})`], 'around');
      // (N.NonEmptyString as a key rejects the key '': the schema of a name cannot say so)
      if (consts.concat(dom).some((x) => x.includes('NonEmptyString')) && !/t\.string/.test(dom)) c.prune();
      const use = around(`t.record(${dom}, ${cod})`);
      const files = { 'far.ts': "import * as t from 'io-ts';\nconst Own = t.keyof({ a: null, b: null });\nexport const FarKeys = t.union([Own, t.literal('x')]);\nexport const Far2 = Own;\n" };
      await compare(c, consts, use, (k) => `keys-${k}:${use} | ${consts.slice(1).join(' ')}`, HEAD, true, files);
    }
    // ---- constants: members of enums and objects, the keys of a keyof, other constants
    const INITS = [null, "'a'", "'b'", '1', '0', '-1', 'null', 'true'];
    async function constants(c) {
      const kind = c.pick(['enum', 'object', 'keys', 'nested', 'const'], 'kind', { free: true });
      const place = c.pick(['same', 'imported', 'renamed', 'namespace', 'reexported'], 'place', { free: true });
      const names = ['a', 'b', 'x'];
      const inits = names.map((n) => INITS[c.choose(INITS.length, (v) => `${n}=${INITS[v]}`)]);
      if (kind !== 'enum') inits.forEach((x, i) => { if (x === null) inits[i] = `'${names[i]}'`; });
      else if (inits.some((x) => x === 'null' || x === 'true')) c.prune();
      const members = names.map((n, i) => (kind === 'enum' ? (inits[i] === null ? n : `${n} = ${inits[i]}`) : `${n}: ${inits[i]}`)).join(', ');
      const m = names[c.choose(3, (v) => 'member ' + names[v], { free: true })];
      const decl = kind === 'enum' ? `export enum X { ${members} }` : kind === 'object' ? `export const X = { ${members} } as const;` : kind === 'keys' ? `export const X = t.keyof({ ${members} } as any);` : kind === 'nested' ? `export const X = { keys: { ${members} } } as const;` : `export const X = ${inits[0]} as const;`;
      if (kind === 'const' && (m !== 'a' || inits[1] !== "'b'" || inits[2] !== "'x'")) c.prune();
      const own = place === 'renamed' ? 'Y' : place === 'namespace' ? 'M.X' : 'X';
      const files = {};
      const consts = [];
      if (place === 'same') consts.push(decl);
      else {
        files['m.ts'] = `import * as t from 'io-ts';\n${decl}\n`;
        files['n.ts'] = "export * from './m';\n";
        consts.push(place === 'imported' ? "import { X } from './m';" : place === 'renamed' ? "import { X as Y } from './m';" : place === 'namespace' ? "import * as M from './m';" : "import { X } from './n';");
      }
      const access = kind === 'const' ? own : (kind === 'keys' || kind === 'nested' ? own + '.keys' : own) + (c.flag('quoted') ? `['${m}']` : `.${m}`);
      const named = c.flag('named');
      if (named) consts.push(`const K = ${access};`);
      const v = named ? 'K' : access;
      const use = c.pick([`t.literal(${v} as any)`, `t.type({ a: t.literal(${v} as any), b: t.string })`, `t.type({ [${v}]: t.string })`, `t.union([t.literal(${v} as any), t.literal('a')])`, `t.array(t.literal(${v} as any))`].concat(/^(enum|object)$/.test(kind) ? [`t.keyof(${own} as any)`] : []), 'use');
      const head = HEAD;
      const src = `${head}${consts.join('\n')}\nexport const value = ${v};\nexport const api = h.apiSpec({});\n`;
      if (/keyof\(/.test(use) && kind === 'enum' && !inits.every((x) => x && x[0] === "'")) c.prune(); // (the numbers of an enum are keys of it as well)
      const value = g.evaluate({ ...files, 'index.ts': src }).value;
      if (value === undefined) c.prune(); // (not a TypeScript enum)
      const text = `${decl} ${place}: ${use}`;
      // what the generator does not support it has to say
      const probe = await g.run({ ...files, 'index.ts': `${head}${consts.join('\n')}\nexport const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: ${use} } }) } });\n` });
      if (probe.code === 1 && /\[ERROR\]/.test(probe.stderr)) {
        c.check(!/TypeError|RangeError|undefined/.test(probe.stderr.split('\n')[0]), () => `constants-crash:${text}`, () => probe.stderr.slice(0, 400));
        if (kind === 'enum' && !/keyof/.test(use) && inits.every((x) => x === null || x[0] === "'" || /^\d/.test(x)) && place === 'same' && !access.includes('[')) c.fail(`constants-refused:${text}`, probe.stderr.slice(0, 400));
        return c.observe('unsupported');
      }
      await compare(c, consts, use, (k) => `constants-${k}:${text}`, head, true, files);
    }
    return [
      { name: 'constants', shards: [5, 5], chunk: 4, deviations: tier === 'thorough' ? 3 : 2, run: constants, what: 'constants in every form and place' },
      { name: 'depth1', shards: [LEAVES.length + OPS.length], run: top(1), what: 'every expression of depth 1' },
      { name: 'deep', shards: [LEAVES.length + OPS.length], run: top(tier === 'thorough' ? 3 : 2), deviations: tier === 'thorough' ? 4 : 3, what: 'nested expressions' },
      { name: 'leaves', cases: LEAFCASES.length, chunk: 8, run: leaves, what: 'every documented codec in every context' },
      { name: 'maps', shards: [9, 4], chunk: 4, deviations: tier === 'thorough' ? undefined : 3, run: maps, what: 'property maps in every supported form' },
      { name: 'keys', shards: [KEYLEAVES.length + 3], deviations: tier === 'thorough' ? 5 : 3, run: keys, what: 'the keys and values of records' },
      { name: 'nullish', run: nullish, what: 'null and undefined in one union' },
    ];
  },
};
