'use strict';
const { show, same } = require('../lib/explore');
const makeGen = require('../lib/gen');

// One program with a place for a comment before everything that can have one.
const PROGRAM = `⟦imports⟧import * as t from 'io-ts';
import * as h from '@api-ts/io-ts-http';
import { NumberFromString } from 'io-ts-types';
import { Imp, ImpInl, ImpStr } from './other';
⟦pad⟧const pad0 = 1;
⟦Opt⟧const Opt = t.string;
⟦Inl⟧const Inl = t.type({
  ⟦Inl.p⟧p: t.string,
});
⟦Local⟧const Local = t.type({
  ⟦Local.p⟧p: t.string,
  q: t.number,
});
⟦LocalStr⟧export const LocalStr = t.string;
⟦LocalArr⟧const LocalArr = t.array(t.string);
⟦LocalUnion⟧const LocalUnion = t.union([t.string, t.number]);
⟦Key⟧const Key = t.keyof({
  ⟦Key.A⟧A: 1,
  ⟦Key.B⟧B: 1,
});
const Spread = {
  ⟦spread⟧sp: t.string,
  sq: t.string,
};
const Props = {
  ⟦propsfirst⟧pf: t.string,
  ⟦propslast⟧pl: t.boolean,
};
const KEY = 'ck';
const sh = t.string;
⟦route⟧const Route = h.httpRoute({
  path: '/p/{id}',
  method: 'POST',
  request: h.httpRequest({
    params: {
      ⟦id⟧id: t.string,
    },
    query: {
      ⟦q⟧q: t.string,
      ⟦qn⟧qn: NumberFromString,
      ⟦qo⟧qo: h.optional(t.string),
      qs: h.optional(Opt),
      ⟦qr⟧qr: LocalStr,
    },
    headers: {
      ⟦x⟧'x-a': t.string,
    },
    body: {
      ⟦b⟧b: t.number,
      ⟦bl⟧bl: t.boolean,
    },
  }),
  response: {
    ⟦ok⟧200: t.type({
      ⟦first⟧first: t.string,
      ⟦num⟧num: t.number,
      ⟦bool⟧bool: t.boolean,
      ⟦lit⟧lit: t.literal('l'),
      ⟦opt⟧opt: h.optional(t.string),
      ⟦optn⟧optn: h.optional(t.number),
      ⟦ref⟧ref: Local,
      ⟦refs⟧refs: LocalStr,
      ⟦imp⟧imp: Imp,
      ⟦arr⟧arr: t.array(t.string),
      ⟦arrn⟧arrn: t.array(t.number),
      ⟦arrRef⟧arrRef: t.array(Inl),
      ⟦rec⟧rec: t.record(t.string, t.number),
      ⟦union⟧union: t.union([t.string, t.number]),
      ⟦refUnion⟧refUnion: t.union([Inl, ImpInl]),
      ⟦nullable⟧nullable: t.union([t.string, t.null]),
      ⟦nullnum⟧nullnum: t.union([t.number, t.null]),
      ⟦nullRef⟧nullRef: t.union([Inl, t.null]),
      ⟦optRef⟧optRef: h.optional(Inl),
      ⟦inter⟧inter: t.intersection([Inl, ImpInl]),
      ⟦unk⟧unk: t.unknown,
      ⟦nul⟧nul: t.null,
      ⟦obj⟧obj: t.type({
        ⟦nested⟧nested: t.string,
        ⟦nestedlast⟧nl: t.number,
      }),
      part: t.partial({
        ⟦part⟧pt: t.string,
        ⟦partlast⟧pu: t.array(t.string),
      }),
      items: t.array(t.type({
        ⟦item⟧it: t.string,
      })),
      members: t.union([t.type({
        ⟦member1⟧m1: t.string,
      }), t.type({
        ⟦member2⟧m2: t.number,
      })]),
      both: t.intersection([t.type({
        ⟦both1⟧b1: Local,
      }), t.partial({
        ⟦both2⟧b2: t.string,
      })]),
      keys: Key,
      ⟦key⟧key: t.keyof({
        ⟦key.A⟧A: 1,
        ⟦key.B⟧B: null,
      }),
      optkey: h.optional(t.keyof({
        ⟦optkey.A⟧A: 1,
        B: 1,
      })),
      spread: t.type({
        ...Spread,
        ⟦afterspread⟧as: t.string,
      }),
      props: t.type(Props),
      others: t.type({
        ⟦sh⟧sh,
        ⟦aftersh⟧ash: t.string,
        ⟦computed⟧[KEY]: t.string,
        ⟦quoted⟧'quoted-key': t.string,
        ⟦comment⟧comment: t.string,
      }),
      refsU: LocalUnion,
      refsA: LocalArr,
      ⟦last⟧last: ImpStr,
    }),
    ⟦bad⟧400: t.string,
  },
});
⟦spec⟧export const api = h.apiSpec({
  'x.y': { post: Route, get: Union },
});
⟦Union⟧const Union = h.httpRoute({ path: '/u', method: 'GET', request: Req, response: { 200: t.array(t.string), 404: t.string } });
⟦Req⟧const Req = t.union([h.httpRequest({ body: { a: t.string } }), h.httpRequest({ body: { b: t.string } })]);
`;
const OTHER = `⟦other.imports⟧import * as t from 'io-ts';
⟦Imp⟧export const Imp = t.type({
  ⟦Imp.p⟧ip: t.string,
});
export const ImpInl = t.type({ ii: t.string });
⟦ImpStr⟧export const ImpStr = t.string;
`;

// where the text of a comment appears: kind, and the place
const op = (d) => d.paths['/p/{id}'].post, ok = (d) => op(d).responses[200].content['application/json'].schema;
const comp = (n) => ['schema', (d) => [d.components.schemas, n]];
const at = (...path) => ['schema', (d) => { let o = ok(d); for (const k of path.slice(0, -1)) o = o[k]; return [o, path[path.length - 1]]; }];
const P = (...n) => at('properties', ...n);
const param = (i, n) => ['param', (d) => [op(d).parameters, op(d).parameters.findIndex((p) => p.in === i && p.name === n)]];
const keyOf = (n, where) => ['enum', where, n];
const body = (d) => op(d).requestBody.content['application/json'].schema;
// slot: [what it is, value type, place]
const T = {
  Opt: ['string', param('query', 'qs')], Inl: ['object', comp('Inl'), P('arrRef', 'items'), P('optRef')],
  'Inl.p': ['string', ['schema', (d) => [d.components.schemas.Inl.properties, 'p']], P('arrRef', 'items', 'properties', 'p'), P('optRef', 'properties', 'p')],
  Local: ['object', comp('Local')], LocalStr: ['string', comp('LocalStr')], LocalUnion: ['any', comp('LocalUnion')], LocalArr: ['array', 'string', comp('LocalArr')],
  Imp: ['object', comp('Imp')], ImpStr: ['string', comp('ImpStr')],
  'Local.p': ['string', ['schema', (d) => [d.components.schemas.Local.properties, 'p']]], 'Imp.p': ['string', ['schema', (d) => [d.components.schemas.Imp.properties, 'ip']]],
  id: ['string', param('path', 'id')], q: ['string', param('query', 'q')], qn: ['string', param('query', 'qn')], qo: ['string', param('query', 'qo')], qr: ['ref', param('query', 'qr')], x: ['string', param('header', 'x-a')],
  b: ['number', ['schema', (d) => [body(d).properties, 'b']]], bl: ['boolean', ['schema', (d) => [body(d).properties, 'bl']]],
  ok: ['object', ['schema', (d) => [op(d).responses[200].content['application/json'], 'schema']]], bad: ['string', ['schema', (d) => [op(d).responses[400].content['application/json'], 'schema']]],
  first: ['string', P('first')], num: ['number', P('num')], bool: ['boolean', P('bool')], lit: ['string', P('lit')], opt: ['string', P('opt')], optn: ['number', P('optn')], ref: ['ref', P('ref')], refs: ['ref', P('refs')], imp: ['ref', P('imp')],
  arr: ['array', 'string', P('arr')], arrn: ['array', 'number', P('arrn')], arrRef: ['array', 'object', P('arrRef')], rec: ['object', P('rec')], union: ['any', P('union')], refUnion: ['any', P('refUnion')], nullable: ['string', P('nullable')], nullnum: ['number', P('nullnum')], nullRef: ['object', P('nullRef')], optRef: ['object', P('optRef')], inter: ['any', P('inter')], unk: ['any', P('unk')], nul: ['null', P('nul')],
  obj: ['object', P('obj')], nested: ['string', at('properties', 'obj', 'properties', 'nested')], nestedlast: ['number', at('properties', 'obj', 'properties', 'nl')],
  part: ['string', at('properties', 'part', 'properties', 'pt')], partlast: ['array', 'string', at('properties', 'part', 'properties', 'pu')],
  item: ['string', at('properties', 'items', 'items', 'properties', 'it')], member1: ['string', at('properties', 'members', 'oneOf', 0, 'properties', 'm1')], member2: ['number', at('properties', 'members', 'oneOf', 1, 'properties', 'm2')],
  both1: ['ref', ['schema', (d) => [find(ok(d).properties.both, 'b1'), 'b1']]], both2: ['string', ['schema', (d) => [find(ok(d).properties.both, 'b2'), 'b2']]],
  key: ['string', P('key')],
  'Key.A': keyOf('A', comp('Key')[1]), 'Key.B': keyOf('B', comp('Key')[1]), 'key.A': keyOf('A', P('key')[1]), 'key.B': keyOf('B', P('key')[1]), 'optkey.A': keyOf('A', P('optkey')[1]), Key: ['string', comp('Key')],
  spread: ['string', at('properties', 'spread', 'properties', 'sp')], afterspread: ['string', at('properties', 'spread', 'properties', 'as')], propsfirst: ['string', at('properties', 'props', 'properties', 'pf')], propslast: ['boolean', at('properties', 'props', 'properties', 'pl')],
  sh: ['string', at('properties', 'others', 'properties', 'sh')], aftersh: ['string', at('properties', 'others', 'properties', 'ash')], computed: ['string', at('properties', 'others', 'properties', 'ck')], quoted: ['string', at('properties', 'others', 'properties', 'quoted-key')], comment: ['string', at('properties', 'others', 'properties', 'comment')],
  last: ['ref', P('last')],
  route: ['operation', (d) => op(d)], Union: ['operation', (d) => d.paths['/u'].get],
  spec: ['server'],
  Req: ['reqbody', ['schema', (d) => [d.paths['/u'].get.requestBody.content['application/json'], 'schema']]],
  imports: ['none'], 'other.imports': ['none'], pad: ['none'],
};
function find(s, n) { if (s.properties && n in s.properties) return s.properties; for (const x of s.allOf || []) { const r = find(x, n); if (r) return r; } }
const IS_STATEMENT = (s) => ['Local', 'LocalStr', 'LocalArr', 'LocalUnion', 'Opt', 'Inl', 'Key', 'Imp', 'ImpStr', 'route', 'Union', 'spec', 'Req', 'imports', 'other.imports', 'pad'].includes(s);
const IN_OTHER = (s) => ['Imp', 'ImpStr', 'Imp.p', 'other.imports'].includes(s);
const HAS_PREV = (s) => !IS_STATEMENT(s) && !/^(ok|bad)$|\.[AB]$/.test(s);

// [key, lines, what a schema is described as, summary, rest]
const DESCRIPTIONS = [
  ['one', ['A text.']], ['none', []], ['two', ['First line', 'second line']], ['paragraphs', ['First line', '', 'third line']], ['multibyte', ['Größe – 価格 €']], ['emoji', ['🚀 Launch 🧑‍🚀 done']], ['star', ['2 * 3 = 6 ** 7']], ['bullets', ['List:', '* one', '- two', '* three']],
  ['indented', ['Code:', '  indented', '    more', 'end']], ['fence', ['Text', '```', 'code { x: 1 }', '```']], ['mail', ['Write to a@b.c or https://x.y/z?a=1//b']], ['braces', ['{braces} and [brackets] and "quotes" and \\ slash']], ['spaces', ['two  spaces']], ['html', ['a < b && c > d </p>']], ['inlinetag', ['see {@link x} there']], ['leading', ['- first', '- second']], ['slashes', ['// not a comment']], ['open', ['/* not a comment']],
];
// [tag, lines of its value, field, value by type]
const text = (s) => () => s;
const TAGS = [
  ['title', ['A Title'], 'title', 'A Title'], ['title', ['Größe 🚀'], 'title', 'Größe 🚀'], ['title', ['{braced} title'], 'title', '{braced} title'], ['title', ['[bracket] title'], 'title', '[bracket] title'], ['title', ['two  spaces'], 'title', 'two  spaces'], ['title', ['a * b'], 'title', 'a * b'], ['title', ['a @b c'], 'title', 'a @b c'], ['title', ['x'], 'title', 'x'], ['title', ['- dash'], 'title', '- dash'], ['title', ['0'], 'title', '0'], ['title', ['a // b'], 'title', 'a // b'], ['title', ['{open'], 'title', '{open'], ['title', ['[open'], 'title', '[open'],
  ['pattern', ['^[a-z]{2,3}$'], 'pattern', '^[a-z]{2,3}$'], ['pattern', ['[0-9]+ [a-z]*x'], 'pattern', '[0-9]+ [a-z]*x'], ['pattern', ['^\\d+\\.\\d$'], 'pattern', '^\\d+\\.\\d$'], ['pattern', ['{2}'], 'pattern', '{2}'], ['pattern', ['[^]]]'], 'pattern', '[^]]]'],
  ['format', ['date-time'], 'format', 'date-time'],
  ['minLength', ['0'], 'minLength', 0], ['maxLength', ['12'], 'maxLength', 12], ['minimum', ['-1.5'], 'minimum', -1.5], ['minimum', ['0'], 'minimum', 0], ['maximum', ['1e3'], 'maximum', 1000], ['minItems', ['1'], 'minItems', 1], ['maxItems', ['0'], 'maxItems', 0], ['minProperties', ['1'], 'minProperties', 1], ['maxProperties', ['9'], 'maxProperties', 9],
  ['exclusiveMinimum', [''], 'exclusiveMinimum', true], ['exclusiveMaximum', [''], 'exclusiveMaximum', true], ['multipleOf', ['0.01'], 'multipleOf', 0.01], ['uniqueItems', [''], 'uniqueItems', true], ['readOnly', [''], 'readOnly', true], ['writeOnly', [''], 'writeOnly', true],
  ['deprecated', [''], 'deprecated', true], ['deprecated', ['use other'], 'deprecated', true], ['private', [''], 'x-internal', true], ['public', [''], 'x-internal', false],
  ['default', ['abc'], 'default', { string: 'abc', any: 'abc' }], ['default', ['"a b"'], 'default', { string: 'a b' }], ['default', ['0'], 'default', { string: '0', number: 0 }], ['default', ['false'], 'default', { boolean: false, string: 'false' }], ['default', ['true'], 'default', { boolean: true }], ['default', ['a  b'], 'default', { string: 'a  b' }], ['default', ['null'], 'default', { null: null }], ['default', ['{a} b'], 'default', { string: '{a} b' }],
  ['example', ['abc'], 'example', { string: 'abc', any: 'abc' }], ['example', ['5'], 'example', { number: 5, string: '5' }], ['example', ['0'], 'example', { number: 0 }], ['example', ['true'], 'example', { boolean: true }], ['example', ['"a b"'], 'example', { string: 'a b' }], ['example', ['a * b'], 'example', { string: 'a * b' }], ['example', ['x@example.com'], 'example', { string: 'x@example.com' }], ['example', ['mail @example b'], 'example', { string: 'mail @example b' }], ['example', ['a  b'], 'example', { string: 'a  b' }],
  ['example', ['{ "a": 1, "b": "2 * 3" }'], 'example', { object: { a: 1, b: '2 * 3' }, ref: { a: 1, b: '2 * 3' }, any: { a: 1, b: '2 * 3' } }], ['example', ['{', '  "a": 1,', '  "b": "2 * 3"', '}'], 'example', { object: { a: 1, b: '2 * 3' }, ref: { a: 1, b: '2 * 3' }, any: { a: 1, b: '2 * 3' } }], ['example', ['{ "a": [', '  1 ] }'], 'example', { object: { a: [1] }, ref: { a: [1] }, any: { a: [1] } }], ['example', ['{', '  "@x": "a  b @y",', '', '  "u": "https://h/*"', '}'], 'example', { object: { '@x': 'a  b @y', u: 'https://h/*' }, any: { '@x': 'a  b @y', u: 'https://h/*' } }], ['example', ['{', '  "g": "Größe 🚀"', '}'], 'example', { object: { g: 'Größe 🚀' } }],
  ['example', ['[1, 2]'], 'example', { array: [1, 2], any: [1, 2] }], ['example', ['["a",', '"b"]'], 'example', { array: ['a', 'b'], any: ['a', 'b'] }],
];
const R_TAGS = [
  ['operationId', ['v2.a.b'], (o) => { o.operationId = 'v2.a.b'; }], ['tag', ['Wallet'], (o) => { o.tags = [...(o.tags || []), 'Wallet']; }], ['tag', ['Two Words'], (o) => { o.tags = [...(o.tags || []), 'Two Words']; }], ['private', [''], (o) => { o['x-internal'] = true; }], ['public', [''], (o) => { o['x-internal'] = false; }], ['unstable', [''], (o) => { o['x-unstable'] = true; }],
  ['version', ['3'], (o) => unknown(o, 'version', '3')], ['flag', [''], (o) => unknown(o, 'flag', true)], ['department', ['Billing  team {x}'], (o) => unknown(o, 'department', 'Billing  team {x}')], ['curly', ['{type} name'], (o) => unknown(o, 'curly', '{type} name')], ['deprecated', ['soon'], (o) => unknown(o, 'deprecated', 'soon')], ['bracket', ['[a] b'], (o) => unknown(o, 'bracket', '[a] b')], ['url', ['https://x'], () => {}],
  ['example', ['{ "a": 1 }'], (o) => ex(o, { a: 1 })], ['example', ['{', '  "a": "x * y",', '  "b": [1, 2]', '}'], (o) => ex(o, { a: 'x * y', b: [1, 2] })], ['example', ['["a"]'], (o) => ex(o, ['a'])], ['example', ['plain'], (o) => ex(o, 'plain')],
];
function unknown(o, k, v) { o['x-unknown-tags'] = { ...o['x-unknown-tags'], [k]: v }; }
function ex(o, v) { for (const r of Object.values(o.responses)) r.content['application/json'].example = v; }
const STYLES = ['lines', 'single', 'compact', 'nostar', 'trailing', 'blank', 'sameline', 'tabs', 'gap'];
// what comes before in the same object: [key, source, the same without comments, what its comments say]
const Z = (v) => `zz0: ${v},\n`;
const PREV = [null, ['plain', Z('t.string')], ['documented', '/** Of zz. */\n' + Z('t.string'), Z('t.string'), { zz0: { description: 'Of zz.' } }], ['documented lines', '/**\n * Of zz.\n * @title Zz\n */\n' + Z('t.string'), Z('t.string'), { zz0: { description: 'Of zz.', title: 'Zz' } }], ['trailing', 'zz0: t.string, // a * b\n', Z('t.string')], ['trailing block', 'zz0: t.string, /* a * b */\n', Z('t.string')], ['string', Z("t.literal('/** @title fake */')")], ['open string', Z("t.literal('/** fake')")], ['multibyte string', Z("t.literal('🚀é/*')")], ['template', Z('t.literal(`/** x */ a * b`)')],
  ['call', Z('h.optional(t.literal(String.raw`/** x */`))'), Z("h.optional(t.unknown)"), null, true], ['comma', 'zz0: t.string /* before the comma */,\n', Z('t.string')], ['shorthand', 'sh,\n'], ['spread', '...Spread,\n'], ['documented shorthand', '/** Of sh. */\nsh,\n', 'sh,\n', { sh: { description: 'Of sh.' } }], ['documented spread', '/** Of the spread. */\n...Spread,\n', '...Spread,\n'], ['commented spread', '...Spread, // 2 * 3 = 6\n', '...Spread,\n']].filter((p) => !p || !p[4]);
const PREV_NESTED = [['nested', 'zz0: t.type({\n/** Inner. */\nyy: t.string }),\n', 'zz0: t.type({ yy: t.string }),\n', { zz0: { yy: { description: 'Inner.' } } }], ['nested lines', 'zz0: t.type({\n/**\n * Inner.\n */\nyy: t.string }),\n', 'zz0: t.type({ yy: t.string }),\n', { zz0: { yy: { description: 'Inner.' } } }], ['nested last', 'zz0: t.type({ yy: t.string /* trailing * inner */ }),\n', 'zz0: t.type({ yy: t.string }),\n']];
const BEFORE = [null, ['line comment', '// 2 * 3 = 6\n'], ['line comments', '// a\n// b * c\n//  * d\n'], ['block comment', '/* a * b */\n'], ['block lines', '/*\n * plain\n * @title Plain\n */\n'], ['jsdoc', '/** Earlier text. */\n'], ['jsdoc lines', '/**\n * Earlier text.\n * @title Earlier\n * @example { "x": 1 }\n */\n\n'], ['todo', '/* TODO */\n'], ['fake', '// /** not this */\n'], ['fake lines', '// /**\n//  * not this\n//  */\n'], ['stars', '/*****/\n'], ['three', '/*** three ***/\n'], ['emoji', '// 🚀 é * €\n'], ['empty', '/** */\n'], ['empty block', '/**/\n'], ['disabled', '/* a: t.string, */\n'], ['disabled line', '// a: t.string, /** b */\n']];
const AFTER = [null, ['line comment', '// 2 * 3 = 6\n'], ['block comment', '/* a * b */ '], ['block lines', '/*\n * plain\n * @title Plain\n */\n'], ['directive', '// eslint-disable-next-line\n'], ['fake', '// /** not this */\n']];
const STATEMENTS = [null, ['const', 'const z0 = 1;\n'], ['documented const', '/** Of z. @deprecated */\nconst z0 = 1;\n'], ['documented function', '/**\n * Of z.\n * @title Zz\n */\nfunction z0() { /** inner */ return 1; }\n'], ['documented interface', '/** Of Z. */\ninterface Z0 { /** member */ a: string }\n'], ['class', 'class Z0 { /** m */ m() {} }\n'], ['type', '/** Of T */ type T0 = string;\n'], ['multibyte', "const z0 = 'äöü€';\n"], ['emoji', "const z0 = '🚀🚀🚀';\n"], ['no semicolon', 'const z0 = 1\n'], ['string', "const z0 = '/** fake */';\n"], ['open string', "const z0 = '/**';\n"], ['expression', "'use strict';\n"], ['export', 'export {};\n'], ['enum', '/** Of E */ enum Z0 { /** m */ A = 1 }\n'], ['trailing', 'const z0 = 1; // a * b\n'], ['trailing jsdoc', 'const z0 = 1; /* a */\n']];
const FILES = [null, ['crlf'], ['bom'], ['license', '/** License text. */\n'], ['license lines', '/**\n * License text.\n * @title Bad\n */\n\n'], ['line head', '// head * line\n'], ['shebang', '#!/usr/bin/env node\n'], ['multibyte head', '// äöü€ * \n'], ['emoji head', '/* 🚀🚀🚀 */\n'], ['blank head', '\n\n  \n'], ['first']];
const norm = (x) => {
  if (Array.isArray(x)) return x.map(norm);
  if (!x || typeof x !== 'object') return x;
  const o = {};
  for (const k of Object.keys(x)) o[k] = norm(x[k]);
  if (Object.keys(o).length === 1 && Array.isArray(o.allOf) && o.allOf.length === 1) return o.allOf[0];
  return o;
};

function schemaFields(desc, tags, type, items) {
  const f = {};
  const d = desc[1].join('\n').trim();
  if (d) f.description = d;
  for (const [, , k, v] of tags) f[k] = v !== null && typeof v === 'object' ? v[type in v ? type : items] : v;
  return f;
}
function merge(o, f) {
  if (!Object.keys(f).length) return o;
  return { ...(o.$ref !== undefined ? { allOf: [o] } : o), ...f };
}
const TO_ARRAY = ['minItems', 'maxItems', 'uniqueItems'];
function place(doc, slot, desc, tags) {
  const t = T[slot];
  switch (t[0]) {
    case 'none': return;
    case 'server': {
      const url = tags.find((x) => x[0] === 'url');
      if (url) doc.servers = [{ url: url[1][0], description: desc[1].join('\n').trim() }];
      return;
    }
    case 'operation': {
      const o = t[1](doc);
      const lines = desc[1].slice();
      if (lines.length) o.summary = lines.shift();
      const rest = lines.join('\n').trim();
      if (rest) o.description = rest;
      for (const x of tags) x[2](o);
      return;
    }
    case 'enum': {
      const [p, k] = t[1](doc);
      const d = tags.find((x) => x[0] === 'description'), dep = tags.find((x) => x[0] === 'deprecated');
      if (d) p[k] = { ...p[k], 'x-enumDescriptions': { ...p[k]['x-enumDescriptions'], [t[2]]: d[1][0] } };
      if (dep) p[k] = { ...p[k], 'x-enumsDeprecated': [...(p[k]['x-enumsDeprecated'] || []), t[2]] };
      return;
    }
    case 'array': {
      const [, [kind, where]] = [t[1], t[2]];
      const [p, k] = where(doc);
      const f = schemaFields(desc, tags, 'array', t[1]), own = {}, items = {};
      for (const x of Object.keys(f)) (TO_ARRAY.includes(x) || (x === 'example' && Array.isArray(f[x])) ? own : items)[x] = f[x];
      p[k] = { ...p[k], ...own, items: merge(p[k].items, items) };
      return;
    }
    default: {
      for (const [kind, where] of t.slice(1)) {
      const [p, k] = where(doc);
      const f = schemaFields(desc, tags, t[0]);
      if (kind === 'param') {
        const { description, 'x-internal': internal, ...rest } = f;
        p[k] = { ...p[k], ...(description !== undefined ? { description } : {}), ...(internal !== undefined ? { 'x-internal': internal } : {}), schema: merge(p[k].schema, rest) };
      } else p[k] = merge(p[k], f);
      }
    }
  }
}
// documents that differ in nothing that is said
function clean(doc) {
  const d = norm(JSON.parse(JSON.stringify(doc)));
  (function trim(x) { for (const k of Object.keys(x)) { if (k === 'description' && typeof x[k] === 'string') x[k] = x[k].replace(/[ \t]+$/gm, ''); else if (x[k] && typeof x[k] === 'object') trim(x[k]); } })(d);
  for (const p of Object.values(d.paths)) for (const o of Object.values(p)) for (const q of o.parameters || []) if (q.description === '') delete q.description;
  return d;
}

const E_TAGS = [['description', ['Text of it']], ['description', ['Größe 🚀']], ['description', ['{x} two  spaces']], ['deprecated', ['']], ['deprecated', ['use B']], ['other', ['x']]];
const S_TAGS = [['url', ['https://x.y/z']], ['url', ['/p']], ['version', ['2']]];
const typeOf = (slot) => T[slot][0];
const slotTags = (slot) => {
  const ty = typeOf(slot);
  if (ty === 'operation') return R_TAGS;
  if (ty === 'enum') return E_TAGS;
  if (ty === 'server') return S_TAGS;
  if (ty === 'none') return TAGS.slice(0, 1);
  return TAGS.filter((x) => x[3] === null || typeof x[3] !== 'object' || ty in x[3] || (ty === 'array' && T[slot][1] in x[3] && !x[1][0].startsWith('"')));
};

function comment(c, style, all) {
  const two = (s) => s.map((l) => ` * ${l}`.trimEnd()).join('\n');
  switch (style) {
    case 'single': if (all.length !== 1) c.prune(); return `/** ${all[0]} */\n`;
    case 'sameline': return all.length === 1 ? `/** ${all[0]} */ ` : `/**\n${two(all)}\n */ `;
    case 'compact': if (all.length < 2) c.prune(); return `/** ${all[0]}\n${two(all.slice(1))} */\n`;
    case 'nostar': if (all.some((l) => /^\s*\*|^\s/.test(l))) c.prune(); return `/**\n${all.join('\n')}\n*/\n`;
    case 'trailing': return `/**  \n${all.map((l) => ` * ${l}  `).join('\n')}\n */  \n`;
    case 'blank': return `/**\n *\n${two(all)}\n *\n */\n`;
    case 'tabs': return `/**\n${all.map((l) => `\t * ${l}`.trimEnd()).join('\n')}\n\t */\n\t`;
    case 'gap': return `/**\n${two(all)}\n */\n\n\n`;
    default: return `/**\n${two(all)}\n */\n`;
  }
}

module.exports = {
  id: 'C19',
  bounds: `a comment of ${DESCRIPTIONS.length} descriptions and up to two of ${TAGS.length + R_TAGS.length} tags in ${STYLES.length} layouts before each of ${Object.keys(T).length} elements of a program, with ${PREV.length + PREV_NESTED.length} kinds of earlier siblings, ${STATEMENTS.length} earlier statements, ${BEFORE.length + AFTER.length} other comments around it and ${FILES.length} file heads: every single choice off the default for every element, every two for some (quick); every two for every element, every three for some (thorough).`,
  assumptions: ['Text after a tag belongs to no description of a schema (as pinned by the tests for routes: it continues the description).', 'A description of an array property describes its items, as do its other tags except minItems, maxItems, uniqueItems and an array example (pinned).', 'A comment on a route written inline in the api spec is not asserted.'],
  scenarios(b, tier) {
    const thorough = tier === 'thorough';
    const g = makeGen(b);
    const bases = new Map();
    const fill = (src, m) => src.replace(/⟦([^⟧]*)⟧/g, (_, n) => (m && n in m ? m[n] : ''));
    async function base(slot, prev) {
      const key = prev ? `${slot} ${prev[0]}` : '';
      if (!bases.has(key)) {
        const m = prev ? { [slot]: prev[2] || prev[1] } : {};
        const r = await g.run({ 'index.ts': fill(PROGRAM, m), 'other.ts': fill(OTHER, m) });
        bases.set(key, r.code === 0 ? JSON.stringify(r.doc) : null);
        if (r.code !== 0 && !prev) throw new Error(r.stderr);
      }
      return bases.get(key);
    }
    async function run(c, slot) {
      const ty = typeOf(slot), statement = IS_STATEMENT(slot);
      const present = c.choose(2, (v) => (v ? 'no comment' : 'comment')) === 0;
      const parts = [];
      let desc = DESCRIPTIONS[1], tags = [], all = [], style = 'lines';
      if (present) {
        desc = c.pick(DESCRIPTIONS, 'text');
        const list = slotTags(slot);
        const t1 = c.choose(list.length + 1, (v) => (v ? `@${list[v - 1][0]} ${list[v - 1][1][0]}` : 'no tag')) - 1;
        if (t1 >= 0) {
          tags.push(list[t1]);
          const rest = list.filter((x) => (x[0] !== list[t1][0] || (ty === 'operation' && x[0] === 'tag')) && !(['private', 'public'].includes(x[0]) && ['private', 'public'].includes(list[t1][0])) && x[2] !== list[t1][2]);
          const t2 = rest.length ? c.choose(rest.length + 1, (v) => (v ? `@${rest[v - 1][0]} ${rest[v - 1][1][0]}` : 'no second tag')) - 1 : -1;
          if (t2 >= 0) tags.push(rest[t2]);
        }
        // text that looks like a tag of its own
        if (ty === 'enum' && desc[0] !== 'none' && tags.length === 0) { /* described only by tags */ }
        const tagLines = tags.flatMap((x) => [`@${x[0]} ${x[1][0]}`.trimEnd(), ...x[1].slice(1)]);
        all = [...desc[1], ...tagLines];
        if (!all.length) c.prune();
        style = c.pick(STYLES, 'layout');
        parts.push(desc[0] === 'one' ? '' : desc[0], ...tags.map((x) => `@${x[0]} ${x[1][0]}`), style === 'lines' ? '' : style);
        if (desc[0] === 'indented' && ['single', 'nostar'].includes(style)) c.prune();
      }
      const prevs = HAS_PREV(slot) ? [...PREV, ...(/^(q|qn|qo|qr|x|id)$/.test(slot) ? [] : PREV_NESTED)].filter((p) => !(IN_OTHER(slot) && p && /spread|shorthand/.test(p[0])) && !(/^(sh|aftersh|computed|quoted|comment)$/.test(slot) && p && /shorthand/.test(p[0])) && !(/spread/.test(slot) && p && /spread/.test(p[0])) && !(/^(spread|propsfirst|propslast)$/.test(slot) && p && /spread|shorthand/.test(p[0])) && !(slot === 'id' && p && /never/.test(p[0]))) : [null];
      const prev = c.pick(prevs, 'sibling before');
      const stmt = statement ? c.pick(STATEMENTS, 'statement before') : null;
      const before = c.pick(BEFORE, 'comment before');
      const after = present ? c.pick(AFTER, 'comment after') : null;
      const file = c.pick(FILES, 'file');
      if (!present && before && /jsdoc|three|empty$|stars/.test(before[0])) c.prune();
      if (style === 'sameline' && after) c.prune();
      for (const [x, n] of [[prev, 'after'], [stmt, 'after'], [before, 'with'], [after, 'then'], [file, 'in']]) if (x) parts.push(`${n} ${x[0]}`);
      if (stmt && /^(imports|other.imports)$/.test(slot)) c.prune();
      // a comment before a statement of its own
      const text = (stmt ? stmt[1] : '') + (prev ? prev[1] : '') + (before ? before[1] : '') + (present ? comment(c, style, all) : '') + (after ? after[1] : '');
      let main = PROGRAM, other = OTHER;
      if (file && file[0] === 'first') {
        if (slot === 'Imp') { const [imp, ...rest] = OTHER.split('⟦Imp⟧'); const end = rest[0].indexOf('});\n') + 4; other = '⟦Imp⟧' + rest[0].slice(0, end) + imp + rest[0].slice(end); }
        else if (slot === 'LocalStr') { const line = '⟦LocalStr⟧export const LocalStr = t.string;\n'; main = line + PROGRAM.replace(line, ''); }
        else if (slot === 'Req') { const i = PROGRAM.indexOf('⟦Req⟧'); main = PROGRAM.slice(i) + PROGRAM.slice(0, i); }
        else if (slot === 'route') { const i = PROGRAM.indexOf('⟦route⟧'), j = PROGRAM.indexOf('⟦spec⟧'); main = PROGRAM.slice(i, j) + PROGRAM.slice(0, i) + PROGRAM.slice(j); }
        else c.prune();
      }
      let files = { 'index.ts': fill(main, { [slot]: text }), 'other.ts': fill(other, { [slot]: text }) };
      const own = IN_OTHER(slot) ? 'other.ts' : 'index.ts';
      if (file) {
        if (file[0] === 'crlf') for (const f of Object.keys(files)) files[f] = files[f].replace(/\n/g, '\r\n');
        else if (file[0] === 'bom') files[own] = '\ufeff' + files[own];
        else if (file[1]) files[own] = file[1] + files[own];
      }
      const b0 = await base(slot, prev);
      if (b0 === null) c.prune();
      const expected = JSON.parse(b0);
      if (prev && prev[3]) for (const [n, f] of Object.entries(prev[3])) sibling(expected, slot, n, f);
      if (present) place(expected, slot, desc, tags);
      const r = await g.run(files);
      const key = (k) => `${k}:${slot}:${parts.filter(Boolean).join('+')}`;
      if (r.code !== 0 || !r.doc) { c.fail(key('fails'), r.stderr.slice(0, 400), { files }); return; }
      const want = clean(expected), got = clean(r.doc);
      c.observe(`${slot} ${show(want).length}`);
      if (!same(got, want)) c.fail(key('differs'), diff(want, got), { text, slot });
    }
    function sibling(doc, slot, n, f) {
      const t = T[slot];
      for (const [kind, where] of t[0] === 'array' ? t.slice(2) : t.slice(1)) {
      const [p] = where(doc);
      if (kind === 'param') { const q = p.find((x) => x.name === n); const { description, ...rest } = f; if (description) q.description = description; q.schema = merge(q.schema, rest); continue; }
      if (f.yy) { p[n].properties.yy = merge(p[n].properties.yy, f.yy); continue; }
      p[n] = merge(p[n], f);
      }
    }
    function diff(want, got, at = '') {
      if (same(want, got)) return '';
      if (want && got && typeof want === 'object' && typeof got === 'object' && Array.isArray(want) === Array.isArray(got)) {
        for (const k of new Set([...Object.keys(want), ...Object.keys(got)])) { const d = diff(want[k], got[k], `${at}/${k}`); if (d) return d; }
      }
      return `${at}: ${show(got)} instead of ${show(want)}`;
    }
    const slots = Object.keys(T);
    const some = thorough ? ['num', 'first', 'last', 'route', 'LocalStr', 'Imp', 'x', 'arr', 'item', 'aftersh', 'Key.B', 'spec'] : ['num', 'route', 'LocalStr', 'Imp'];
    // a comment of its own and one of the codec that is used: neither takes the place of the other
    const OWN = [null, [['Of the use.'], []], [[], [['deprecated', '', true]]], [['Of the use.'], [['title', 'use', 'use']]], [[], [['title', 'use', 'use'], ['pattern', '^u$', '^u$']]], [['Use 1.', '', 'Use 2.'], [['minLength', '3', 3]]], [[], [['example', 'u', 'u']]]];
    const OTHERS = [null, [['Of the codec.'], []], [[], [['title', 'codec', 'codec']]], [['Of the codec.'], [['title', 'codec', 'codec'], ['format', 'codec', 'codec']]], [['Codec 1.', 'Codec 2.'], [['deprecated', '', true]]], [[], [['pattern', '^c$', '^c$'], ['minLength', '1', 1]]]];
    const DEFS = ['t.string', 't.type({ a: t.string })', 't.union([t.string, t.number])', 't.keyof({ a: 1, b: 1 })', "t.literal('a')", 't.intersection([t.type({ a: t.string }), t.partial({ b: t.string })])', 't.record(t.string, t.string)'];
    const USES = [['itself', 'A', 1], ['optional', 'h.optional(A)', 1], ['with undefined', 't.union([A, t.undefined])', 1], ['nullable', 't.union([A, t.null])', 1], ['union', 't.union([A, t.boolean])', 0], ['union of two', 't.union([A, B])', 0], ['exact', 't.exact(A)', 1], ['intersection', 't.intersection([A, t.type({ z: t.string })])', 0], ['optional union', 'h.optional(t.union([A, B]))', 0], ['renamed', 'Renamed', 1], ['spread', '...{ p: A }', 1]];
    async function levels(c) {
      const own = OWN[c.choose(OWN.length, (v) => 'use ' + v)], inner = OTHERS[c.choose(OTHERS.length, (v) => 'codec ' + v)];
      if (!own && !inner) c.prune();
      const def = c.pick(DEFS, 'codec'), use = USES[c.choose(USES.length, (v) => USES[v][0])], where = c.pick(['property', 'query', 'header', 'body', 'nested'], 'where', { free: true });
      const second = c.flag('B documented'), imported = c.flag('imported'), style = c.pick(['lines', 'compact'], 'layout');
      if (use[0] === 'exact' && !/type\(/.test(def)) c.prune();
      if (use[0] === 'spread' && own) c.prune(); // (a comment before a spread is of no property)
      const text = (x) => { if (!x) return ''; const all = [...x[0], ...x[1].map((y) => `@${y[0]} ${y[1]}`.trimEnd())]; return style === 'compact' && all.length > 1 ? `/** ${all[0]}\n${all.slice(1).map((l) => ' * ' + l).join('\n')} */\n` : `/**\n${all.map((l) => (' * ' + l).trimEnd()).join('\n')}\n */\n`; };
      const decl = `${text(inner)}export const A = ${def};\n`;
      const files = {}, H = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
      if (imported) files['a.ts'] = H + decl;
      const prop = `{ o: t.number, ${text(own)}${use[0] === 'spread' ? '' : 'p: '}${use[1]}, q: t.number }`;
      const body = { property: '', query: `query: ${prop}`, header: `headers: ${prop.replace(/o: t.number, |, q: t.number/g, '')}`, body: `body: ${prop}`, nested: '' }[where];
      files['index.ts'] = `${H}${imported ? "import { A } from './a';\n" : decl}${second ? '/** Of B. @title b */\n' : ''}const B = t.type({ bb: t.number });\nconst Renamed = A;\nexport const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({ ${body} }), response: { 200: ${where === 'property' ? `h.optionalized(${prop})` : where === 'nested' ? `t.array(h.optionalized({ n: h.optionalized(${prop}) }))` : 't.string'} } }) } });\n`;
      const r = await g.run(files);
      const key = (k) => `levels-${k}:${show(own)}/${show(inner)}/${def}/${use[0]}/${where}/${second}/${imported}`;
      c.observe(r.stdout);
      c.check(r.code === 0 && r.doc, () => key('fails'), () => r.stderr.slice(0, 400), files);
      const op = r.doc.paths['/p'].post;
      const content = (x) => x.content['application/json'].schema;
      let at, p;
      if (where === 'query' || where === 'header') { p = op.parameters.find((x) => x.name === 'p'); at = p && { ...p.schema, ...(p.description !== undefined ? { description: p.description } : {}) }; }
      else { let s = where === 'body' ? content(op.requestBody) : content(op.responses[200]); if (where === 'nested') s = s.items.properties.n; at = s.properties && s.properties.p; }
      c.check(at, () => key('missing'), 'p is not in the document', files);
      const say = (k, what) => c.fail(key(k), what, { files: files['index.ts'], at });
      const words = (x) => (x ? x[0].join('\n').trim() : '');
      if (words(own)) { if (at.description !== words(own)) say('description', `p is described by ${show(at.description)}`); }
      else if (own) { if (at.description !== undefined && at.description !== '') say('description', `p is described by ${show(at.description)}, which is not written at p`); }
      else if (at.description !== undefined && at.description !== words(inner)) say('description', `p is described by ${show(at.description)}`);
      const tagsOf = (x) => new Map(x ? x[1].map((y) => [y[0], y[2]]) : []);
      const mine = tagsOf(own), theirs = tagsOf(inner);
      for (const k of ['title', 'deprecated', 'pattern', 'minLength', 'format', 'example']) {
        if (mine.has(k)) { if (!same(at[k], mine.get(k))) say('tag', `@${k} of p is ${show(at[k])}`); }
        else if (at[k] !== undefined && !(theirs.has(k) && same(at[k], theirs.get(k)))) say('tag', `p has a ${k} of ${show(at[k])}`);
      }
      const A = r.doc.components.schemas.A;
      if (A) {
        if ((A.description || '') !== words(inner)) say('codec', `A is described by ${show(A.description)}`);
        for (const [k, v] of theirs) if (!same(A[k], v)) say('codec', `@${k} of A is ${show(A[k])}`);
        for (const k of ['deprecated', 'pattern', 'minLength', 'format', 'example']) if (A[k] !== undefined && !theirs.has(k)) say('codec', `A has a ${k} of ${show(A[k])}`);
      } else if (inner && use[2] && !own && words(inner)) { if (at.description !== words(inner)) say('lost', `the description of the codec is nowhere: ${show(at)}`); }
    }
    // what a statement declares, and which of its comments is whose
    const GAPS = ['', '/** WORDS. */ ', '/** WORDS. */\n', '\n/** WORDS. */\n', '/* no doc */ ', '// no doc\n', '/** lost. */ /** WORDS. */ ', '/** WORDS. */ /* no doc */ ', '/** WORDS. */ // no doc\n', '/** @title WORDS */ '];
    const INITS = [['t.string', 1], ["t.type({ /** inner. */ a: t.string })", 1], ["t.literal('/** text. */')", 1], ['/** value. */ t.string', 0], ['t.string /** behind. */', 0], ['t.literal("a, b")', 1], ['t.keyof({ /** inner. */ a: 1 })', 1], ['t.type({ a: t.string, /** trailing. */ })', 1], ["(/** in parentheses. */ t.string)", 0]];
    async function statements(c) {
      const n = 1 + c.choose(3, (v) => `${3 - v} declarations`), count = 4 - n; // 3, 2, 1
      const word = c.pick(['const', 'export const', 'let', 'export let', 'var'], 'statement');
      const where = c.pick(['one file', 'another file'], 'where'), joined = c.pick([', ', ',\n  ', ' , '], 'separator'), typed = c.flag('typed'), order = c.pick(['first', 'last'], 'place of the statement');
      const outer = c.pick(GAPS, 'comment of the statement'), names = ['A', 'B', 'C'].slice(0, count), own = [], inits = [], sure = [];
      let src = outer.replace('WORDS', 'statement') + word + ' ';
      names.forEach((x, i) => {
        const gap = c.pick(GAPS, `comment of ${x}`), init = c.pick(INITS, `codec of ${x}`);
        if (i === 0 && /\n$/.test(gap) && /\/\//.test(gap) && word === 'let') c.prune();
        src += `${i ? joined : ''}${gap.replace('WORDS', 'of ' + x)}${x}${typed ? ': t.Mixed' : ''} = ${init[0]}`;
        own.push(/WORDS/.test(gap) ? [/@title/.test(gap) ? 'title' : 'description', /@title/.test(gap) ? `of ${x}` : `of ${x}.`] : i === 0 && /WORDS/.test(outer) ? [/@title/.test(outer) ? 'title' : 'description', /@title/.test(outer) ? 'statement' : 'statement.'] : null);
        inits.push(init);
      });
      src += ';\n';
      const H = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
      const uses = `export const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({}), response: { 200: t.type({ ${names.map((x) => `p${x}: ${x}`).join(', ')} }) } }) } });\n`;
      const files = {};
      if (where === 'another file') { files['m.ts'] = H + src + (/export/.test(word) ? '' : `export { ${names.join(', ')} };\n`); files['index.ts'] = `${H}import { ${names.join(', ')} } from './m';\n${uses}`; }
      else files['index.ts'] = order === 'last' ? H + uses + src : H + src + uses;
      const r = await g.run(files);
      const key = (k) => `statement-${k}:${src}/${where}/${order}`;
      c.observe(r.stdout);
      c.check(r.code === 0 && r.doc, () => key('fails'), () => r.stderr.slice(0, 400), files);
      names.forEach((x, i) => {
        const s = r.doc.components.schemas[x];
        if (!s) { c.fail(key('missing'), `${x} is not described`, files); return; }
        const want = own[i];
        const d = s.description || undefined, title = s.title === x ? undefined : s.title;
        if (want) { if ((want[0] === 'title' ? title : d) !== want[1]) c.fail(key('lost'), `${x} has the ${want[0]} ${show(want[0] === 'title' ? s.title : d)} instead of ${show(want[1])}`, { files, s }); }
        // (a comment within the codec is of that codec, whoever it is meant for)
        if (d !== undefined && (!want || want[0] !== 'description') && inits.every((y) => y[1])) c.fail(key('stray'), `${x} is described by ${show(d)}, which is not its comment`, { files, s });
        if (title !== undefined && (!want || want[0] !== 'title')) c.fail(key('stray'), `${x} has the title ${show(title)}, which is not its own`, { files, s });
      });
    }
    return [
      { name: 'statements', split: 16, run: statements, deviations: thorough ? 4 : 3, what: 'statements that declare several codecs' },
      { name: 'levels', shards: [OWN.length, OTHERS.length], run: levels, deviations: thorough ? 5 : 4, what: 'comments of a codec and of its use' },
      { name: 'elements', cases: slots.length, chunk: 1, run: (c, i) => run(c, slots[i]), deviations: thorough ? 2 : 1, what: 'every element with every comment' },
      { name: 'pairs', cases: some.length, split: 24, run: (c, i) => run(c, some[i]), deviations: thorough ? 3 : 2, what: 'every combination of two choices' },
    ];
  },
};
