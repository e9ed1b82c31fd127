'use strict';
const { show, same } = require('../lib/explore');

// reference meaning of the generator's intermediate schemas; v may be undefined
function means(s, v, d = 0) {
  if (d > 40) throw new Error('too deep');
  switch (s.type) {
    case 'any': return true;
    case 'undefined': return v === undefined;
    case 'null': return v === null;
    case 'ref': return s.name === 'R' ? typeof v === 'string' && v === 'r' : typeof v === 'number';
    case 'string': case 'number': case 'integer': case 'boolean': {
      const jt = s.type === 'integer' ? 'number' : s.type;
      if (typeof v !== jt) return false;
      if (s.type === 'integer' && !Number.isInteger(v)) return false;
      if (s.enum !== undefined && !s.enum.includes(v)) return false;
      if (s.format !== undefined && v !== (s.format === 'F' ? 'a' : 'b')) return false;
      if (s.pattern !== undefined && !new RegExp(s.pattern).test(v)) return false;
      if (s.maxLength !== undefined && v.length > s.maxLength) return false;
      if (s.maximum !== undefined && (s.exclusiveMaximum ? v >= s.maximum : v > s.maximum)) return false;
      if (s.multipleOf !== undefined && v % s.multipleOf !== 0) return false;
      if (s.minLength !== undefined && v.length < s.minLength) return false;
      if (s.minimum !== undefined && (s.exclusiveMinimum ? v <= s.minimum : v < s.minimum)) return false;
      return true;
    }
    case 'array': return Array.isArray(v) && (s.minItems === undefined || v.length >= s.minItems) && (s.maxItems === undefined || v.length <= s.maxItems) && (!s.uniqueItems || new Set(v.map(show)).size === v.length) && v.every((x) => means(s.items, x, d + 1));
    case 'tuple': return Array.isArray(v) && v.length === s.schemas.length && v.every((x, i) => means(s.schemas[i], x, d + 1));
    case 'object':
      if (typeof v !== 'object' || v === null || Array.isArray(v)) return false;
      if (s.minProperties !== undefined && Object.keys(v).length < s.minProperties) return false;
      if (s.maxProperties !== undefined && Object.keys(v).length > s.maxProperties) return false;
      for (const k of Object.keys(s.properties)) {
        const p = s.properties[k];
        const has = Object.prototype.hasOwnProperty.call(v, k);
        if (has) { if (p.type !== 'undefined' && !means(p, v[k], d + 1)) return false; }
        else if (s.required.includes(k) && !acceptsMissing(p)) return false;
      }
      for (const k of s.required) if (!Object.prototype.hasOwnProperty.call(s.properties, k) && !Object.prototype.hasOwnProperty.call(v, k)) return false;
      return true;
    case 'record':
      if (typeof v !== 'object' || v === null || Array.isArray(v)) return false;
      return Object.keys(v).every((k) => (s.domain === undefined || means(s.domain, k, d + 1)) && means(s.codomain, v[k], d + 1));
    case 'union': return s.schemas.some((x) => means(x, v, d + 1));
    case 'intersection': return s.schemas.every((x) => means(x, v, d + 1));
  }
  throw new Error('unknown schema ' + show(s));
}
// a required property may be missing when its schema is a union with undefined
function acceptsMissing(p) { return p.type === 'undefined' || (p.type === 'union' && p.schemas.some(acceptsMissing)); }

const A = ['a', 'b', 'r', '', 0, 1, 2, -1, 1.5, true, false, null];
const VALUES = [undefined, ...A, [], {}, ...A.map((x) => [x]), ...A.map((x) => ({ a: x })), ...A.map((x) => ({ b: x })), ['a', 'a'], ['a', 1], [1, 'a'], [[]], [['a']], [{}], [{ a: 'a' }],
  { a: 'a', b: 'a' }, { a: 'a', b: 1 }, { a: 1, b: 'a' }, { a: 1, b: 1 }, { a: 'b', b: null }, { a: null, b: 'a' }, { a: true, b: 'a' }, { a: {} }, { a: { a: 'a' } }, { a: { a: 1 } }, { a: { b: 'a' } }, { a: { a: 'a', b: 1 } }, { a: [] }, { a: ['a'] }, { a: [1] }, { x: 'a' }, { x: 1 }, { x: null }, { x: { a: 'a' } }, { a: { a: { a: 'a' } } }, { a: 'a', b: 'a', x: 1 }];

const block = (n) => ({ description: `text ${n}`, tags: [{ tag: 'format', name: `fmt${n}`, description: '', type: '', optional: false, problems: [], source: [] }], problems: [], source: [] });
const LEAVES = [
  () => ({ type: 'string', primitive: true }), () => ({ type: 'string', enum: ['a'] }), () => ({ type: 'number', primitive: true }), () => ({ type: 'undefined' }), () => ({ type: 'null' }), () => ({ type: 'boolean', primitive: true }),
  () => ({ type: 'string', enum: ['b'] }), () => ({ type: 'number', enum: [1] }), () => ({ type: 'boolean', enum: [true] }), () => ({ type: 'any' }), () => ({ type: 'ref', name: 'R', location: '/r.ts' }), () => ({ type: 'ref', name: 'Q', location: '/r.ts' }), () => ({ type: 'string', minLength: 1 }), () => ({ type: 'integer' }), () => ({ type: 'string', enum: ['a', 'b'] }), () => ({ type: 'number', minimum: 0, exclusiveMinimum: true }), () => ({ type: 'boolean', enum: [false] }),
  () => ({ type: 'string', enum: [''] }), () => ({ type: 'string', format: 'F' }), () => ({ type: 'string', pattern: '^b$' }), () => ({ type: 'number', minimum: 1 }), () => ({ type: 'string', maxLength: 0 }), () => ({ type: 'number', maximum: 1, multipleOf: 1 }), () => ({ type: 'string', enum: ['a'], enumDescriptions: { a: 'first' } }), () => ({ type: 'string', enum: ['b'], enumsDeprecated: ['b'] }),
];
const OPS = [
  ['array', 1, (x) => ({ type: 'array', items: x })],
  ['array1', 1, (x) => ({ type: 'array', items: x, minItems: 1 })],
  ['array-unique', 1, (x) => ({ type: 'array', items: x, uniqueItems: true })],
  ['array-max', 1, (x) => ({ type: 'array', items: x, maxItems: 1 })],
  ['object-max', 1, (x) => ({ type: 'object', properties: { a: x }, required: [], maxProperties: 1 })],
  ['object-req', 1, (x) => ({ type: 'object', properties: { a: x }, required: ['a'] })],
  ['object-opt', 1, (x) => ({ type: 'object', properties: { a: x }, required: [] })],
  ['object-min', 1, (x) => ({ type: 'object', properties: { a: x }, required: [], minProperties: 1 })],
  ['record', 1, (x) => ({ type: 'record', codomain: x })],
  ['record-dom', 1, (x) => ({ type: 'record', domain: { type: 'string', enum: ['a', 'x'] }, codomain: x })],
  ['union1', 1, (x) => ({ type: 'union', schemas: [x] })],
  ['union', 2, (x, y) => ({ type: 'union', schemas: [x, y] })],
  ['union3', 3, (x, y, z) => ({ type: 'union', schemas: [x, y, z] })],
  ['object-b', 2, (x, y) => ({ type: 'object', properties: { a: x, b: y }, required: ['b'] })],
  ['intersection', 2, (x, y) => ({ type: 'intersection', schemas: [x, y] })],
  ['intersection3', 3, (x, y, z) => ({ type: 'intersection', schemas: [x, y, z] })],
  ['inter-objects', 2, (x, y) => ({ type: 'intersection', schemas: [{ type: 'object', properties: { a: x }, required: ['a'] }, { type: 'object', properties: { b: y }, required: [] }] })],
  ['inter-same', 2, (x, y) => ({ type: 'intersection', schemas: [{ type: 'object', properties: { a: x }, required: ['a'] }, { type: 'object', properties: { a: y }, required: ['a'] }] })],
  ['inter-ref', 1, (x) => ({ type: 'intersection', schemas: [{ type: 'object', properties: { a: x }, required: ['a'] }, { type: 'ref', name: 'R', location: '/r.ts' }] })],
  ['tuple', 2, (x, y) => ({ type: 'tuple', schemas: [x, y] })],
];

const FORMS = [
  () => ({ type: 'string', decodedType: 'number', pattern: '^b$' }), () => ({ type: 'string', decodedType: 'number', enum: ['a'] }), () => ({ type: 'string', format: 'F', decodedType: 'number' }), () => ({ type: 'string', decodedType: 'boolean', enum: ['r', ''] }), () => ({ type: 'string', decodedType: 'string', minLength: 1 }), () => ({ type: 'string', maxLength: 0, decodedType: 'string' }),
  () => ({ type: 'number', primitive: true }), () => ({ type: 'string', primitive: true }), () => ({ type: 'boolean', primitive: true }), () => ({ type: 'number', enum: [1] }), () => ({ type: 'undefined' }), () => ({ type: 'null' }), () => ({ type: 'integer', decodedType: 'number', minimum: 1 }),
];

module.exports = {
  id: 'C15',
  bounds: 'Every intermediate schema of depth 1 over 25 leaves and 20 combinators (unions and intersections of up to 3 members) without and with a comment; depth 2 with up to 4, depth 3 with up to 4 (thorough) choices off the default; and unions of two or three (thorough: four) of 13 primitives and codecs from string forms in six places; each compared on 77 values.',
  assumptions: ['The consolidation of a primitive and codecs from its string form into the decoded primitive is documented and not compared here; empty objects are not intersected with other kinds.'],
  scenarios(b, tier) {
    const { optimize } = b.pkg('openapi-generator');
    let n;
    function expr(c, depth, where) {
      const total = depth > 0 ? LEAVES.length + OPS.length : LEAVES.length;
      const i = c.choose(total, (v) => `${where}:${v < LEAVES.length ? show(LEAVES[v]()) : OPS[v - LEAVES.length][0]}`);
      let s;
      if (i < LEAVES.length) s = LEAVES[i]();
      else {
        const op = OPS[i - LEAVES.length];
        const subs = [];
        for (let k = 0; k < op[1]; k++) subs.push(expr(c, depth - 1, `${where}${k}`));
        // a property that can only be absent is described by leaving it out
        if (/^(object|inter-)/.test(op[0]) && subs.some((x) => onlyUndefined(x))) c.prune();
        // the union of one boolean with itself
        if (/^union/.test(op[0]) && subs.every(isBool) && !subs.some((x) => x.primitive) && new Set(subs.map((x) => x.enum && x.enum[0])).size < 2) c.prune();
        s = op[2](...subs);
      }
      if (c.flag(`${where}-comment`)) s.comment = block(n++);
      return s;
    }
    const isBool = (s) => s.type === 'boolean' || (s.type === 'union' && s.schemas.every(isBool));
    function onlyUndefined(s) { return s.type === 'undefined' || (s.type === 'union' && s.schemas.every(onlyUndefined)); }
    const comments = (s, out = []) => { if (s && typeof s === 'object') { if (s.comment) out.push(s.comment.description); for (const k of Object.keys(s)) if (k !== 'comment') comments(s[k], out); } return out; };
    const run = (depth) => function (c) {
      n = 0;
      judge(c, expr(c, depth, 'S'));
    };
    function judge(c, s) {
      const before = JSON.stringify(s);
      const key = (k) => `${k}:${before.replace(/"comment":\{.*?"source":\[\]\}\],"problems":\[\],"source":\[\]\}/g, '"comment"').replace(/"/g, '')}`;
      const out = optimize(s);
      c.observe(JSON.stringify(out));
      c.check(JSON.stringify(s) === before, () => key('mutates'), 'optimizing a schema changed the schema itself', () => ({ before: JSON.parse(before), after: s }));
      for (const v of VALUES) {
        if (v === undefined) continue;
        const want = means(s, v), got = means(out, v);
        if (want !== got) c.fail(key(want ? 'stricter' : 'weaker'), `the schema ${want ? 'accepts' : 'rejects'} ${show(v)} but its optimized form does not agree`, { schema: s, optimized: out });
      }
      const again = optimize(out);
      for (const v of VALUES) if (v !== undefined && means(again, v) !== means(out, v)) c.fail(key('again'), `optimizing what is already optimized changed its meaning for ${show(v)}`, { schema: s, once: out, twice: again });
      const third = optimize(JSON.parse(before));
      c.check(same(JSON.parse(JSON.stringify(third)), JSON.parse(JSON.stringify(out))), () => key('unstable'), 'optimizing an equal schema gives something else', () => ({ out, third }));
      if (s.comment) c.check(out.comment && out.comment.description === s.comment.description, () => key('comment'), 'the comment of the schema itself was lost', () => ({ s, out }));
      // the members of a union keep theirs, unless the whole is consolidated into a primitive
      if (s.type === 'union' && s.schemas.length > 1 && (out.type === 'union' || !['string', 'number', 'integer', 'boolean', 'null'].includes(out.type))) {
        const kept = comments(out);
        for (const m of s.schemas) if (m.comment && m.type !== 'undefined') c.check(kept.includes(m.comment.description), () => key('member-comment'), 'the comment of a member of the union was lost', () => ({ s, out }));
      }
      // what is required is listed once and declared
      (function walk(x) {
        if (!x || typeof x !== 'object') return;
        if (x.type === 'object' && Array.isArray(x.required)) c.check(new Set(x.required).size === x.required.length, () => key('required-twice'), 'a required key is listed twice', () => x);
        for (const k of Object.keys(x)) if (k !== 'comment') walk(x[k]);
      })(out);
    }
    // unions of codecs from string forms: only together with a primitive of the same type are they consolidated
    const kindOf = (s) => (s.primitive && ['string', 'number', 'boolean'].includes(s.type) ? s.type : s.decodedType);
    function forms(c) {
      n = 0;
      const len = 2 + c.choose(tier === 'thorough' ? 3 : 2, (v) => `length ${v + 2}`, { free: true });
      const members = [];
      for (let i = 0; i < len; i++) { const s = FORMS[c.choose(FORMS.length, (v) => `member ${v}`, { free: true })](); if (c.flag(`comment ${i}`)) s.comment = block(n++); members.push(s); }
      const defined = members.filter((s) => s.type !== 'undefined');
      if (!defined.length) c.prune();
      const kinds = new Set(defined.map(kindOf));
      if (kinds.size === 1 && !kinds.has(undefined) && members.some((s) => s.primitive)) c.prune();
      if (defined.every((s) => s.type === 'boolean' || s.decodedType === 'boolean')) c.prune();
      const u = { type: 'union', schemas: members };
      const around = c.pick(['none', 'array', 'property', 'union', 'tuple', 'record'], 'around', { free: true });
      judge(c, around === 'array' ? { type: 'array', items: u } : around === 'property' ? { type: 'object', properties: { a: u }, required: ['a'] } : around === 'union' ? { type: 'union', schemas: [{ type: 'array', items: { type: 'string' } }, u] } : around === 'tuple' ? { type: 'tuple', schemas: [u, { type: 'number' }] } : around === 'record' ? { type: 'record', codomain: u } : u);
    }
    return [
      { name: 'forms', shards: [tier === 'thorough' ? 3 : 2, FORMS.length], run: forms, deviations: 2, what: 'unions of codecs from string forms' },
      { name: 'depth1', shards: [LEAVES.length + OPS.length], run: run(1), deviations: tier === 'thorough' ? undefined : 5, what: 'every schema of depth 1' },
      { name: 'depth2', shards: [LEAVES.length + OPS.length], run: run(2), deviations: 4, what: 'nested schemas' },
      ...(tier === 'thorough' ? [{ name: 'depth3', shards: [LEAVES.length + OPS.length], run: run(3), deviations: 4, what: 'schemas of depth 3' }] : []),
    ];
  },
};
