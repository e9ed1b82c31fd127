'use strict';
const { show, same } = require('../lib/explore');
const makeCodecs = require('../lib/codecs');
const ABSENT = Symbol('absent');
const VALUES = ['12', ABSENT, undefined, 'x', null, '', 12, false, ['1'], { p: '3' }, { p: '3', q: undefined }, '2020-01-01T00:00:00.000Z'];
const NAMES = ['a', 'b', 'c'];
function deepFreeze(x) {
  if (x && typeof x === 'object' && !Object.isFrozen(x) && !(x instanceof Date)) { Object.freeze(x); Object.values(x).forEach(deepFreeze); }
  return x;
}
const clone = (x) => (x instanceof Date ? new Date(x) : Array.isArray(x) ? x.map(clone) : x && typeof x === 'object' ? Object.fromEntries(Object.keys(x).map((k) => [k, clone(x[k])])) : x);
const hasExplicitUndefined = (x, declared) => declared.some((k) => Object.prototype.hasOwnProperty.call(x, k) && x[k] === undefined);

module.exports = {
  id: 'C02',
  bounds: 'property maps of 0-3 properties over 22 codecs, 12 values per property (absent, explicit undefined, null, wrong types included), undeclared property, non-object inputs; the codec used directly, in an array, in a union, nested in itself, and under exactness',
  assumptions: ['io-ts leaf codecs are trusted'],
  scenarios(b, tier) {
    const { t, h, E, L: base } = makeCodecs(b);
    const maybe = new t.Type('maybe', (u) => u === undefined || typeof u === 'string', (u, ctx) => (u === undefined || typeof u === 'string' ? t.success(u) : t.failure(u, ctx)), (x) => x);
    const L = [...base,
      { name: 'union[string,optional(number)]', codec: t.union([t.string, h.optional(t.number)]) },
      { name: 'void', codec: t.void },
      { name: 'custom-optional', codec: maybe },
      { name: 'readonly(optional(string))', codec: t.readonly(h.optional(t.string)) },
      { name: 'intersection[optional,optional]', codec: t.intersection([h.optional(t.string), h.optional(t.string)]) },
    ];
    const pairs = [[]];
    for (const x of L) pairs.push([x]);
    for (const x of L) for (const y of L) pairs.push([x, y]);
    const few = L.filter((x) => ['string', 'optional(string)', 'optional(NumberFromString)', 'number', 'undefined', 'optionalized{p:NumberFromString,q?:string}', 'withFallback(NumberFromString,7)', 'unknown', 'union[string,optional(number)]'].includes(x.name));
    const triples = [];
    for (const x of few) for (const y of few) for (const z of few) triples.push([x, y, z]);
    // codecs that round-trip through `is` with undefined as a member count as optional
    const optional = (x) => x.codec.is(undefined);

    function run(table, values) {
      return (c, k) => {
        const config = table[k];
        const props = {};
        config.forEach((x, i) => { props[NAMES[i]] = x.codec; });
        const declared = Object.keys(props);
        const propsBefore = declared.slice();
        const named = c.flag('named');
        const base = h.optionalized(props, named ? 'N' : undefined);
        const wrap = c.choose(5, 'used-as');
        // [codec, wrap value, unwrap value]
        const W = [
          [base, (v) => v, (v) => v],
          [t.array(base), (v) => [v], (v) => v[0]],
          [t.union([t.number, base]), (v) => v, (v) => v],
          [h.optionalized({ in: base, other: h.optional(t.string) }), (v) => ({ in: v }), (v) => v.in],
          [t.exact(base), (v) => v, (v) => v],
        ][wrap];
        const [codec, enw, unw] = W;
        c.note(config.map((x, i) => `${NAMES[i]}:${x.name}`).join(' '));
        const obj = {};
        config.forEach((x, i) => { const v = c.pick(values, NAMES[i], { free: true }); if (v !== ABSENT) obj[NAMES[i]] = v; });
        const extra = c.choose(2, 'extra');
        if (extra) obj.zz = 'extra';
        let input = obj;
        const bad = c.choose(6, 'ill-typed');
        if (bad) { if (wrap === 2) c.prune(); input = [null, undefined, 'str', 5, []][bad - 1]; }

        let ok = !bad;
        const out = {};
        config.forEach((x, i) => {
          const n = NAMES[i];
          if (bad) return;
          const present = Object.prototype.hasOwnProperty.call(obj, n);
          if (!present && optional(x)) return;
          const r = x.codec.decode(obj[n]);
          if (E.isLeft(r)) ok = false;
          else if (r.right !== undefined) out[n] = r.right;
          else if (!optional(x)) ok = false;
        });
        const before = clone(input);
        deepFreeze(input);
        const key = (p) => () => `${p}:${wrap}:${config.map((x) => x.name).join(',')}:${show(before)}`;
        let got;
        try { got = codec.decode(enw(input)); } catch (e) { c.fail('decode-throws', `decoding threw ${e.message}`, before); }
        c.check(same(before, input), 'input-mutated', 'decoding changed its input', { before, after: input });
        c.observe(E.isRight(got) ? show(got.right) : 'rejected');
        if (!ok) { c.check(E.isLeft(got), key('accept'), 'an object with a missing or undecodable required property was accepted', { before, got }); return; }
        c.check(E.isRight(got), key('reject'), 'an object all of whose properties decode was rejected', { before, expected: out });
        const v = unw(got.right);
        c.check(!hasExplicitUndefined(v, declared), key('explicit-undefined'), 'the decoded value has an explicitly undefined property', v);
        const expected = { ...out, ...(extra && wrap !== 4 ? { zz: 'extra' } : {}) };
        c.check(same(v, expected), key('value'), 'wrong decoded value', { before, got: v, expected });
        c.check(codec.is(got.right), key('is'), 'decoded value is not a member', v);

        // encode, also with explicit undefined for every absent optional property
        const withUndef = c.flag('encode-explicit-undefined');
        const d = {};
        config.forEach((x, i) => { const n = NAMES[i]; if (n in out) d[n] = clone(out[n]); else if (withUndef && optional(x)) d[n] = undefined; });
        c.check(codec.is(enw(d)), key('is-undefined'), 'a value with explicitly undefined optional properties is not a member', d);
        deepFreeze(d);
        let enc;
        try { enc = unw(codec.encode(enw(d))); } catch (e) { c.fail('encode-throws', `encoding threw ${e.message}`, d); }
        c.check(!hasExplicitUndefined(enc, declared), key('enc-explicit-undefined'), 'the encoded value has an explicitly undefined property', enc);
        const expectedEnc = {};
        config.forEach((x, i) => { const n = NAMES[i]; if (n in out) expectedEnc[n] = x.codec.encode(out[n]); });
        c.check(same(enc, expectedEnc), key('enc'), 'wrong encoded value', { decoded: d, got: enc, expected: expectedEnc });
        // membership: dropping any required property leaves the type
        config.forEach((x, i) => {
          const n = NAMES[i];
          if (optional(x) || !(n in out)) return;
          const less = { ...out }; delete less[n];
          if (x.codec.is(undefined)) return;
          c.check(!codec.is(enw(less)), key('is-missing'), 'a value without a required property is a member', less);
        });
        c.check(same(Object.keys(props), propsBefore), 'props-mutated', 'the property map was changed', props);
      };
    }
    const S = [
      { name: 'two', cases: pairs.length, chunk: 10, deviations: tier === 'thorough' ? undefined : 2, run: run(pairs, VALUES), what: 'maps of 0-2 properties' },
      { name: 'three', cases: triples.length, chunk: 10, deviations: tier === 'thorough' ? 2 : 1, run: run(triples, VALUES.slice(0, 8)), what: 'maps of 3 properties' },
    ];
    return S;
  },
};
