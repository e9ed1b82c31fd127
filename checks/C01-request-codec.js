'use strict';
const { show, same } = require('../lib/explore');
const makeCodecs = require('../lib/codecs');

const ABSENT = Symbol('absent');
const VALUES = ['12', ABSENT, 'x', undefined, null, '', 'true', 12, 0, false, ['1', 'x'], [], { p: '3' }, { p: '3', q: undefined, z: 1 }, '2020-01-01T00:00:00.000Z'];
const COMPONENTS = ['query', 'params', 'headers', 'body'];
const NAME_SETS = [['a', 'b', 'c'], ['isPrototypeOf', 'toString', 'constructor'], ['valueOf', '', '0'], ['query', 'body', 'params']];
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const BAD_COMPONENT = [ABSENT, undefined, null, 'str', 5, []];

function deepFreeze(x) {
  if (x && typeof x === 'object' && !Object.isFrozen(x) && !(x instanceof Date)) { Object.freeze(x); Object.values(x).forEach(deepFreeze); }
  return x;
}
const clone = (x) => (x instanceof Date ? new Date(x) : Array.isArray(x) ? x.map(clone) : x && typeof x === 'object' ? Object.fromEntries(Object.keys(x).map((k) => [k, clone(x[k])])) : x);

module.exports = {
  id: 'C01',
  bounds: 'requests with 1-2 (thorough 3) declared properties (with ordinary names, names of Object.prototype members, numbers, names of components) over params/query/headers/body, 17 property codecs, 15 wire values per property, each component also absent or ill-typed, or an object without a prototype, undeclared properties (including ones named like a property declared in another component) in every component; three codecs of equal or different names made and used in every order listed',
  assumptions: ['no property is named __proto__ or hasOwnProperty (io-ts itself cannot handle them), and other members of Object.prototype only name required properties', 'io-ts and io-ts-types leaf codecs are trusted: the oracle applies each property codec on its own', 'when a name is declared in two components the flat record holds one of the two values (which one is not asserted)'],
  scenarios(b, tier) {
    const { h, E, L } = makeCodecs(b);
    const slots = [];
    for (const comp of COMPONENTS) for (const c of L) {
      if (comp !== 'body' && !c.wire) continue;
      if (comp === 'params' && c.noParam) continue;
      slots.push({ comp, ...c });
    }
    // configurations: one property; two properties; a declared-but-empty component
    const configs = [];
    for (const s of slots) configs.push([s]);
    for (let i = 0; i < slots.length; i++) for (let j = i; j < slots.length; j++) configs.push([slots[i], slots[j]]);
    configs.push([]);
    const triples = [];
    if (tier === 'thorough') {
      const few = slots.filter((s) => ['string', 'optional(NumberFromString)', 'withFallback(NumberFromString,7)', 'optionalized{p:NumberFromString,q?:string}', 'number'].includes(s.name));
      for (let i = 0; i < few.length; i++) for (let j = i; j < few.length; j++) for (let k = j; k < few.length; k++) triples.push([few[i], few[j], few[k]]);
    }

    function makeRun(table, values, flattenedOnly) {
      return (c, k) => {
        const config = table[k];
        const NAMES = c.pick(NAME_SETS, 'names');
        // io-ts reads inherited members, so a member of Object.prototype can only name a required property
        if (config.some((s, i) => NAMES[i] in {} && s.codec.is(undefined))) c.prune();
        const bare = c.flag('no-prototype');
        const shell = () => (bare ? Object.create(null) : {});
        // the layout also decides which components are declared though empty
        const declared = {};
        config.forEach((s, i) => { (declared[s.comp] = declared[s.comp] || {})[NAMES[i]] = s.codec; });
        const emptyDeclared = c.choose(3, 'declared-empty');
        if (emptyDeclared === 1 && !declared.headers) declared.headers = {};
        else if (emptyDeclared === 2 && !declared.body) declared.body = {};
        else if (emptyDeclared !== 0) c.prune();
        if (flattenedOnly && Object.keys(declared).length === 0) c.prune();
        const codec = flattenedOnly ? h.flattened('grp', declared) : h.httpRequest(declared);
        c.note('codec ' + config.map((s, i) => `${s.comp}.${NAMES[i]}:${s.name}`).join(' '));

        const input = shell();
        const comps = COMPONENTS.filter((x) => x in declared || (!flattenedOnly && (x === 'query' || x === 'params')));
        for (const comp of COMPONENTS) {
          const isDeclared = comps.includes(comp);
          const bad = c.choose(BAD_COMPONENT.length + 1, `${comp}-shape`);
          if (bad > 0) {
            if (BAD_COMPONENT[bad - 1] !== ABSENT) input[comp] = BAD_COMPONENT[bad - 1];
            continue;
          }
          const obj = shell();
          config.forEach((s, i) => {
            if (s.comp !== comp) return;
            const v = c.pick(values, `${comp}.${NAMES[i]}`, { free: true });
            if (v !== ABSENT) obj[NAMES[i]] = v;
          });
          const extra = c.choose(4, `${comp}-extra`);
          if (extra === 1) obj.zz = 'extra';
          if (extra === 2) { if (own(obj, NAMES[0]) || !config[0] || config[0].comp === comp) c.prune(); obj[NAMES[0]] = 'shadow'; }
          if (extra === 3) { if (!config[1] || config[1].comp === comp) c.prune(); obj[NAMES[1]] = undefined; }
          if (isDeclared || bad === 0) input[comp] = obj;
        }
        if (c.choose(2, 'extra-component')) input.cookies = { a: 'cookie', zz: 1 };

        // ---- reference: component by component, property by property
        let ok = true;
        const flat = {};
        for (const comp of comps) {
          const obj = input[comp];
          if (typeof obj !== 'object' || obj === null || Array.isArray(obj)) { ok = false; continue; }
          config.forEach((s, i) => {
            if (s.comp !== comp) return;
            const r = s.codec.decode(own(obj, NAMES[i]) ? obj[NAMES[i]] : undefined);
            if (E.isLeft(r)) ok = false;
            else if (r.right !== undefined) flat[NAMES[i]] = r.right;
          });
        }
        const before = clone(input);
        deepFreeze(input);
        let got;
        try { got = codec.decode(input); } catch (e) { c.fail('decode-throws', `decoding threw ${e.message}`, input); }
        c.check(same(before, input), 'input-mutated', 'decoding changed its input', { before, after: input });
        c.observe(E.isRight(got) ? show(got.right) : 'rejected');
        const key = () => `decode:${config.map((s, i) => `${s.comp}.${NAMES[i]}:${s.name}`).join(',')}:${show(before)}`;
        if (!ok) { c.check(E.isLeft(got), key, 'a request with an undecodable component was accepted', { input, got }); return; }
        c.check(E.isRight(got), key, 'a request whose every component decodes was rejected', { input, expected: flat });
        c.check(same(strip(got.right), flat) , key, 'decoded value is not the flat record of the declared properties', { input, got: got.right, expected: flat });
        c.check(codec.is(got.right), key, 'decoded value is not a member of the codec\'s type', { input, got: got.right });

        // ---- encode
        const d = deepFreeze(Object.assign(shell(), clone(flat)));
        const enc = codec.encode(d);
        const expected = {};
        for (const comp of comps) expected[comp] = {};
        config.forEach((s, i) => { if (own(flat, NAMES[i])) expected[s.comp][NAMES[i]] = s.codec.encode(flat[NAMES[i]]); });
        c.check(same(stripDeep(enc), expected), () => 'encode:' + key(), 'encoding did not place every property in its own component under its own codec', { decoded: flat, got: enc, expected });
        const again = codec.decode(enc);
        c.check(E.isRight(again) && same(strip(again.right), flat), () => 'roundtrip:' + key(), 'decode(encode(x)) is not x', { decoded: flat, encoded: enc, again });
        // an extra property of the flat record goes nowhere
        const enc2 = codec.encode({ ...flat, zz: 'extra' });
        c.check(same(stripDeep(enc2), expected), () => 'encode-extra:' + key(), 'an undeclared property was encoded', { got: enc2, expected });
      };
    }
    const strip = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
    const stripDeep = (o) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, v && typeof v === 'object' ? strip(v) : v]));
    const S = [
      { name: 'request', cases: configs.length, chunk: 40, deviations: 1, run: makeRun(configs, VALUES), what: 'all property values x at most one further deviation (bad/absent component, undeclared property, empty declared component, extra component)' },
    ];
    // the same name declared in two components, each with its own codec
    const pairs = [];
    for (const a of slots) for (const b2 of slots) if (COMPONENTS.indexOf(a.comp) < COMPONENTS.indexOf(b2.comp)) pairs.push([a, b2]);
    S.push({ name: 'shared-name', cases: pairs.length, chunk: 40, what: 'one property name declared in two components: each keeps its own codec',
      run(c, k) {
        const order = c.flag('declared-in-reverse');
        const ps = order ? [pairs[k][1], pairs[k][0]] : pairs[k];
        const declared = {}; for (const s of ps) declared[s.comp] = { a: s.codec };
        const codec = h.httpRequest(declared);
        const key = (x) => `shared-${x}:${ps.map((s) => `${s.comp}:${s.name}`)}`;
        const input = { query: {}, params: {} };
        for (const s of ps) { input[s.comp] = {}; const v = c.pick(VALUES, s.comp); if (v !== ABSENT) input[s.comp].a = v; }
        const parts = ps.map((s) => s.codec.decode(input[s.comp].a));
        const got = codec.decode(deepFreeze(input));
        c.observe(E.isRight(got) ? show(got.right) : 'rejected');
        c.check(E.isRight(got) === parts.every(E.isRight), () => key('accept') + show(input), 'a request was not accepted exactly when every declared property decodes', { input, got });
        if (E.isLeft(got)) return;
        const values = parts.map((r) => r.right);
        c.check(values.some((v) => same(v, got.right.a)), () => key('value') + show(input), 'the decoded value is not that of any component', { input, got });
        for (const v of values) {
          if (v === undefined || !ps.every((s) => s.codec.is(v))) continue;
          const want = { query: {}, params: {} };
          for (const s of ps) want[s.comp] = { a: s.codec.encode(v) };
          c.check(same(stripDeep(codec.encode({ a: v })), stripDeep(want)), () => key('encode') + show(v), 'a property was not encoded in each of its components with that component\'s codec', () => ({ value: v, got: codec.encode({ a: v }), want }));
        }
      } });
    // several codecs in one process, made and used in any order, with equal names or equal properties
    const few2 = slots.filter((s) => ['string', 'NumberFromString', 'optional(NumberFromString)', 'optionalized{p:NumberFromString,q?:string}'].includes(s.name));
    const kinds = [];
    for (let i = 0; i < few2.length; i++) kinds.push([few2[i]]);
    kinds.push([]);
    const groups = [];
    for (let i = 0; i < kinds.length; i++) for (let j = 0; j < kinds.length; j++) groups.push([kinds[i], kinds[j], kinds[(i + j) % kinds.length]]);
    S.push({ name: 'several', cases: groups.length, chunk: 20, what: 'three codecs with equal or different names, made before or after the others are used: each decodes and encodes by its own properties',
      run(c, k) {
        const configs = groups[k];
        const names = c.pick([['N', 'N', 'N'], ['N', undefined, 'N'], [undefined, undefined, undefined], ['httpRequest', undefined, 'N']], 'names');
        const made = c.pick(['all-first', 'as-used', 'last-first'], 'made');
        const combinator = c.pick(['httpRequest', 'flattened', 'optionalized'], 'combinator');
        const make = (i) => {
          const declared = {};
          for (const s of configs[i]) (declared[s.comp] = declared[s.comp] || {}).a = s.codec;
          if (combinator === 'flattened') return h.flattened(names[i] ?? 'httpRequest', { query: {}, params: {}, ...declared });
          if (combinator === 'optionalized') { const o = {}; for (const s of configs[i]) o.a = s.codec; return h.optionalized(o, names[i]); }
          return h.httpRequest(declared, names[i]);
        };
        const codecs = [];
        if (made === 'all-first') for (let i = 0; i < 3; i++) codecs[i] = make(i);
        if (made === 'last-first') for (let i = 2; i >= 0; i--) codecs[i] = make(i);
        const order = c.pick([[0, 1, 2, 0], [1, 0, 1, 2], [2, 1, 0, 1]], 'used');
        const log = [];
        for (const i of order) {
          const codec = codecs[i] || (codecs[i] = make(i));
          const s = configs[i][0];
          for (const v of ['12', ABSENT, 'x', { p: '3' }]) {
            const key = () => `several:${combinator}:${names}:${made}:${order}:${configs.map((x) => (x[0] ? x[0].comp + '.' + x[0].name : ''))}`;
            if (combinator === 'optionalized') {
              const input = v === ABSENT ? {} : { a: v };
              const got = codec.decode(input);
              const want = !s ? { right: input } : v === ABSENT && s.codec.is(undefined) ? { right: {} } : s.codec.decode(input.a);
              const ok = 'right' in want;
              const value = !s || !ok || (v === ABSENT && s.codec.is(undefined)) ? want.right : { a: want.right };
              c.check(E.isRight(got) === ok && (!ok || same(strip(got.right), strip(value))), key, 'one of several codecs did not decode by its own properties', { which: i, input, got, want });
              log.push(ok);
              continue;
            }
            const input = { query: {}, params: {}, headers: {}, body: {} };
            if (v !== ABSENT) for (const comp of COMPONENTS) input[comp].a = v;
            const want = s ? s.codec.decode(v === ABSENT ? undefined : v) : { right: undefined };
            const ok = 'right' in want;
            const flat = ok && want.right !== undefined ? { a: want.right } : {};
            const got = codec.decode(input);
            c.check(E.isRight(got) === ok && (!ok || same(strip(got.right), flat)), key, 'one of several codecs did not decode by its own properties', { which: i, input, got, want });
            log.push(ok);
            if (!ok) continue;
            const out = { query: {}, params: {} };
            if (s) { out[s.comp] = {}; if ('a' in flat) out[s.comp].a = s.codec.encode(flat.a); }
            c.check(same(stripDeep(codec.encode(flat)), out), key, 'one of several codecs did not encode by its own properties', { which: i, flat, got: codec.encode(flat), out });
          }
        }
        c.observe(show(log));
      } });
    S.push({ name: 'flattened', cases: configs.length, chunk: 40, deviations: 0, run: makeRun(configs, VALUES, true), what: 'the flattened combinator used directly' });
    if (tier === 'thorough') {
      S[0].deviations = 2;
      S.push({ name: 'request-3', cases: triples.length, chunk: 10, deviations: 1, run: makeRun(triples, VALUES.slice(0, 12)), what: 'three properties' });
    }
    return S;
  },
};
