'use strict';
const { show, same } = require('../lib/explore');
const { inject, settle, tick } = require('../lib/http');

module.exports = {
  id: 'C09',
  bounds: 'every middleware chain of length 0..4 (thorough 5) over 18 middleware behaviours (shorter ones over 24), for handlers made with and without routeHandler; plus chains of 5 to 7 (the longest the types allow) with up to 2 (thorough 3) behaviours other than "continue"',
  assumptions: ['express is trusted', 'a middleware that neither continues, answers nor fails leaves the request pending (not explored)'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const { NumberFromString } = b.require('io-ts-types');
    const h = b.pkg('io-ts-http');
    const w = b.pkg('express-wrapper');
    const err = new Error('reported');
    // name -> [make(log), effect]; effect: adds / fails / answers
    const add = (o) => ({ adds: o });
    const K = [
      { name: 'continue', make: () => (req, res, next) => next(), adds: {} },
      { name: 'adds a', make: () => w.middlewareFn(async () => ({ a: 'mw1' })), adds: { a: 'mw1' } },
      { name: 'adds a,b later', make: () => w.middlewareFn(async () => { await tick(); return { a: 'mw2', b: 2 }; }), adds: { a: 'mw2', b: 2 } },
      { name: 'next(err)', make: () => (req, res, next) => next(err), fails: true },
      { name: 'rejects', make: () => w.middlewareFn(async () => { throw err; }), fails: true },
      { name: 'answers', make: () => (req, res) => { res.status(401).json('denied'); }, answers: [401, 'denied'] },
      { name: 'throws', make: () => () => { throw err; }, fails: true },
      { name: 'continues later', make: () => (req, res, next) => { setImmediate(next); }, adds: {} },
      { name: 'next("text") later', make: () => (req, res, next) => { setImmediate(() => next('text')); }, fails: true },
      { name: 'rejects later', make: () => w.middlewareFn(async () => { await tick(); throw err; }), fails: true },
      { name: 'rejects without reason', make: () => w.middlewareFn(() => Promise.reject()), fails: true },
      { name: 'throws synchronously', make: () => w.middlewareFn(() => { throw err; }), fails: true },
      { name: 'next(null)', make: () => (req, res, next) => next(null), adds: {} },
      { name: 'adds id', make: () => w.middlewareFn(async () => ({ id: 'other' })), adds: { id: 'other' } },
      { name: 'adds undefined a', make: () => w.middlewareFn(async () => ({ a: undefined })), adds: { a: undefined } },
      { name: 'continues twice', make: () => (req, res, next) => { next(); next(); }, adds: {} },
      { name: 'sets 403 and rejects', make: () => w.middlewareFn(async (req, res) => { res.status(403); throw err; }), fails: true, status: 403 },
      { name: 'sets 201 and continues', make: () => (req, res, next) => { res.status(201); next(); }, adds: {} },
    ];
    const plain = K.length;
    K.push(
      { name: 'async throws', make: () => async () => { throw err; }, fails: true },
      { name: 'async throws later', make: () => async () => { await tick(); throw err; }, fails: true },
      { name: 'async throws nothing', make: () => () => Promise.reject(), fails: true },
      { name: 'async continues', make: () => async (req, res, next) => { await tick(); next(); }, adds: {} },
      { name: 'async next(err)', make: () => async (req, res, next) => { await tick(); next(err); }, fails: true },
      { name: 'async continues and throws', make: () => async (req, res, next) => { next(); throw err; }, adds: {} },
    );
    const spec = { 'm.y': { post: h.httpRoute({ path: '/{id}', method: 'POST', request: h.httpRequest({ params: { id: NumberFromString }, query: { a: h.optional(t.string) } }), response: { 200: t.any } }) } };

    function driver(minLen, maxLen, free) {
      return async function run(c) {
        const merging = c.choose(2, 'plain-form', { free: true }) === 0;
        const len = minLen + c.choose(maxLen - minLen + 1, 'length', { free: true });
        const chain = []; const log = [];
        for (let i = 0; i < len; i++) chain.push(c.pick(len === maxLen && free ? K.slice(0, plain) : K, `mw${i}`, { free }));
        const handler = (input) => { log.push(['handler', input]); return { type: 200, payload: { got: 1 } }; };
        let inflight = 0, overlap = false;
        const middleware = chain.map((k, i) => { const f = k.make(); return (req, res, next) => { log.push([i, req.decoded && req.decoded.id]); if (inflight) overlap = true; inflight++; return f(req, res, (...a) => { inflight = 0; next(...a); }); }; });
        const app = w.createServer(spec, () => ({ 'm.y': { post: merging ? w.routeHandler({ middleware, handler }) : { middleware, handler } } }));
        let after = 0;
        app.use((req, res, next) => { after++; next(); });
        const x = inject(app, { method: 'POST', url: '/5?a=orig' }).start();
        await settle(x, 40); await tick();
        const res = x.res();
        // ---- reference
        const want = []; let input = { id: 5, a: 'orig' }, outcome;
        for (let i = 0; i < len; i++) {
          want.push([i, 5]);
          if (chain[i].fails) { outcome = chain[i].status || 'error'; break; }
          if (chain[i].answers) { outcome = chain[i].answers; break; }
          if (merging) input = { ...input, ...chain[i].adds };
        }
        if (!outcome) { want.push(['handler', input]); outcome = [200, { got: 1 }]; }
        c.observe(show([log, res && [res.status, res.json]]));
        const key = (p) => () => `${p}:${merging ? 'routeHandler' : 'plain'}:${chain.map((k) => k.name).join('>')}`;
        const detail = () => ({ log, want, outcome, response: res && [res.status, res.text], fallthrough: x.fallthroughErrors });
        c.check(same(log, want), key('calls'), 'the chain did not run exactly the expected steps with the expected input', detail);
        c.check(!overlap, key('overlap'), 'a middleware started before the previous one had finished', detail);
        c.check(res && res.responses === 1 && !x.thrown, key('response'), 'expected exactly one response', detail);
        c.check(after === 0 && x.fallthrough === 0, key('after'), 'the request was passed on although it was answered', detail);
        if (outcome === 'error') c.check(res.status >= 500 && res.status < 600, key('error-status'), `a failed chain was answered with ${res.status}`, detail);
        else if (typeof outcome === 'number') c.check(res.status === outcome, key('kept-status'), `status ${res.status}, expected ${outcome}`, detail);
        else c.check(res.status === outcome[0] && same(res.json, outcome[1]), key('answer'), 'wrong response', detail);
      };
    }
    const T = tier === 'thorough';
    return [
      { name: 'chains', shards: [2, T ? 6 : 5], run: driver(0, T ? 5 : 4, true), what: 'all chains' },
      { name: 'long-chains', shards: [2, 3], deviations: T ? 3 : 2, run: driver(5, 7, false), what: 'chains up to the longest the types allow' },
    ];
  },
};
