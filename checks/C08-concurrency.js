'use strict';
const { show, same } = require('../lib/explore');
const { inject, tick } = require('../lib/http');

// A gate the code under test awaits; the explorer decides when each one opens.
class Gates {
  constructor() { this.waiting = new Map(); }
  wait(id) { return new Promise((resolve) => { this.waiting.set(id, resolve); }); }
  open(id) { const r = this.waiting.get(id); this.waiting.delete(id); r(); }
}
const quiesce = async () => { await tick(); await tick(); await tick(); };

module.exports = {
  id: 'C08',
  bounds: 'all arrival/step orders (every interleaving of the points at which a request awaits something) of 2 requests with up to 3 await points each (thorough: 3 requests with up to 2), over 4 pipelines (typed router checked, unchecked, express-wrapper with a merging and with a non-merging middleware chain), same or different routes, each request: normal, undecodable, failing in middleware, failing in the handler, answered late with an unencodable value; and all orders of 3 (thorough 4) outstanding client calls over one client',
  assumptions: ['steps between two awaits run without interruption (the JavaScript event loop)', 'express is trusted'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const { NumberFromString } = b.require('io-ts-types');
    const h = b.pkg('io-ts-http');
    const express = b.require('express');
    const ter = b.pkg('typed-express-router');
    const w = b.pkg('express-wrapper');
    const sw = b.pkg('superagent-wrapper');
    const mkReq = () => h.httpRequest({ params: { id: NumberFromString }, query: { tag: t.string }, headers: { 'x-k': h.optional(t.string) }, body: { v: t.number } });
    const mk = (path) => h.httpRoute({ path, method: 'POST', request: mkReq(), response: { 200: t.type({ id: NumberFromString, tag: t.string, v: t.number }), 202: t.string, 400: t.string } });
    const KINDS = ['ok', 'undecodable', 'middleware-fails', 'handler-fails', 'unencodable', 'other-status'];

    function makeApp(pipeline, gates, log) {
      const spec = { 'a.one': { post: mk('/one/{id}') }, 'a.two': { post: mk('/two/{id}') } };
      const kindOf = (req) => req.headers['x-kind'];
      const who = (req) => req.headers['x-who'];
      const waits = (req) => Number(req.headers['x-waits']);
      const answer = (kind, d) => (kind === 'other-status' ? [202, `s${d.id}`] : kind === 'unencodable' ? [200, { id: 'no' }] : [200, { id: d.id, tag: d.tag, v: d.v }]);
      const app = express();
      if (pipeline < 2) {
        const opts = { decodeErrorFormatter: (e, req) => ({ bad: who(req) }), encodeErrorFormatter: (e, req) => ({ enc: who(req) }), afterEncodedResponseSent: (s, p, req) => log.push(['sent', who(req), s, p]) };
        const r = ter.createRouter(spec, opts);
        r.use(async (req, res, next) => {
          if (waits(req) > 2) await gates.wait(who(req));
          log.push(['mw', who(req), req.apiName]);
          if (kindOf(req) === 'middleware-fails') next(new Error('mw ' + who(req))); else next();
        });
        const hnd = async (req, res) => {
          if (waits(req) > 0) await gates.wait(who(req));
          const d = pipeline === 0 ? req.decoded : req.decoded._tag === 'Right' ? req.decoded.right : undefined;
          log.push(['handler', who(req), req.apiName, req.httpRoute.path, d]);
          if (waits(req) > 1) await gates.wait(who(req));
          const d2 = pipeline === 0 ? req.decoded : req.decoded._tag === 'Right' ? req.decoded.right : undefined;
          if (kindOf(req) === 'handler-fails') { res.status(500).json({ failed: who(req) }); return; }
          if (!d2) { res.sendEncoded(400, 'undecoded ' + who(req)); return; }
          const [s, p] = answer(kindOf(req), d2); res.sendEncoded(s, p);
        };
        for (const api of ['a.one', 'a.two']) r[pipeline === 0 ? 'post' : 'postUnchecked'](api, [hnd]);
        app.use(r);
      } else {
        const chain = () => [
          w.middlewareFn(async (req) => { if (waits(req) > 2) await gates.wait(who(req)); log.push(['mw', who(req)]); if (kindOf(req) === 'middleware-fails') throw new Error('mw'); return { from: who(req), tag: 'mw-' + who(req) }; }),
          (req, res, next) => { req.seen = who(req); next(); },
          w.middlewareFn(async (req) => ({ kind: kindOf(req), waits: waits(req) })),
        ];
        const service = (api) => async (input) => {
          if (input.waits > 0) await gates.wait(input.from);
          log.push(['handler', input.from, api, { ...input }]);
          if (input.waits > 1) await gates.wait(input.from);
          if (input.kind === 'handler-fails') throw new Error('handler');
          const [type, payload] = answer(input.kind, input); return { type, payload: input.kind === 'unencodable' ? undefined : payload };
        };
        // without routeHandler the handler gets the decoded request alone, so it finds its own behaviour under the x-k header it was given
        const info = new Map();
        const plainChain = () => [
          (req, res, next) => { info.set('k' + who(req).slice(1), { from: who(req), kind: kindOf(req), waits: waits(req) }); next(); },
          async (req, res, next) => { if (waits(req) > 2) await gates.wait(who(req)); log.push(['mw', who(req)]); if (kindOf(req) === 'middleware-fails') next(new Error('mw')); else next(); },
          w.middlewareFn(async (req) => ({ tag: 'ignored-' + who(req) })),
        ];
        const plainService = (api) => async (input) => {
          const i = info.get(input['x-k']) || { from: '?', kind: 'ok', waits: 0 };
          if (i.waits > 0) await gates.wait(i.from);
          log.push(['handler', i.from, api, { ...input }]);
          if (i.waits > 1) await gates.wait(i.from);
          if (i.kind === 'handler-fails') throw new Error('handler');
          const [type, payload] = answer(i.kind, input); return { type, payload: i.kind === 'unencodable' ? undefined : payload };
        };
        const rh = {}; for (const api of ['a.one', 'a.two']) rh[api] = { post: pipeline === 2 ? w.routeHandler({ middleware: chain(), handler: service(api) }) : { middleware: plainChain(), handler: plainService(api) } };
        app.use(w.routerForApiSpec({ spec, routeHandlers: rh }));
      }
      app.use((err, req, res, next) => { res.status(598).json({ err: err.message }); });
      return app;
    }
    const make = (app, r) => inject(app, { method: 'POST', url: `/${r.route}/${r.kind === 'undecodable' ? 'x' + r.n : r.n}?tag=tag${r.n}`, headers: { 'x-who': 'w' + r.n, 'x-kind': r.kind, 'x-waits': String(r.waits), 'x-k': 'k' + r.n }, parsedBody: { v: r.n * 10 } });
    const snapshot = (x, log, r) => { const res = x.res(); return { response: res && [res.responses, res.status, res.text], fall: x.fallthrough, log: log.filter((l) => l[1] === 'w' + r.n) }; };

    // what each request does when it is alone
    const aloneCache = new Map();
    async function alone(pipeline, r) {
      const k = show([pipeline, r]);
      if (!aloneCache.has(k)) {
        const gates = new Gates(), log = [];
        const x = make(makeApp(pipeline, gates, log), r).start(); await quiesce();
        while (gates.waiting.size) { gates.open([...gates.waiting.keys()][0]); await quiesce(); }
        aloneCache.set(k, snapshot(x, log, r));
      }
      return aloneCache.get(k);
    }
    function driver(nReq, maxWaits) {
      return async function run(c) {
        const pipeline = c.choose(4, 'pipeline', { free: true });
        const reqs = [];
        for (let i = 0; i < nReq; i++) reqs.push({ n: i + 1, kind: c.pick(KINDS, `kind${i}`, { free: true }), route: i === 0 ? 'one' : c.flag(`other-route${i}`, { free: true }) ? 'two' : 'one', waits: maxWaits });
        const expected = []; for (const r of reqs) expected.push(await alone(pipeline, r));
        const gates = new Gates(), log = [];
        const app = makeApp(pipeline, gates, log);
        const handles = reqs.map(() => undefined);
        for (;;) {
          const enabled = [];
          reqs.forEach((r, i) => { if (!handles[i]) { if (i === 0 || handles[i - 1]) enabled.push([i, 'arrives']); } else if (gates.waiting.has('w' + r.n)) enabled.push([i, 'continues']); });
          if (!enabled.length) break;
          const [i, what] = enabled[c.choose(enabled.length, (v) => `request ${enabled[v][0]} ${enabled[v][1]}`, { free: true })];
          if (what === 'arrives') handles[i] = make(app, reqs[i]).start(); else gates.open('w' + reqs[i].n);
          await quiesce();
        }
        const got = reqs.map((r, i) => snapshot(handles[i], log, r));
        c.observe(show([pipeline, got.map((g) => g.response)]));
        reqs.forEach((r, i) => {
          const key = () => `isolation:${pipeline}:${reqs.map((q) => q.kind + q.route).join(',')}`;
          c.check(same(got[i], expected[i]), key, `request ${i} (${r.kind}) behaved differently among ${nReq} concurrent requests than alone`, () => ({ got: got[i], alone: expected[i] }));
          c.check(got[i].response && got[i].response[0] === 1, () => 'one-response:' + key(), 'not exactly one response', () => got[i]);
          // and what it does alone is about itself
          const text = show(got[i]);
          for (const q of reqs) if (q.n !== r.n) c.check(!text.includes(`tag${q.n}`) && !text.includes(`"w${q.n}"`), () => 'leak:' + key(), 'data of another request shows up', () => got[i]);
          if (r.kind === 'ok' && got[i].response) c.check(got[i].response[1] === 200 && got[i].response[2] === JSON.stringify({ id: String(r.n), tag: pipeline === 2 ? `mw-w${r.n}` : `tag${r.n}`, v: r.n * 10 }), () => 'echo:' + key(), 'wrong response', () => got[i]);
        });
      };
    }
    // ---- client: outstanding calls over one client, responses in every order
    const CL = [['ok', 200, { n: '5' }], ['bad', 200, { n: 'x' }], ['undeclared', 418, {}], ['error', 404, 'gone'], ['fails']];
    async function client(c) {
      const n = tier === 'thorough' ? 4 : 3;
      const spec = { 'a.one': { get: h.httpRoute({ path: '/one/{id}', method: 'GET', request: h.httpRequest({ params: { id: NumberFromString }, query: { q: t.string } }), response: { 200: t.type({ n: NumberFromString }), 404: t.string } }) }, 'a.two': { post: h.httpRoute({ path: '/two/{id}', method: 'POST', request: h.httpRequest({ params: { id: NumberFromString }, body: { q: t.string } }), response: { 200: t.type({ n: NumberFromString }), 404: t.string } }) } };
      const sent = [];
      const factory = (route, params) => { let res, rej; const p = new Promise((a, z) => { res = a; rej = z; }); p.catch(() => {}); const r = { route, params, res, rej, ok: () => r, query(q) { r.q = q; return r; }, set: () => r, send(x) { r.body = x; return r; }, then: (a, z) => p.then(a, z) }; sent.push(r); return r; };
      const cl = sw.buildApiClient(factory, spec);
      const calls = []; const kinds = [];
      for (let i = 0; i < n; i++) { kinds.push(c.pick(CL, `reply${i}`, { free: true })); }
      const outcomes = [];
      const expecting = c.flag('expecting');
      const pending = [];
      let started = 0;
      for (;;) {
        const enabled = []; if (started < n) enabled.push('start'); pending.forEach((i) => enabled.push(i));
        if (!enabled.length) break;
        const e = enabled[c.choose(enabled.length, (v) => `step ${enabled[v]}`, { free: true })];
        if (e === 'start') {
          const i = started++; const one = i % 2 === 0;
          const req = one ? cl['a.one'].get({ id: i, q: 'q' + i }) : cl['a.two'].post({ id: i, q: 'q' + i });
          calls[i] = (expecting ? req.decodeExpecting(200) : req.decode()).then((r) => { outcomes[i] = ['ok', r.status, r.body, r.original.tag]; }, (err) => { outcomes[i] = ['err', err.message, err.decodedResponse && err.decodedResponse.original.tag]; });
          pending.push(i);
        } else {
          pending.splice(pending.indexOf(e), 1);
          const k = kinds[e];
          if (k[0] === 'fails') sent[e].rej(new Error('net ' + e)); else sent[e].res({ status: k[1], body: k[0] === 'ok' ? { n: String(e) } : k[2], text: '', tag: e });
          await Promise.race([calls[e], tick().then(tick)]);
          c.check(outcomes[e] !== undefined, 'client-stuck', `call ${e} did not settle when its own response arrived`);
        }
      }
      c.observe(show(outcomes));
      kinds.forEach((k, i) => {
        const o = outcomes[i]; const key = `client:${kinds.map((x) => x[0]).join(',')}:${expecting}`;
        c.check(sent.length === n && same(sent[i].params, { id: String(i) }) && (i % 2 === 0 ? same(sent[i].q, { q: 'q' + i }) : sent[i].body === JSON.stringify({ q: 'q' + i })), key + ':sent', 'wrong request sent', () => sent);
        const bad = () => c.fail(key, `call ${i} (${k[0]}) ended as ${show(o)}`);
        if (k[0] === 'fails') { if (!same(o, ['err', 'net ' + i, undefined])) bad(); }
        else if (k[0] === 'ok') { if (!same(o, ['ok', 200, { n: i }, i])) bad(); }
        else if (expecting) { if (o[0] !== 'err' || o[2] !== i) bad(); }
        else if (k[0] === 'error') { if (!same(o, ['ok', 404, 'gone', i])) bad(); }
        else if (!same(o, ['ok', 'decodeError', k[2], i])) bad();
      });
    }
    const T = tier === 'thorough';
    return [
      { name: 'server-2', shards: [4, 6], run: driver(2, 3), what: '2 concurrent requests with 3 await points each' },
      ...(T ? [{ name: 'server-3', shards: [4, 6, 6, 2], run: driver(3, 2), what: '3 concurrent requests with 2 await points each' }] : [{ name: 'server-3', shards: [4, 6], run: driver(3, 1), what: '3 concurrent requests with 1 await point each' }]),
      { name: 'client', shards: [5, 5], run: client, what: 'outstanding client calls' },
    ];
  },
};
