'use strict';
const { show, same } = require('../lib/explore');
const { inject, settle } = require('../lib/http');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

module.exports = {
  id: 'C13',
  bounds: 'every subset of 2 apis x 5 methods (1024 specs) x path layout (distinct or shared path) x up to 2 extras among: a non-method key, an explicitly undefined route, an inherited route, an api without routes, names that clash with object members, objects without a prototype, one function that handles every route; each spec given to the client builder, both server packages, and every (method, path) requested',
  assumptions: ['express is trusted'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const h = b.pkg('io-ts-http');
    const express = b.require('express');
    const sw = b.pkg('superagent-wrapper');
    const w = b.pkg('express-wrapper');
    const ter = b.pkg('typed-express-router');

    async function run(c) {
      const mask = c.choose(1024, 'spec', { free: true });
      const shared = c.flag('shared-path');
      const nonMethod = c.flag('non-method-key'), undef = c.flag('undefined-route'), inherited = c.flag('inherited-route'), empty = c.flag('empty-api');
      const names = c.pick([['one', 'two.b'], ['constructor', 'toString'], ['1', '0'], ['a b', ''], ['hasOwnProperty', 'get']], 'names');
      const bare = c.flag('no-prototype'), one = c.flag('one function handles all');
      const tagged = (tag) => new t.Type(tag, t.string.is, t.string.validate, (v) => (one ? `${tag}|${v}` : v));
      const shell = () => (bare ? Object.create(null) : {});
      const spec = shell(); const have = [];
      const PATH = [shared ? '/same/{id}' : '/one/{id}', shared ? '/same/{id}' : '/two/{id}'];
      names.forEach((n, i) => {
        spec[n] = inherited ? Object.create({ get: h.httpRoute({ path: '/inherited', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) }) : shell();
        METHODS.forEach((m, j) => { if (mask & (1 << (i * 5 + j))) { spec[n][m] = h.httpRoute({ path: PATH[i], method: m.toUpperCase(), request: h.httpRequest({ params: { id: t.string }, query: { z: h.optional(t.string) } }), response: { 200: tagged(`${n}.${m}`) } }); have.push([n, m, PATH[i]]); } });
        if (nonMethod) { spec[n].head = spec[n].description = h.httpRoute({ path: '/extra', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }); }
      });
      if (empty) spec.none = shell();
      const key = (p) => () => `${p}:${c.trail().join(',')}`;
      // ---- client
      const sent = [];
      const factory = (route, params) => { const r = { route, params, sets: [], ok() { return r; }, query(q) { r.q = q; return r; }, set() { return r; }, send(x) { r.body = x; return r; }, then: (f) => Promise.resolve({ body: 'hi', text: '"hi"', status: 200 }).then(f) }; sent.push(r); return r; };
      if (undef) {
        const [n] = names; const missing = METHODS.find((m) => !Object.prototype.hasOwnProperty.call(spec[n], m));
        if (missing) {
          const bad = { ...spec, [n]: { ...spec[n], [missing]: undefined } };
          let threw = false; try { sw.buildApiClient(factory, bad); } catch (e) { threw = true; }
          c.check(threw, key('client-undefined'), 'a client was built for a spec with an explicitly undefined route');
          const r = ter.createRouter(bad); threw = false;
          try { r[missing](n, [() => {}]); } catch (e) { threw = true; }
          c.check(threw && r.stack.length === 0, key('router-undefined'), 'an explicitly undefined route could be registered');
        }
      }
      const client = sw.buildApiClient(factory, spec);
      c.check(same(Object.keys(client).sort(), Object.keys(spec).sort()), key('client-apis'), 'the client does not have exactly the apis of the spec', () => Object.keys(client));
      for (const n of Object.keys(spec)) {
        const want = have.filter((x) => x[0] === n).map((x) => x[1]).sort();
        c.check(same(Object.keys(client[n]).sort(), want), key('client-methods'), 'the client does not have exactly the methods of the spec', () => [n, Object.keys(client[n]), want]);
        for (const m of want) {
          sent.length = 0;
          const res = await client[n][m]({ id: 'i', z: 'q' }).decode();
          c.check(sent.length === 1 && sent[0].route === spec[n][m] && same(sent[0].params, { id: 'i' }) && same(sent[0].q, { z: 'q' }) && sent[0].body === undefined && res.status === 200 && res.body === 'hi', key('client-call'), `calling ${n}.${m} did not send its own route`, () => sent);
        }
      }
      // ---- servers
      for (const kind of [0, 1]) {
        const calls = [];
        let app;
        const all = kind === 0 ? () => { calls.push('one'); return { type: 200, payload: 'P' }; } : (req, res) => { calls.push('one'); res.sendEncoded(200, 'P'); };
        if (kind === 0) {
          const routeHandlers = {};
          for (const n of Object.keys(spec)) { routeHandlers[n] = {}; for (const m of METHODS) routeHandlers[n][m] = one ? all : () => { calls.push([n, m]); return { type: 200, payload: `${n}.${m}` }; }; if (inherited) routeHandlers[n].get = routeHandlers[n].get; }
          app = w.createServer(spec, () => routeHandlers);
        } else {
          app = express(); const r = ter.createRouter(spec);
          for (const [n, m] of have) r[m](n, [one ? all : (req, res) => { calls.push([n, m]); res.sendEncoded(200, `${n}.${m}`); }]);
          app.use(r);
        }
        for (const m of METHODS) for (const p of ['/one/5', '/two/5', '/same/5', '/inherited', '/extra']) {
          calls.length = 0;
          const first = Object.keys(spec).map((n) => have.find((x) => x[0] === n && x[1] === m && x[2].replace('{id}', '5') === p)).filter(Boolean)[0];
          const first2 = kind === 0 ? first : have.find((x) => x[1] === m && x[2].replace('{id}', '5') === p);
          const x = inject(app, { method: m.toUpperCase(), url: p }).start();
          if (!x.ended) await settle(x);
          const res = x.res();
          const detail = () => ({ request: [m, p], calls, response: res && [res.status, res.text], want: first2 });
          if (first2) c.check(same(calls, one ? ['one'] : [[first2[0], first2[1]]]) && res && res.status === 200 && res.json === (one ? `${first2[0]}.${first2[1]}|P` : `${first2[0]}.${first2[1]}`), key('server'), 'a route of the spec is not served by its own handler', detail);
          else c.check(calls.length === 0 && !res && x.fallthrough === 1, key('server-extra'), 'something that is not a route of the spec is served', detail);
        }
      }
      c.observe(show(have));
    }
    return [{ name: 'specs', deviations: tier === 'thorough' ? 4 : 1, shards: [1024], chunk: 16, run, what: 'every spec' }];
  },
};
