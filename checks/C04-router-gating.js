'use strict';
const { show, same } = require('../lib/explore');
const { inject, settle } = require('../lib/http');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

module.exports = {
  id: 'C04',
  bounds: 'every method x checked/unchecked x up to 5 (thorough 6) deviations among: validity of params/query/headers/body, request codec shape, wrap vs create, 0-2 router middlewares and 1-2 handlers each of which continues, answers, reports an error or throws, decode-error formatter and status at router and route level; every sequence of 2 and 3 (thorough 4) requests of 7 kinds with hooks that depend on the request',
  assumptions: ['express and io-ts leaf codecs are trusted', 'router middleware is registered before the route (the documented order)'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const { NumberFromString } = b.require('io-ts-types');
    const E = b.require('fp-ts/Either');
    const h = b.pkg('io-ts-http');
    const express = b.require('express');
    const ter = b.pkg('typed-express-router');

    const body = t.type({ n: NumberFromString });
    const CODECS = [
      { name: 'params+query+headers+body', make: () => h.httpRequest({ params: { id: NumberFromString }, query: { q: h.optional(NumberFromString) }, headers: { 'x-h': h.optional(t.literal('hh')) }, body: { n: NumberFromString } }), uses: ['params', 'query', 'headers', 'body'] },
      { name: 'intersection', make: () => t.intersection([h.httpRequest({ params: { id: NumberFromString } }), h.httpRequest({ body: { n: NumberFromString } })]), uses: ['params', 'body'], plain: true },
      { name: 'union', make: () => t.union([h.httpRequest({ params: { id: NumberFromString }, body: { n: NumberFromString } }), h.httpRequest({ query: { q: NumberFromString } })]), uses: [], union: true },
      { name: 'none', make: () => h.httpRequest({}), uses: [] },
    ];
    const BEHAVE = ['next', 'answer', 'error', 'throw', 'flush'];

    async function run(c) {
      const method = c.pick(METHODS, 'method', { free: true });
      const checked = c.choose(2, 'unchecked', { free: true }) === 0;
      const wrapped = c.flag('wrapRouter');
      const codec = c.pick(CODECS, 'codec');
      // request
      const bad = {};
      bad.params = c.choose(2, 'bad-params'); bad.query = c.choose(3, 'query'); bad.headers = c.choose(3, 'headers'); bad.body = c.choose(4, 'body');
      const url = `/r/${bad.params ? 'abc' : '5'}` + ['?q=3', '', '?q=zz'][bad.query];
      const headers = [{}, { 'x-h': 'hh' }, { 'X-H': 'no' }][bad.headers];
      const reqBody = [{ n: '7', extra: 1 }, { n: 'zz' }, {}, undefined][bad.body];
      // what the codecs make of it, component by component
      const part = {
        params: bad.params ? undefined : { id: 5 },
        query: [{ q: 3 }, {}, undefined][bad.query],
        headers: [{}, { 'x-h': 'hh' }, undefined][bad.headers],
        body: [{ n: 7 }, undefined, undefined, undefined][bad.body],
      };
      let expected; // undefined when the request does not decode
      if (codec.union) {
        if (part.params && part.body) expected = { ...part.params, ...part.body };
        else if (bad.query === 0) expected = { q: 3 };
      } else if (codec.uses.every((u) => part[u] !== undefined)) expected = Object.assign({}, ...codec.uses.map((u) => part[u]));

      // configuration
      const mws = []; const nm = c.choose(3, 'middlewares');
      for (let i = 0; i < nm; i++) mws.push(c.pick(BEHAVE, `mw${i}`));
      const hs = [];
      if (c.flag('first-handler')) hs.push(c.pick(BEHAVE, 'h0'));
      hs.push(c.pick(['answer', 'next', 'error', 'throw', 'sendEncoded'], 'last-handler'));
      const router = {}, route = {};
      const opts = [];
      for (const [name, o] of [['router', router], ['route', route]]) {
        if (c.flag(`${name}-formatter`)) { o.decodeErrorFormatter = (errs, req) => { opts.push([name, errs, req]); return { by: name, n: Array.isArray(errs) && errs.length > 0, api: req.apiName }; }; }
        if (c.flag(`${name}-status`)) { o.getDecodeErrorStatusCode = (errs, req) => { opts.push([name, errs, req]); return name === 'router' ? 422 : 418; }; }
      }

      const log = [];
      const err = new Error('boom');
      const spec = { 'my.api': { [method]: h.httpRoute({ path: '/r/{id}', method: method.toUpperCase(), request: codec.make(), response: { 200: t.string } }) } };
      const act = (name, behave) => (req, res, next) => {
        log.push([name, seen(req.decoded), req.apiName, req.httpRoute === spec['my.api'][method], typeof res.sendEncoded]);
        if (behave === 'flush') res.flushHeaders();
        if (behave === 'next' || behave === 'flush') next();
        else if (behave === 'answer') res.status(299).json({ by: name });
        else if (behave === 'error') next(err);
        else if (behave === 'sendEncoded') res.sendEncoded(200, 'fine');
        else throw err;
      };
      const seen = (d) => {
        if (d && typeof d === 'object' && d._tag === 'Right') return { right: d.right };
        if (d && typeof d === 'object' && d._tag === 'Left') return Array.isArray(d.left) && d.left.length ? 'left' : 'left-empty';
        return { value: d };
      };
      const app = express();
      const tr = wrapped ? ter.wrapRouter(express.Router(), spec, router) : ter.createRouter(spec, router);
      mws.forEach((m, i) => tr.use(act(`mw${i}`, m)));
      tr[method + (checked ? '' : 'Unchecked')]('my.api', hs.map((x, i) => act(`h${i}`, x)), Object.keys(route).length || c.flag('empty-options') ? route : undefined);
      app.use(tr);
      const x = inject(app, { method: method.toUpperCase(), url, headers, parsedBody: reqBody }).start();
      if (!x.ended) await settle(x);

      // ---- reference
      const want = [];
      let flushed = false;
      let outcome; // {status, json} | {fall: err|undefined}
      const either = expected === undefined ? 'left' : { right: expected };
      const stages = mws.map((m, i) => [`mw${i}`, m, either]);
      if (checked && expected === undefined) stages.push(['validate', 'reject']);
      hs.forEach((x2, i) => stages.push([`h${i}`, x2, checked ? { value: expected } : either]));
      for (const [name, behave, d] of stages) {
        if (behave === 'reject') {
          outcome = { status: route.getDecodeErrorStatusCode ? 418 : router.getDecodeErrorStatusCode ? 422 : 400, by: route.decodeErrorFormatter ? 'route' : router.decodeErrorFormatter ? 'router' : 'default' };
          break;
        }
        want.push([name, d, 'my.api', true, 'function']);
        if (behave === 'flush') flushed = true;
        if (behave === 'next' || behave === 'flush') continue;
        if (behave === 'answer') outcome = { status: 299, json: { by: name } };
        else if (behave === 'sendEncoded') outcome = { status: 200, json: 'fine' };
        else outcome = { fall: err };
        break;
      }
      if (!outcome) outcome = { fall: undefined };
      const res = x.res();
      c.observe(show([log, res && [res.status, res.json], x.fallthrough]));
      const key = (p) => () => `${p}:${method}:${checked}:${c.trail().filter((s) => !/=0$/.test(s)).join(',')}`;
      const detail = () => ({ log, want, response: res && [res.status, res.text], outcome, fallthrough: x.fallthroughErrors, thrown: x.thrown && x.thrown.stack });
      if (!flushed) c.check(!x.thrown, key('thrown'), 'an exception escaped the application', detail);
      c.check(same(log, want), key('calls'), 'middleware/handlers did not see the expected calls and decoded values', detail);
      // (what can still be said after the headers are sent is up to express)
      if (flushed) return;
      if ('fall' in outcome) {
        c.check(!res && x.fallthrough === 1, key('fallthrough'), 'expected the request to leave the router without a response', detail);
        c.check(outcome.fall === undefined ? x.fallthroughErrors.length === 0 : x.fallthroughErrors[0] === outcome.fall, key('error'), 'wrong error reported', detail);
      } else {
        c.check(res && res.responses === 1 && x.fallthrough === 0, key('response'), 'expected exactly one response', detail);
        c.check(res.status === outcome.status, key('status'), `status ${res.status}, expected ${outcome.status}`, detail);
        if ('json' in outcome) c.check(same(res.json, outcome.json), key('body'), 'wrong body', detail);
        else if (outcome.by === 'default') c.check(Array.isArray(res.json) && res.json.length > 0 && res.json.every((s) => typeof s === 'string'), key('body'), 'wrong decode error body', detail);
        else c.check(same(res.json, { by: outcome.by, n: true, api: 'my.api' }), key('body'), 'wrong decode error body', detail);
      }
      for (const [name, errs, req] of opts) c.check(Array.isArray(errs) && errs.length > 0 && req === x.req, key('hook'), `${name} hook got the wrong arguments`, detail);
      if (opts.length) c.check(expected === undefined, key('hook-called'), 'a decode-error hook ran for a request that decodes', detail);
    }
    // ---- several requests one after another on the same routes: each is answered on its own
    const KINDS = {
      fine: { url: '/r/5?q=3', body: { n: '7' }, decoded: { id: 5, q: 3, n: 7 } }, other: { url: '/r/6', body: { n: '8' }, decoded: { id: 6, n: 8 } },
      'bad id': { url: '/r/abc?q=3', body: { n: '7' } }, 'bad query': { url: '/r/5?q=zz', body: { n: '7' } }, 'bad body': { url: '/r/5', body: { n: 'zz' } }, 'no body': { url: '/r/5', body: undefined }, 'all bad': { url: '/r/abc?q=zz', body: {} },
    };
    const codeOf = (req) => 400 + String(req.url).length + (req.body === undefined ? 20 : req.body.n === undefined ? 30 : 0);
    async function sequence(c) {
      const n = 2 + c.choose(tier === 'thorough' ? 3 : 2, (v) => `${v + 2} requests`, { free: true });
      const level = c.pick(['router', 'route', 'both', 'none'], 'hooks', { free: true });
      const two = c.flag('two routes'), checkedFirst = !c.flag('unchecked');
      const hooks = (by) => ({ decodeErrorFormatter: (errs, req) => ({ by, url: req.url, api: req.apiName, n: errs.length }), getDecodeErrorStatusCode: (errs, req) => codeOf(req) + (by === 'route' ? 50 : 0) });
      const request = () => h.httpRequest({ params: { id: NumberFromString }, query: { q: h.optional(NumberFromString) }, body: { n: NumberFromString } });
      const spec = { 'my.api': { post: h.httpRoute({ path: '/r/{id}', method: 'POST', request: request(), response: { 200: t.string } }) }, 'my.other': { put: h.httpRoute({ path: '/r/{id}', method: 'PUT', request: request(), response: { 200: t.string } }) } };
      const router = ter.createRouter(spec, level === 'router' || level === 'both' ? hooks('router') : undefined);
      const ro = level === 'route' || level === 'both' ? hooks('route') : undefined;
      let log = [];
      const answer = (req, res) => { log.push([req.apiName, req.decoded]); res.status(299).json({ fine: req.url }); };
      router[checkedFirst ? 'post' : 'postUnchecked']('my.api', [answer], ro);
      router.put('my.other', [answer], ro);
      const app = express(); app.use(router);
      for (let i = 0; i < n; i++) {
        const kind = c.pick(Object.keys(KINDS), `request ${i}`, { free: true });
        const second = two && c.flag(`request ${i} to the other`);
        const q = KINDS[kind], checked = second || checkedFirst;
        log = [];
        const x = inject(app, { method: second ? 'PUT' : 'POST', url: q.url, parsedBody: q.body }).start();
        if (!x.ended) await settle(x);
        const res = x.res();
        c.observe(show([kind, res && [res.status, res.json]]));
        const key = (p) => () => `sequence-${p}:${c.trail().filter((s) => !/=0$/.test(s)).join(',')}`;
        const detail = () => ({ log, response: res && [res.status, res.text], thrown: x.thrown && x.thrown.stack });
        c.check(res && res.responses === 1 && !x.fallthrough && !x.thrown, key('response'), `${kind}: expected exactly one response`, detail);
        const by = ro ? 'route' : level === 'none' ? undefined : 'router';
        if (!checked || q.decoded) {
          const want = checked ? q.decoded : q.decoded && { _tag: 'Right', right: q.decoded };
          c.check(log.length === 1 && log[0][0] === (second ? 'my.other' : 'my.api') && (want ? same(log[0][1], want) : log[0][1]._tag === 'Left'), key('decoded'), `${kind}: the handler did not see this request`, detail);
          c.check(res.status === 299 && same(res.json, { fine: q.url }), key('answer'), `${kind}: wrong answer`, detail);
        } else {
          c.check(log.length === 0, key('called'), `${kind}: the handler ran`, detail);
          const status = by ? codeOf({ url: q.url, body: q.body }) + (by === 'route' ? 50 : 0) : 400;
          c.check(res.status === status, key('status'), `${kind}: status ${res.status}, expected ${status}`, detail);
          c.check(by ? res.json.by === by && res.json.url === q.url && res.json.api === (second ? 'my.other' : 'my.api') && res.json.n > 0 : Array.isArray(res.json), key('body'), `${kind}: wrong body`, detail);
        }
      }
    }
    return [{ name: 'sequence', split: 8, deviations: tier === 'thorough' ? undefined : 2, run: sequence, what: 'requests one after another' }, { name: 'gating', deviations: tier === 'thorough' ? 5 : 4, shards: [5, 2, 2], run, what: 'one request against one configured route' }];
  },
};
