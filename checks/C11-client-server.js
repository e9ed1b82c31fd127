'use strict';
const http = require('http');
const { show, same } = require('../lib/explore');

const METHODS = ['post', 'put', 'delete', 'patch', 'get'];

module.exports = {
  id: 'C11',
  bounds: 'a route per method with 2 path, 4 query, 3 header and 5 body properties; up to 2 (thorough 3) deviations from a plain request among every property\'s value table (30 strings with reserved, encoded and unicode characters; arrays; optional, absent and explicitly undefined values), method, server package, superagent or supertest, 8 forms of base URL, and 17 replies over 8 statuses; bodies that are not objects, unions of requests and requests of optional properties in full; sent over real HTTP on loopback',
  assumptions: ['superagent/supertest, node http and express.json are trusted', 'a path segment "", "." or ".." and arrays of fewer than two query values cannot be expressed in a URL and are excluded', 'header values are the visible ASCII that HTTP allows'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const T = b.require('io-ts-types');
    const h = b.pkg('io-ts-http');
    const express = b.require('express');
    const ter = b.pkg('typed-express-router');
    const w = b.pkg('express-wrapper');
    const c11 = b.pkg('superagent-wrapper');
    const superagent = b.require('superagent');
    const supertest = b.require('supertest');

    const RESPONSE = {
      200: t.type({ id: T.NumberFromString, d: T.DateFromISOString, o: h.optional(t.string) }),
      201: t.boolean, 202: t.number, 203: t.union([t.string, t.null]), 400: t.string, 404: t.array(t.unknown), 409: h.optionalized({ a: h.optional(t.number) }), 500: t.type({ message: t.string }),
    };
    const D = new Date(86400000);
    const REPLIES = [
      [200, { id: 5, d: D, o: 'x' }], [200, { id: -0.5, d: D, o: undefined }],
      [201, true], [201, false], [202, 0], [202, 7], [203, null], [203, 'null'], [203, ''], [400, 'bad'], [400, ''], [400, 'false'], [404, []], [404, [null, 0, 'x', { y: [] }]], [409, {}], [409, { a: undefined }, {}], [500, { message: 'é"\\\u2028' }],
    ];
    const params = { id: T.NumberFromString, name: t.string };
    const query = { q: t.string, n: h.optional(T.NumberFromString), list: h.optional(t.array(t.string)), flag: h.optional(T.BooleanFromString) };
    const headers = { 'x-req': t.string, 'x-opt': h.optional(t.string), 'x-num': h.optional(T.NumberFromString) };
    const body = { b: T.NumberFromString, s: t.string, nested: t.type({ list: t.array(T.NumberFromString) }), nul: t.union([t.string, t.null]), opt: h.optional(t.union([t.boolean, t.number])) };
    const spec = { 'r.t': {}, 'plain': {} };
    for (const m of METHODS) {
      spec['r.t'][m] = h.httpRoute({ path: '/r/{id}/s/{name}', method: m.toUpperCase(), request: h.httpRequest(m === 'get' ? { params, query, headers } : { params, query, headers, body }), response: RESPONSE });
    }
    spec.plain.get = h.httpRoute({ path: '/plain', method: 'GET', request: h.httpRequest({}), response: RESPONSE });
    spec.plain.delete = h.httpRoute({ path: '/{name}/x/{id}/{name}', method: 'DELETE', request: h.httpRequest({ params }), response: RESPONSE });

    const STR = ['plain', 'a/b', 'a b', 'caf\u00e9', '\ud83d\ude00', 'a?b', 'a#b', '100%', '%41', '%2F', '$&', "$'", '{id}', '{name}', 'a+b', '..x', '...', 'a;b', 'a"b', "a'b", 'a:b', 'a@b', 'a\\b', 'a&b=c', 'a,b', '[x]', '~', '\u2028', 'id', '-'];
    const QSTR = [...STR, '', '.', '..', '/', 'null', 'undefined', '0'];
    const BSTR = [...QSTR, '\u0000', '"', '\n'];
    const HSTR = ['plain', 'with space', 'a,b', 'a;b="c"', '%41', '0', '~!@#$^&*()'];
    const NUM = [5, 0, -1, 1.5, 1e21];
    const ABSENT = Symbol('absent');
    const TABLE = {
      id: NUM, name: STR, q: QSTR, n: [ABSENT, 7, 0, undefined], list: [ABSENT, ['a', 'b'], ['a,b', 'c&d', 'e=f'], ['', 'x'], undefined], flag: [ABSENT, true, false],
      'x-req': HSTR, 'x-opt': [ABSENT, ...HSTR, undefined], 'x-num': [ABSENT, 3, 0], b: NUM, s: BSTR, nested: [{ list: [1, 2] }, { list: [] }, { list: [0] }], nul: ['x', null, ''], opt: [ABSENT, true, false, 0, undefined],
    };

    // --- servers, one per package and mount point, started on first use
    let current;
    const seen = [];
    const servers = {};
    function build(kind, mount) {
      const app = express(); app.use(express.json());
      let router;
      if (kind === 0) {
        router = ter.createRouter(spec);
        for (const api of Object.keys(spec)) for (const m of Object.keys(spec[api])) router[m](api, [(req, res) => { seen.push([req.apiName, m, req.decoded]); res.sendEncoded(current[0], current[1]); }]);
      } else {
        const handlers = {};
        for (const api of Object.keys(spec)) { handlers[api] = {}; for (const m of Object.keys(spec[api])) handlers[api][m] = async (input) => { seen.push([api, m, input]); return { type: current[0], payload: current[1] }; }; }
        router = w.routerForApiSpec({ spec, routeHandlers: handlers });
      }
      if (mount) app.use(mount, router); else app.use(router);
      return new Promise((r) => { const s = http.createServer(app); s.listen(0, '127.0.0.1', () => { s.unref(); r(s.address().port); }); });
    }
    const BASES = [['/', ''], ['', ''], ['/base', '/base'], ['/base/', '/base'], ['/ba%20se/v1', '/ba%20se/v1'], ['/?trace=1', ''], ['/base?trace=1&x', '/base'], ['?trace=1', '']];

    async function run(c) {
      const target = c.choose(3, 'route', { free: true }); // 0 r.t, 1 plain get, 2 repeated parameter
      const kind = c.choose(2, 'server', { free: true });
      const method = target === 0 ? c.pick(METHODS, 'method') : target === 1 ? 'get' : 'delete';
      const api = target === 0 ? 'r.t' : 'plain';
      const viaSupertest = c.flag('supertest');
      const [base, mount] = viaSupertest ? BASES[0] : c.pick(BASES, 'base');
      const props = target === 1 ? [] : target === 2 ? ['id', 'name'] : Object.keys(TABLE).filter((k) => method !== 'get' || !(k in body));
      const input = {}, expected = {};
      for (const p of props) { const v = c.pick(TABLE[p], p); if (v === ABSENT) continue; input[p] = v; if (v !== undefined) expected[p] = v; }
      current = c.pick(REPLIES, 'reply');
      const [status, payload, payloadSeen = payload] = current;
      const sk = kind + mount;
      const port = await (servers[sk] = servers[sk] || build(kind, mount));
      seen.length = 0;
      const url = `http://127.0.0.1:${port}`;
      const factory = viaSupertest ? c11.supertestRequestFactory(supertest(url)) : c11.superagentRequestFactory(superagent, url + base);
      const client = c11.buildApiClient(factory, spec);
      let got, error;
      try { got = await client[api][method](input).timeout(5000).decode(); } catch (e) { error = e; }
      const key = (p) => () => `${p}:${c.trail().filter((s) => !/=0$/.test(s)).slice(0, 12).join(',')}`;
      const detail = () => ({ sent: input, seen, got: got && { status: got.status, body: got.body, error: got.error }, error: error && String(error) });
      c.observe(show([seen, got && [got.status, got.body]]));
      c.check(!error, () => `rejected:${diffKey(c)}`, 'the request was rejected', detail);
      c.check(seen.length === 1 && seen[0][0] === api && seen[0][1] === method, () => `dispatch:${diffKey(c)}`, 'the request did not reach exactly its own route', detail);
      c.check(same(seen[0][2], expected), () => `request:${diffKey(c)}`, 'the server decoded something else than what the client was given', detail);
      c.check(got.status === status && got.original.status === status && got.error === undefined, () => `status:${diffKey(c)}`, `the client saw ${got.status}, the server sent ${status}`, detail);
      c.check(same(got.body, payloadSeen), () => `body:${diffKey(c)}`, 'the client decoded something else than what the server was given', detail);
      void key;
    }
    // --- requests that httpRequest alone cannot express: bodies that are no objects, unions of requests
    const BODIES = {
      string: [t.string, ['x', '', '"', '{"a":1}', 'null', '0', '\u2028']], number: [t.number, [5, 0, -1.5]], boolean: [t.boolean, [true, false]], null: [t.null, [null]], nullable: [t.union([t.string, t.null]), ['x', null, '']],
      array: [t.array(T.NumberFromString), [[1, 2], [], [0]]], record: [t.record(t.string, t.number), [{ a: 1 }, {}]], unknown: [t.unknown, [null, 0, '', [], { a: [null] }]], numberFromString: [T.NumberFromString, [5, 0]], booleanFromString: [T.BooleanFromString, [true, false]],
    };
    const U = t.union([h.httpRequest({ query: { type: t.literal('ping') } }), h.httpRequest({ query: { type: t.literal('message'), message: t.string }, headers: { 'x-n': T.NumberFromString } }), h.httpRequest({ query: { type: t.literal('sum') }, body: { list: t.array(T.NumberFromString) } })]);
    const UNION_INPUTS = [{ type: 'ping' }, { type: 'message', message: '', 'x-n': 0 }, { type: 'message', message: 'a&b', 'x-n': 2.5 }, { type: 'sum', list: [] }, { type: 'sum', list: [1, 0] }];
    const spec2 = { union: {}, opt: {} };
    for (const m of METHODS) if (m !== 'get') {
      for (const k of Object.keys(BODIES)) {
        (spec2[k] = spec2[k] || {})[m] = h.httpRoute({ path: `/${k}/{id}`, method: m.toUpperCase(), request: t.intersection([h.httpRequest({ params: { id: T.NumberFromString }, query: { q: h.optional(t.string) } }), t.type({ body: BODIES[k][0] })]), response: { 200: t.string } });
      }
      spec2.union[m] = h.httpRoute({ path: '/union', method: m.toUpperCase(), request: U, response: { 200: t.string } });
      spec2.opt[m] = h.httpRoute({ path: '/opt', method: m.toUpperCase(), request: h.httpRequest({ query: { q: h.optional(t.string) }, body: { a: h.optional(t.string), n: h.optional(t.number) } }), response: { 200: t.string } });
    }
    const servers2 = [];
    function build2(kind) {
      const app = express(); app.use(express.json({ strict: false }));
      const handlers = {};
      const router = kind === 0 ? ter.createRouter(spec2) : undefined;
      for (const api of Object.keys(spec2)) {
        handlers[api] = {};
        for (const m of Object.keys(spec2[api])) {
          if (router) router[m](api, [(req, res) => { seen.push([req.apiName, m, req.decoded]); res.sendEncoded(200, 'done'); }]);
          else handlers[api][m] = async (input) => { seen.push([api, m, input]); return { type: 200, payload: 'done' }; };
        }
      }
      app.use(router || w.routerForApiSpec({ spec: spec2, routeHandlers: handlers }));
      return new Promise((r) => { const s = http.createServer(app); s.listen(0, '127.0.0.1', () => { s.unref(); r(s.address().port); }); });
    }
    async function advanced(c) {
      const kind = c.choose(2, 'server');
      const method = c.pick(METHODS.filter((m) => m !== 'get'), 'method');
      const viaSupertest = c.flag('supertest');
      const api = c.pick(Object.keys(spec2), 'api');
      let input;
      if (api === 'union') input = c.pick(UNION_INPUTS, 'input');
      else if (api === 'opt') { input = {}; for (const [p, vs] of [['q', ['x', '', undefined]], ['a', ['x', '', undefined]], ['n', [0, undefined]]]) { const v = c.pick([ABSENT, ...vs], p); if (v !== ABSENT) input[p] = v; } } else {
        input = { id: c.pick([5, 0], 'id'), body: c.pick(BODIES[api][1], 'body') };
        if (c.flag('q')) input.q = '';
      }
      const port = await (servers2[kind] = servers2[kind] || build2(kind));
      seen.length = 0;
      const url = `http://127.0.0.1:${port}`;
      const client = c11.buildApiClient(viaSupertest ? c11.supertestRequestFactory(supertest(url)) : c11.superagentRequestFactory(superagent, url), spec2);
      let got, error;
      try { got = await client[api][method](input).timeout(5000).decode(); } catch (e) { error = e; }
      // what an intersection with a plain object decodes to also has every other part of the request
      const decoded = seen[0] && (api in BODIES ? Object.fromEntries(['id', 'q', 'body'].filter((k) => seen[0][2][k] !== undefined).map((k) => [k, seen[0][2][k]])) : seen[0][2]);
      const want = Object.fromEntries(Object.entries(input).filter(([, v]) => v !== undefined));
      const detail = () => ({ sent: input, decoded, got: got && [got.status, got.body, got.error], error: error && String(error) });
      const key = (x) => () => `advanced-${x}:${api}:${show(input)}`;
      c.observe(show([api, decoded, got && got.status]));
      c.check(!error && seen.length === 1 && seen[0][0] === api && seen[0][1] === method, key('dispatch'), 'the request did not reach exactly its own route', detail);
      c.check(same(decoded, want), key('request'), 'the server decoded something else than what the client was given', detail);
      c.check(got.status === 200 && got.body === 'done', key('response'), 'the client did not see what the server sent', detail);
    }
    const diffKey = (c) => { const tr = c.trail(); return c.choices.map((v, i) => [v, i]).filter(([v, i]) => v && i > 1).map(([v, i]) => tr[i]).join(','); };
    return [{ name: 'round-trip', deviations: tier === 'thorough' ? 3 : 2, shards: [3, 2], run, what: 'one request from a generated client to a server for the same spec' },
      { name: 'advanced', shards: [2, 4], run: advanced, what: 'requests that are intersections with a body of any JSON type, unions of requests, and requests whose every property is optional' },
    ];
  },
};
