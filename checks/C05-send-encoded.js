'use strict';
const { show, same } = require('../lib/explore');
const { inject, settle, tick } = require('../lib/http');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

module.exports = {
  id: 'C05',
  bounds: 'up to 5 (thorough 6) deviations among: method, checked/unchecked route, where the reply is sent from (handler, router middleware, later turn of the event loop), 2 replies per request, 13 statuses x 12 payloads, response hook / error formatter / error status at router and route level, hooks that throw, wrapped/created router; and every history of 3 (thorough 4) replies over two routes with reused payload objects',
  assumptions: ['express, JSON serialisation and io-ts leaf codecs are trusted', 'numeric statuses are passed as numbers and names as strings, as the types require'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const { NumberFromString } = b.require('io-ts-types');
    const E = b.require('fp-ts/Either');
    const h = b.pkg('io-ts-http');
    const express = b.require('express');
    const ter = b.pkg('typed-express-router');

    const throwing = new t.Type('throwing', (u) => typeof u === 'object' && u !== null && u.boom === true, (u, c) => t.success(u), () => { throw new Error('encode failed'); });
    const RESPONSE = {
      200: t.type({ n: NumberFromString }),
      201: t.union([t.type({ s: t.string }), t.null]),
      404: h.optionalized({ a: t.union([t.string, t.undefined]), m: t.number }),
      500: t.string,
      503: throwing,
      207: t.bigint,
      // by name
      created: t.array(t.number),
      invalidRequest: t.type({ n: NumberFromString }),
      notAStatus: t.string,
      accepted: undefined,
    };
    const CODE = { 200: 200, 201: 201, 404: 404, 500: 500, 503: 503, 207: 207, created: 201, invalidRequest: 400 };
    const STATUSES = [200, 201, 404, 500, 503, 207, 'created', 'invalidRequest', 'notAStatus', 'accepted', 'ok', 202, 'toString'];
    const big = typeof BigInt === 'function' ? BigInt(5) : 5;
    // payload, and what goes on the wire under each status that accepts it
    const PAYLOADS = [
      [{ n: 5 }, { 200: { n: '5' }, invalidRequest: { n: '5' } }],
      [{ n: '5' }, {}],
      [{ s: 'x' }, { 201: { s: 'x' } }],
      [null, { 201: null }],
      [{ a: undefined, m: 1 }, { 404: { m: 1 } }],
      [{ a: 'q', m: 0 }, { 404: { a: 'q', m: 0 } }],
      ['', { 500: '' }],
      ['text', { 500: 'text' }],
      [[1, 2], { created: [1, 2] }],
      [undefined, {}],
      [{ boom: true }, {}],
      [big, {}],
    ];

    async function run(c) {
      const method = c.pick(METHODS, 'method');
      const checked = c.choose(2, 'unchecked') === 0;
      const where = c.choose(3, 'from'); // 0 handler, 1 router middleware, 2 later turn
      const wrapped = c.flag('wrapRouter');
      const log = [];
      const mk = (level) => {
        const o = {};
        const hook = c.choose(3, `${level}-afterSent`);
        if (hook) o.afterEncodedResponseSent = (status, payload, req, res) => { log.push(['sent', level, status, payload, req, res]); if (hook === 2) throw new Error('hook failed'); };
        if (c.flag(`${level}-formatter`)) o.encodeErrorFormatter = (err, req) => { log.push(['format', level, err, req]); return { by: level }; };
        if (c.flag(`${level}-status`)) o.getEncodeErrorStatusCode = (err, req) => { log.push(['status', level, err, req]); return level === 'router' ? 555 : 566; };
        return o;
      };
      const routerOpts = mk('router');
      const routeOpts = mk('route');
      const sends = [[c.pick(STATUSES, 'status'), c.pick(PAYLOADS, 'payload')]];
      if (c.flag('second-reply')) sends.push([c.pick(STATUSES, 'status2'), c.pick(PAYLOADS, 'payload2')]);
      const spec = { 'my.api': { [method]: h.httpRoute({ path: '/r', method: method.toUpperCase(), request: h.httpRequest({}), response: RESPONSE }) } };
      const escaped = [];
      let theRes;
      const reply = (req, res) => {
        theRes = res;
        for (const [s, [p]] of sends) {
          const before = log.length;
          try { res.sendEncoded(s, p); } catch (e) { escaped.push(e); }
          log.push(['done', before]);
        }
      };
      const later = async (req, res) => { await tick(); reply(req, res); };
      const tr = wrapped ? ter.wrapRouter(express.Router(), spec, routerOpts) : ter.createRouter(spec, routerOpts);
      if (where === 1) tr.use(reply);
      tr[method + (checked ? '' : 'Unchecked')]('my.api', [where === 2 ? later : reply], Object.keys(routeOpts).length ? routeOpts : undefined);
      const app = express(); app.use(tr);
      const x = inject(app, { method: method.toUpperCase(), url: '/r' }).start();
      await settle(x);
      const res = x.res();

      const [status, [payload, table]] = sends[0];
      const ok = Object.prototype.hasOwnProperty.call(table, status);
      const pickLevel = (k) => (routeOpts[k] ? 'route' : routerOpts[k] ? 'router' : undefined);
      const sent = log.filter((l) => l[0] === 'sent');
      const fmt = log.filter((l) => l[0] === 'format' || l[0] === 'status');
      c.observe(show([res && [res.status, res.text], sent.map((l) => [l[1], l[2]]), fmt.map((l) => [l[0], l[1]]), escaped.length]));
      const key = (p) => () => `${p}:${show(status)}:${show(payload)}:${c.trail().filter((s) => !/=0$/.test(s)).join(',')}`;
      const detail = () => ({ response: res && [res.status, res.text], hooks: log.filter((l) => l[0] !== 'done').map((l) => l.slice(0, 3)), escaped: escaped.map(String), thrown: x.thrown });
      c.check(res && res.responses === 1 && !x.thrown && !x.fallthrough, key('response'), 'expected exactly one response', detail);
      if (ok) {
        c.check(res.status === CODE[status], key('status'), `status ${res.status} for sendEncoded(${status}, …)`, detail);
        c.check(res.text === JSON.stringify(table[status]), key('body'), `body ${res.text}, expected ${JSON.stringify(table[status])}`, detail);
        c.check(/application\/json/.test(res.headers['content-type'] || ''), key('type'), 'not sent as JSON', detail);
        const lvl = pickLevel('afterEncodedResponseSent');
        c.check(sent.length === (lvl ? 1 : 0), key('hook'), `the response hook ran ${sent.length} times`, detail);
        if (lvl) c.check(sent[0][1] === lvl && sent[0][2] === CODE[status] && sent[0][3] === payload && sent[0][4] === x.req && sent[0][5] === theRes, key('hook-args'), 'the response hook got the wrong arguments', detail);
        // encode-error hooks belong to replies that cannot be encoded
        const first = log.findIndex((l) => l[0] === 'done');
        c.check(!log.slice(0, first).some((l) => l[0] === 'format' || l[0] === 'status'), key('error-hook'), 'an encode-error hook ran for a reply that was encoded and sent', detail);
      } else {
        const sl = pickLevel('getEncodeErrorStatusCode'), fl = pickLevel('encodeErrorFormatter');
        c.check(res.status === (sl === 'route' ? 566 : sl === 'router' ? 555 : 500), key('error-status'), `encode error went out as ${res.status}`, detail);
        c.check(same(res.json, fl ? { by: fl } : {}), key('error-body'), `encode error body ${res.text}`, detail);
        c.check(sent.length === 0, key('hook-on-error'), 'the response hook ran although no encoded response was sent', detail);
        c.check(fmt.every((l) => l[2] !== undefined && l[3] === x.req && l[1] === (l[0] === 'format' ? fl : sl)), key('error-hook-args'), 'an encode-error hook got the wrong arguments or the wrong one ran', detail);
      }
    }
    // ---- histories: replies over several requests to one router, reusing (and changing) payload objects
    const same2 = () => t.type({ n: t.number });
    const HSPEC = { 'h.one': { get: h.httpRoute({ path: '/one', method: 'GET', request: h.httpRequest({}), response: { 200: same2(), 201: t.type({ n: NumberFromString }), 202: t.type({ n: t.string }) } }) }, 'h.two': { get: h.httpRoute({ path: '/two', method: 'GET', request: h.httpRequest({}), response: { 200: t.type({ n: NumberFromString }), 202: t.type({ n: t.union([t.string, t.number]) }) } }) } };
    const ENC = { 'h.one': { 200: ['number', (v) => v], 201: ['number', String], 202: ['string', (v) => v] }, 'h.two': { 200: ['number', String], 202: ['any', (v) => v] } };
    async function history(c) {
      const steps = tier === 'thorough' ? 4 : 3;
      const sent = [];
      const tr = ter.createRouter(HSPEC, { afterEncodedResponseSent: (status, payload) => sent.push([status, payload]), encodeErrorFormatter: () => ({ enc: 1 }) });
      let next;
      const viaRoute = c.flag('route-options');
      for (const api of ['h.one', 'h.two']) tr.get(api, [(req, res) => res.sendEncoded(next.status, next.payload)], viaRoute ? { getEncodeErrorStatusCode: () => 577 } : undefined);
      const app = express(); app.use(tr);
      const shared = { n: 1 };
      const trace = [];
      for (let i = 0; i < steps; i++) {
        const api = c.pick(['h.one', 'h.two'], 'api');
        const status = c.pick([200, 201, 202], 'status');
        const n = c.pick([1, 'secret', 2], 'value');
        const fresh = c.flag('fresh-object');
        let payload = shared;
        if (fresh) payload = { n }; else shared.n = n;
        next = { status, payload };
        trace.push([api, status, n, fresh]);
        sent.length = 0;
        const x = inject(app, { url: api === 'h.one' ? '/one' : '/two' }).start(); await settle(x);
        const res = x.res();
        const e = ENC[api][status];
        const ok = e && (e[0] === 'any' || typeof n === e[0]);
        c.observe(show([res && res.status, res && res.text]));
        const key = () => `history:${show(trace)}`;
        c.check(res && res.responses === 1, key, 'not exactly one response');
        if (ok) {
          c.check(res.status === status && same(res.json, { n: e[1](n) }), key, `reply ${i} went out as ${res.status} ${res.text}`);
          c.check(sent.length === 1 && sent[0][0] === status && sent[0][1] === payload, key, 'the response hook did not run once with the payload', () => sent);
        } else {
          c.check(res.status === (viaRoute ? 577 : 500) && same(res.json, { enc: 1 }) && sent.length === 0, key, `an unacceptable payload was answered ${res.status} ${res.text}`);
        }
      }
    }
    return [{ name: 'history', shards: [2, 2, 3], run: history, what: 'every sequence of replies over several requests to one router, with payload objects reused and changed' }, { name: 'reply', deviations: tier === 'thorough' ? 5 : 4, shards: [5, 2, 3], run, what: 'replies of one request' }];
  },
};
