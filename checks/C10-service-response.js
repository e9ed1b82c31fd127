'use strict';
const { show, same } = require('../lib/explore');
const { inject, settle, tick } = require('../lib/http');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

module.exports = {
  id: 'C10',
  bounds: 'every route of a 2-api, 7-route spec x up to 4 (thorough 5) deviations among: 32 service results (numeric/named/unknown statuses, payloads that encode or not, throwing, rejecting, returning nothing), immediate or asynchronous, 4 handler forms, request that decodes or not, createServer or routerForApiSpec with custom decode-error hooks / response encoder, a status set by middleware beforehand',
  assumptions: ['express and io-ts leaf codecs are trusted', 'response codecs are declared by number, as the result types require'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const { NumberFromString } = b.require('io-ts-types');
    const h = b.pkg('io-ts-http');
    const r = b.pkg('response');
    const express = b.require('express');
    const w = b.pkg('express-wrapper');
    const throwing = new t.Type('throwing', (u) => true, (u) => t.success(u), () => { throw new Error('encode failed'); });
    const RESPONSE = { 200: t.type({ n: NumberFromString }), 201: t.union([t.string, t.null]), 400: t.string, 404: h.optionalized({ a: t.union([t.string, t.undefined]), m: t.number }), 503: throwing, 207: t.bigint };
    const boom = new Error('boom');
    const E5 = { error: true };
    // what the service does; what the client must see
    const RESULTS = [
      { name: '200', v: () => ({ type: 200, payload: { n: 5 } }), want: [200, '{"n":"5"}'] },
      { name: 'ok', v: () => ({ type: 'ok', payload: { n: 5 } }), want: [200, '{"n":"5"}'] },
      { name: 'Response.ok', v: () => r.Response.ok({ n: 6 }), want: [200, '{"n":"6"}'] },
      { name: 'KeyedResponse.ok', v: () => r.KeyedResponse.ok({ n: 7 }), want: [200, '{"n":"7"}'] },
      { name: 'throws', v: () => { throw boom; }, want: E5 },
      { name: 'unknown code', v: () => ({ type: 299, payload: 'x' }), want: E5 },
      { name: 'undeclared code', v: () => ({ type: 202, payload: 'x' }), want: E5 },
      { name: '204 undeclared', v: () => ({ type: 204, payload: undefined }), want: E5 },
      { name: '304 undeclared', v: () => ({ type: 304, payload: 'x' }), want: E5 },
      { name: '302 undeclared', v: () => ({ type: 302, payload: null }), want: E5 },
      { name: '500 undeclared', v: () => ({ type: 500, payload: 'secret' }), want: E5, secret: true },
      { name: 'internalError undeclared', v: () => ({ type: 'internalError', payload: 'secret' }), want: E5, secret: true },
      { name: '503 undeclared payload', v: () => ({ type: 205, payload: 1 }), want: E5 },
      { name: 'undeclared name', v: () => ({ type: 'accepted', payload: 'x' }), want: E5 },
      { name: 'unknown name', v: () => ({ type: 'fine', payload: 'x' }), want: E5 },
      { name: 'inherited name', v: () => ({ type: 'toString', payload: 'x' }), want: E5 },
      { name: 'inherited name 2', v: () => ({ type: 'constructor', payload: 'x' }), want: E5 },
      { name: 'no type', v: () => ({ payload: 'x' }), want: E5 },
      { name: 'null type', v: () => ({ type: null, payload: 'x' }), want: E5 },
      { name: 'nothing', v: () => undefined, want: E5 },
      { name: 'null', v: () => null, want: E5 },
      { name: 'encode throws', v: () => ({ type: 503, payload: 1 }), want: E5 },
      { name: 'not JSON', v: () => ({ type: 207, payload: BigInt(1) }), want: E5 },
      { name: 'cannot encode', v: () => ({ type: 200, payload: undefined }), want: E5 },
      { name: 'created null', v: () => ({ type: 'created', payload: null }), want: [201, 'null'] },
      { name: '201 empty string', v: () => ({ type: 201, payload: '' }), want: [201, '""'] },
      { name: '404 optional', v: () => ({ type: 404, payload: { a: undefined, m: 0 } }), want: [404, '{"m":0}'] },
      { name: 'notFound', v: () => r.KeyedResponse.notFound({ a: 'q', m: 1 }), want: [404, '{"a":"q","m":1}'] },
      { name: 'invalidRequest', v: () => r.Response.invalidRequest('no'), want: [400, '"no"'] },
      { name: 'extra keys', v: () => ({ type: 'ok', payload: { n: 1 }, status: 418, code: 3 }), want: [200, '{"n":"1"}'] },
      { name: 'throws undefined', v: () => { throw undefined; }, want: E5 },
      { name: 'throws {status:200}', v: () => { throw { status: 200, statusCode: 204 }; }, want: E5 },
    ];
    const ROUTES = [['one', 'get'], ['one', 'post'], ['two', 'get'], ['two', 'put'], ['two', 'delete'], ['two', 'patch'], ['two', 'post']];
    const spec = { one: {}, two: {} };
    for (const [n, m] of ROUTES) spec[n][m] = h.httpRoute({ path: `/${n}/{id}`, method: m.toUpperCase(), request: h.httpRequest({ params: { id: NumberFromString }, query: { q: h.optional(t.string) } }), response: RESPONSE });
    // something that is no method must be ignored
    spec.one.description = 'not a route';

    async function run(c) {
      const [api, method] = c.pick(ROUTES, 'route', { free: true });
      const result = c.pick(RESULTS, 'result', { free: true });
      const when = c.choose(3, 'when'); // returned, promised, later
      const form = c.choose(5, 'form');
      const valid = c.choose(2, 'invalid-request') === 0;
      const server = c.choose(2, 'server');
      const custom = {};
      if (server) {
        if (c.flag('formatter')) custom.decodeErrorFormatter = (errs, req) => ({ mine: errs.length > 0 && req.apiName });
        if (c.flag('status')) custom.getDecodeErrorStatusCode = () => 422;
        if (c.flag('encoder')) custom.encoder = (route, response) => (req, res, next) => res.status(218).json({ enc: route === spec[api][method], response: response === undefined ? 'none' : String(response && response.type) });
      }
      const calls = [];
      const service = (name, m) => (input) => {
        calls.push([name, m, input]);
        if (when === 0) return result.v();
        return (async () => { if (when === 2) await tick(); return result.v(); })();
      };
      const mw = [(req, res, next) => { if (form === 4) res.status(202); next(); }];
      const wrap = (f) => [f, { middleware: mw, handler: f }, w.routeHandler({ handler: f }), w.routeHandler({ middleware: mw, handler: f }), w.routeHandler({ middleware: mw, handler: f })][form];
      const handlers = { one: {}, two: {} };
      for (const [n, m] of ROUTES) handlers[n][m] = wrap(service(n, m));
      let app;
      if (server) { app = express(); app.use(w.routerForApiSpec({ spec, routeHandlers: handlers, ...custom })); } else {
        let configured;
        app = w.createServer(spec, (a) => { configured = a; a.use((req, res, next) => { req.viaApp = true; next(); }); return handlers; });
        c.check(configured === app, 'configure', 'createServer did not hand out the application it returns');
      }
      let after = 0; app.use((req, res, next) => { after++; next(); });
      const x = inject(app, { method: method.toUpperCase(), url: `/${api}/${valid ? 5 : 'abc'}?q=w` }).start();
      await settle(x, 20); await tick();
      const res = x.res();
      c.observe(show(res && [res.status, res.text]));
      const key = (p) => () => `${p}:${result.name}:${c.trail().filter((s) => !/=0$/.test(s)).join(',')}`;
      const detail = () => ({ response: res && [res.status, res.text], want: result.want, calls, fallthrough: x.fallthroughErrors, thrown: x.thrown && x.thrown.stack });
      c.check(res && res.responses === 1 && !x.thrown && !x.fallthrough && !after, key('response'), 'expected exactly one response, from this route only', detail);
      if (!valid) {
        c.check(calls.length === 0, key('called'), 'the handler ran for a request that does not decode', detail);
        c.check(res.status === (custom.getDecodeErrorStatusCode ? 422 : 400), key('decode-status'), 'wrong decode-error status', detail);
        if (custom.decodeErrorFormatter) c.check(same(res.json, { mine: api }), key('decode-body'), 'wrong decode-error body', detail);
        else c.check(res.json && typeof res.json.error === 'string' && res.json.error.length > 0 && Object.keys(res.json).length === 1, key('decode-body'), 'wrong decode-error body', detail);
        return;
      }
      c.check(same(calls, [[api, method, { id: 5, q: 'w' }]]), key('calls'), 'the route did not run exactly its own handler, once, with the decoded request', detail);
      if (custom.encoder) {
        if (!/throws/.test(result.name) || result.name === 'encode throws') c.check(res.status === 218 && res.json && res.json.enc === true, key('encoder'), 'the custom response encoder was not used', detail);
        else c.check(res.status >= 500, key('error'), 'a failing handler was answered with a success', detail);
        return;
      }
      if (result.want === E5) { c.check(res.status === 500, key('error'), `expected a 500, got ${res.status}`, detail); if (result.secret) c.check(!/secret/.test(res.text), key('leak'), 'a payload without a codec was sent', detail); }
      else c.check(res.status === result.want[0] && res.text === result.want[1], key('answer'), `got ${res.status} ${res.text}`, detail);
    }
    return [{ name: 'results', deviations: tier === 'thorough' ? 6 : 4, shards: [7], run, what: 'one request to one route of the server' }];
  },
};
