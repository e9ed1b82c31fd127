'use strict';
const Module = require('module');
const { show, same } = require('../lib/explore');
const { inject, settle, tick } = require('../lib/http');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const A = { op: 'api_ts.operation_id', method: 'api_ts.method', path: 'api_ts.path', status: 'api_ts.status_code' };

module.exports = {
  id: 'C07',
  bounds: 'up to 4 (thorough 5) deviations among: method, checked/unchecked, request that decodes / does not / whose codec throws, router middleware that continues, throws or answers, reply by sendEncoded with valid, invalid, undeclared or unencodable payload or by plain json, second reply, custom, throwing, circular and undefined results of decode and encode error hooks, codecs that throw values without a text and response hook; every execution repeated with tracing absent',
  assumptions: ['the OpenTelemetry API package and express are trusted; spans are recorded by a tracer provider registered through that API'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const { NumberFromString } = b.require('io-ts-types');
    const h = b.pkg('io-ts-http');
    const express = b.require('express');
    // --- a recording tracer behind the real OpenTelemetry API
    const api = b.require('@opentelemetry/api');
    let spans = [];
    const tracer = { startSpan(name) {
      const s = { name, ended: 0, attributes: {}, exceptions: 0, status: undefined, late: 0 };
      const guard = (f) => (...a) => { if (s.ended) s.late++; f(...a); return span; };
      const span = { end() { s.ended++; }, setAttributes: guard((o) => Object.assign(s.attributes, o)), setAttribute: guard((k, v) => { s.attributes[k] = v; }), recordException: guard(() => { s.exceptions++; }), setStatus: guard((x) => { s.status = x.code; }), addEvent: guard(() => {}), updateName: guard(() => {}), isRecording: () => true, spanContext: () => ({ traceId: '0', spanId: '0', traceFlags: 0 }) };
      spans.push(s);
      return span;
    }, startActiveSpan(name, ...r) { return r[r.length - 1](tracer.startSpan(name)); } };
    api.trace.disable();
    api.trace.setGlobalTracerProvider({ getTracer: () => tracer });
    b.fresh();
    const traced = b.pkg('typed-express-router');
    b.fresh();
    const orig = Module._resolveFilename;
    Module._resolveFilename = function (request, ...r) { if (request === '@opentelemetry/api') { const e = new Error('Cannot find module'); e.code = 'MODULE_NOT_FOUND'; throw e; } return orig.call(this, request, ...r); };
    let untraced;
    try { untraced = b.pkg('typed-express-router'); } finally { Module._resolveFilename = orig; }

    const boomCodec = new t.Type('boom', t.any.is, (u, c) => { if (u.query.boom) throw new Error('decode blew up'); return t.success({}); }, t.identity);
    const badEncode = new t.Type('bad', t.any.is, (u) => t.success(u), () => { throw new Error('encode failed'); });
    const odd = (what) => new t.Type('odd', t.any.is, (u) => t.success(u), () => { throw what; });
    const circular = {}; circular.self = circular;
    const RESPONSE = { 200: t.type({ n: NumberFromString }), invalidRequest: t.string, weird: t.string, 503: badEncode, 504: odd(Object.create(null)), 505: odd(undefined) };
    const REPLIES = [
      { s: 200, p: { n: 1 }, code: 200, ok: true }, { s: 'invalidRequest', p: 'x', code: 400, ok: true },
      { s: 200, p: 'no', ok: false }, { s: 418, p: 1, ok: false }, { s: 'weird', p: 'x', ok: false }, { s: 503, p: 1, ok: false }, ...[504, 505].map((s) => ({ s, p: 1, ok: false })),
      { json: true },
    ];

    async function once(ter, cfg) {
      const { method, checked, input, mws, replies, router, route, wrapped, unwind } = cfg;
      spans = [];
      const caught = [];
      const mkOpts = (level, o) => {
        const r = {};
        const f = (kind, value) => () => { if (kind === 2) throw new Error(`${level} hook failed`); return kind === 3 ? circular : kind === 4 ? undefined : value; };
        if (o.dfmt) r.decodeErrorFormatter = f(o.dfmt, { bad: level });
        if (o.dstatus) r.getDecodeErrorStatusCode = f(o.dstatus, level === 'route' ? 418 : 422);
        if (o.efmt) r.encodeErrorFormatter = f(o.efmt, { ebad: level });
        if (o.estatus) r.getEncodeErrorStatusCode = f(o.estatus, level === 'route' ? 566 : 555);
        if (o.after) r.afterEncodedResponseSent = f(o.after);
        return r;
      };
      const spec = { 'my.api': { [method]: h.httpRoute({ path: '/r/{id}', method: method.toUpperCase(), request: input === 2 ? boomCodec : h.httpRequest({ params: { id: NumberFromString } }), response: RESPONSE }) } };
      const tr = wrapped ? ter.wrapRouter(express.Router(), spec, mkOpts('router', router)) : ter.createRouter(spec, mkOpts('router', router));
      let handlerRan = 0;
      for (const m of mws) tr.use((req, res, next) => { if (m === 0) next(); else if (m === 1) throw new Error('mw'); else res.status(299).json('mw'); });
      const ro = mkOpts('route', route);
      tr[method + (checked ? '' : 'Unchecked')]('my.api', [async (req, res, next) => {
        handlerRan++;
        for (const r of replies) {
          if (unwind) await tick();
          try { if (r.json) res.status(202).json('plain'); else res.sendEncoded(r.s, r.p); } catch (e) { caught.push(String(e && e.message)); }
        }
      }], Object.keys(ro).length ? ro : undefined);
      const app = express(); app.use(tr);
      const x = inject(app, { method: method.toUpperCase(), url: `/r/${input === 1 ? 'abc' : '5'}${input === 2 ? '?boom=1' : ''}` }).start();
      await settle(x, 12);
      const res = x.res();
      return { outcome: [res && [res.responses, res.status, res.text], x.fallthrough, x.fallthroughErrors.map((e) => String(e && e.message)), x.thrown && String(x.thrown), handlerRan, caught], spans, handlerRan, res };
    }

    async function run(c) {
      const cfg = { method: c.pick(METHODS, 'method'), checked: c.choose(2, 'unchecked') === 0, input: c.choose(3, 'input'), wrapped: c.flag('wrapRouter'), mws: [], replies: [], router: {}, route: {} };
      cfg.unwind = c.flag('later');
      const nm = c.choose(3, 'middlewares'); for (let i = 0; i < nm; i++) cfg.mws.push(c.choose(3, `mw${i}`));
      for (const l of ['router', 'route']) for (const k of ['dfmt', 'dstatus', 'efmt', 'estatus', 'after']) { const v = c.choose(k === 'dfmt' || k === 'efmt' ? 5 : 3, `${l}-${k}`); if (v) cfg[l][k] = v; }
      const nr = [1, 2, 0][c.choose(3, 'replies')]; for (let i = 0; i < nr; i++) cfg.replies.push(c.pick(REPLIES, `reply${i}`));
      const a = await once(traced, cfg);
      const u = await once(untraced, cfg);
      c.observe(show([a.outcome, a.spans]));
      const key = (p) => () => `${p}:${c.trail().filter((s) => !/=0$/.test(s)).join(',')}`;
      const detail = () => ({ spans: a.spans, traced: a.outcome, untraced: u.outcome });
      c.check(u.spans.length === 0, key('untraced-spans'), 'spans without the tracing package', detail);
      c.check(same(a.outcome, u.outcome), key('transparent'), 'tracing changed what the client or the handlers see', detail);
      const decode = a.spans.filter((s) => s.name === 'typed-express-router.decode');
      const encode = a.spans.filter((s) => s.name === 'typed-express-router.encode');
      c.check(decode.length === 1 && decode.length + encode.length === a.spans.length, key('decode-count'), `${decode.length} decode spans for one request`, detail);
      const sends = a.handlerRan ? cfg.replies.filter((r) => !r.json) : [];
      c.check(encode.length === sends.length, key('encode-count'), `${encode.length} encode spans for ${sends.length} encoded replies`, detail);
      for (const s of a.spans) {
        c.check(s.ended === 1, key('ended'), `span ${s.name} was ended ${s.ended} times`, detail);
        c.check(s.late === 0, key('late'), `span ${s.name} was modified after it ended`, detail);
        c.check(s.attributes[A.op] === 'my.api' && s.attributes[A.method] === cfg.method.toUpperCase() && s.attributes[A.path] === '/r/{id}', key('attributes'), 'wrong operation attributes', detail);
      }
      const lvl = (k) => (cfg.route[k] ? ['route', cfg.route[k]] : cfg.router[k] ? ['router', cfg.router[k]] : [undefined, 1]);
      // decode span
      const d = decode[0];
      if (cfg.input === 0) c.check(d.status !== api.SpanStatusCode.ERROR && d.exceptions === 0 && !(A.status in d.attributes), key('decode-ok'), 'a request that decodes was recorded as an error', detail);
      else if (cfg.input === 1) {
        const [fl, fk] = lvl('dfmt'), [sl, sk] = lvl('dstatus');
        if (fk !== 2 && sk === 1) {
          const want = sl === 'route' ? 418 : sl === 'router' ? 422 : 400;
          c.check(d.status === api.SpanStatusCode.ERROR && d.exceptions === 1 && d.attributes[A.status] === want, key('decode-error'), 'a request that does not decode is not recorded with its error and status', detail);
          if (cfg.checked && a.res && !cfg.mws.includes(2) && !cfg.mws.includes(1)) c.check(a.res.status === want, key('decode-status'), 'the recorded status is not the one sent', detail);
        }
      }
      // encode spans, in order; the first reply decides the response
      sends.forEach((r, i) => {
        const s = encode[i];
        if (i === 0 && cfg.replies[0] === r) {
          if (r.ok) c.check(s.status !== api.SpanStatusCode.ERROR && s.exceptions === 0 && s.attributes[A.status] === r.code, key('encode-ok'), 'a reply that was encoded and sent is recorded as something else', detail);
          else {
            const [fl, fk] = lvl('efmt'), [sl, sk] = lvl('estatus');
            if (fk === 1 && sk === 1) {
              const want = sl === 'route' ? 566 : sl === 'router' ? 555 : 500;
              c.check(s.status === api.SpanStatusCode.ERROR && s.exceptions === 1 && s.attributes[A.status] === want && a.res && a.res.status === want, key('encode-error'), 'a reply that cannot be encoded is not recorded with its error and the status sent', detail);
            }
          }
        }
      });
    }
    return [{ name: 'spans', deviations: tier === 'thorough' ? 5 : 4, shards: [5, 2, 3], run, what: 'one request against one configured route, traced and untraced' }];
  },
};
