'use strict';
const { show, same } = require('../lib/explore');
const { inject, settle } = require('../lib/http');

// The reference: what a path template accepts. Templates use {name} (specs) or
// :name (express aliases); one segment per parameter.
function match(template, url, { strict, caseSensitive }) {
  let u = url;
  if (!strict && u.length > 1 && u.endsWith('/')) u = u.slice(0, -1);
  const a = template.split('/'), b = u.split('/');
  if (a.length !== b.length) return undefined;
  const params = {};
  for (let i = 0; i < a.length; i++) {
    const m = /^(?:\{(\w+)\}|:(\w+)(?:\((.+)\))?)$/.exec(a[i]);
    if (m) { if (b[i] === '' || (m[3] && !new RegExp(`^(?:${m[3]})$`).test(b[i]))) return undefined; params[m[1] || m[2]] = decodeURIComponent(b[i]); }
    else if (caseSensitive ? a[i] !== b[i] : a[i].toLowerCase() !== b[i].toLowerCase()) return undefined;
  }
  return params;
}

module.exports = {
  id: 'C06',
  bounds: 'every registration history of up to 3 (thorough 4) operations over 12 (api, method) pairs on 7 overlapping path templates plus 2 plain express routes (8 pairs for 3 operations in the quick tier), with up to 2 deviations (1 for 3 operations; thorough 3, 1, and 0 for 4) among: aliases, unchecked, passing the request on, wrapped router, router options, mount point, second router, an explicitly undefined route; after each history every one of 22 URLs x 5 methods is requested; and every template of up to two (thorough three) of nine segments whose parameters may stand beside text or each other, with 11 pieces per segment',
  assumptions: ['express route matching for literal and :name segments is trusted; text of templates has none of the characters that express gives a meaning (:, *, (, ), ?, +, leading dots)'],
  scenarios(b, tier) {
    const t = b.require('io-ts');
    const h = b.pkg('io-ts-http');
    const express = b.require('express');
    const ter = b.pkg('typed-express-router');
    const TEMPLATES = { 'a': '/a', 'root.x': '/{x}', 'a/x': '/a/{x}', xb: '/{x}/b', xy: '/{x}/{y}', deep: '/a/{x}/b/{y}', digits: '/v1/{user_id2}/a' };
    const PAIRS = [['a', 'get'], ['root.x', 'get'], ['a/x', 'get'], ['xb', 'get'], ['xy', 'get'], ['a', 'post'], ['root.x', 'post'], ['a/x', 'put'], ['xb', 'delete'], ['xy', 'patch'], ['deep', 'get'], ['digits', 'delete']];
    const P = h.optional(t.string);
    const mkSpec = (suffix) => {
      const spec = {};
      for (const n of Object.keys(TEMPLATES)) spec[n] = {};
      for (const [n, m] of PAIRS) spec[n][m] = h.httpRoute({ path: TEMPLATES[n], method: m.toUpperCase(), request: h.httpRequest({ params: { x: P, y: P, user_id2: P, tenant: P } }), response: { 200: t.any } });
      spec.undef = { get: undefined };
      return spec;
    };
    const URLS = ['/a', '/b', '/a/b', '/b/b', '/a/a', '/q/w', '/a/q/b/w', '/v1/7/a', '/', '/A', '/a/', '/a/B', '/sp%20ace', '/x%2Fy', '/caf%C3%A9/b', '/al', '/al/q', '/z', '/a/b/c', '/{x}', '/w/12', '/w/123'];
    const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
    const ALIASES = [undefined, ['/al'], ['/al/:x', '/z'], [], ['/w/:x(\\d{2})']];

    const driver = (counts, pairs) => async function run(c) {
      const count = c.pick(counts, 'ops', { free: true });
      const ops = [];
      for (let i = 0; i < count; i++) {
        const k0 = c.choose(pairs + 2, `op${i}`, { free: true });
        const k = k0 < pairs ? k0 : k0 - pairs + PAIRS.length;
        if (k < PAIRS.length) ops.push({ api: PAIRS[k][0], method: PAIRS[k][1], aliases: c.pick(ALIASES, 'aliases'), unchecked: c.flag('unchecked'), pass: c.flag('pass'), router: 0 });
        else ops.push({ plain: true, method: 'get', template: k === PAIRS.length ? '/a' : '/:x/b', pass: c.flag('pass'), router: 0 });
      }
      if (count > 1 && c.flag('second-router')) ops[count - 1].router = 1;
      const wrapped = c.flag('wrapRouter');
      const routerOptions = c.pick([{}, { strict: true }, { caseSensitive: true }, { mergeParams: true }, { strict: true, caseSensitive: true, mergeParams: true }], 'options');
      const mount = c.pick(['', '/m', '/t/:tenant'], 'mount');
      const undef = c.choose(count + 2, 'undefined-route'); // before op undef-1
      const app = express();
      const specs = [mkSpec(0), mkSpec(1)];
      const raw = [express.Router(routerOptions), express.Router(routerOptions)];
      const routers = specs.map((s, i) => (wrapped ? ter.wrapRouter(raw[i], s, {}) : ter.createRouter(s, routerOptions)));
      const key = (p) => () => `${p}:${c.trail().filter((s) => !/=0$/.test(s)).join(',')}`;
      let log = [];
      const tryUndef = () => {
        const before = routers[0].stack.length;
        let threw = false;
        try { routers[0][c.flag('undef-unchecked') ? 'getUnchecked' : 'get']('undef', [(req, res) => res.status(299).end()], { routeAliases: ['/a'] }); } catch (e) { threw = true; }
        c.check(threw && routers[0].stack.length === before, key('undefined-route'), 'registering an explicitly undefined route did not throw, or left something behind');
      };
      ops.forEach((op, i) => {
        if (undef === i + 1) tryUndef();
        if (op.plain) {
          // a plain express registration: directly on the wrapped router's own express router
          const f = (req, res, next) => { log.push(['plain' + i, req.params.x]); if (op.pass) next(); else res.status(201).json('plain' + i); };
          if (wrapped) raw[op.router].get(op.template, f); else routers[op.router].route(op.template).get(f);
          return;
        }
        const f = (req, res, next) => {
          const d = op.unchecked ? (req.decoded && req.decoded._tag === 'Right' ? req.decoded.right : 'not-an-either') : req.decoded;
          log.push([i, req.apiName, req.httpRoute === specs[op.router][op.api][op.method], d]);
          if (op.pass) next(); else res.sendEncoded(200, { op: i });
        };
        routers[op.router][op.method + (op.unchecked ? 'Unchecked' : '')](op.api, [f], op.aliases ? { routeAliases: op.aliases } : undefined);
      });
      if (undef === count + 1) tryUndef();
      if (mount) { app.use(mount, routers[0]); app.use(mount, routers[1]); } else { app.use(routers[0]); app.use(routers[1]); }

      const outcomes = [];
      const sequence = [0, 1].flatMap((r) => ops.map((op, i) => ({ op, i })).filter(({ op }) => op.router === r));
      for (const url of URLS) for (const method of METHODS) {
        if (!ops.some((o) => o.method === method) && url !== '/a') continue;
        log = [];
        const full = mount.replace(':tenant', 'tt') + url;
        const x = inject(app, { method: method.toUpperCase(), url: full }).start();
        if (!x.ended) await settle(x);
        const res = x.res();
        const want = []; let answer;
        for (const { op, i } of sequence) {
          if (op.method !== method) continue;
          const templates = op.plain ? [op.template] : [TEMPLATES[op.api], ...(op.aliases || [])];
          for (const tm of templates) {
            const p = match(tm, url, routerOptions);
            if (!p) continue;
            if (op.plain) want.push(['plain' + i, p.x]);
            else want.push([i, op.api, true, { ...(mount.includes(':') && routerOptions.mergeParams ? { tenant: 'tt' } : {}), ...p }]);
            if (!op.pass) { answer = op.plain ? { status: 201, json: 'plain' + i } : { status: 200, json: { op: i } }; break; }
          }
          if (answer) break;
        }
        const detail = () => ({ request: [method, full], log, want, answer, response: res && [res.status, res.text], thrown: x.thrown, errors: x.fallthroughErrors });
        c.check(same(log, want), key('handlers'), `${method} ${full}: wrong handlers or wrong decoded request`, detail);
        if (answer) c.check(res && res.responses === 1 && res.status === answer.status && same(res.json, answer.json) && !x.fallthrough, key('answer'), `${method} ${full}: wrong response`, detail);
        else c.check(!res && x.fallthrough === 1 && x.fallthroughErrors.length === 0, key('fallthrough'), `${method} ${full}: expected the request to leave the routers untouched`, detail);
        outcomes.push(log.length ? log : 0);
      }
      c.observe(show(outcomes));
    };
    // templates whose parameters do not fill their segments
    const SEGMENTS = ['a', '{x}', '{x}-{y}', 'a{x}', '{x}a', '{x}.{y}', 'a-{x}', '{x}~a', '{x}_v{y}'];
    const PIECES = ['a', 'w', 'w-12', 'aw', 'wa', 'w.12', 'a-w', 'w~a', 'w_v12', '-', ''];
    async function shapes(c) {
      const count = 1 + c.choose(tier === 'thorough' ? 3 : 2, 'segments', { free: true });
      const segs = []; for (let i = 0; i < count; i++) segs.push(c.pick(SEGMENTS, `segment${i}`, { free: true }).replace(/x/g, `x${i}`).replace(/\{y/g, `{y${i}`));
      const how = c.pick(['createRouter', 'unchecked', 'server'], 'how', { free: true });
      const method = c.pick(['get', 'patch'], 'method');
      const template = '/' + segs.join('/');
      const names = [...template.matchAll(/\{(\w+)\}/g)].map((m) => m[1]);
      const params = {}; for (const n of names) params[n] = t.string;
      const spec = { 'a.b': { [method]: h.httpRoute({ path: template, method: method.toUpperCase(), request: h.httpRequest({ params }), response: { 200: t.any } }) } };
      const app = express();
      if (how === 'server') app.use(b.pkg('express-wrapper').routerForApiSpec({ spec, routeHandlers: { 'a.b': { [method]: (input) => ({ type: 200, payload: { got: input } }) } } }));
      else {
        const r = ter.createRouter(spec);
        r[how === 'unchecked' ? method + 'Unchecked' : method]('a.b', [(req, res) => res.sendEncoded(200, { got: how === 'unchecked' ? req.decoded.right : req.decoded })]);
        app.use(r);
      }
      const re = new RegExp('^' + template.split(/(\{\w+\})/).map((p) => (/^\{/.test(p) ? '([^/]+?)' : p.replace(/[.*+?^${}()|[\]\\~]/g, '\\$&'))).join('') + '/?$', 'i');
      let seen = '';
      const urls = PIECES.flatMap((p) => (count === 1 ? ['/' + p] : PIECES.slice(0, -1).map((q) => `/${p}/${q}` + (count === 3 ? '/w' : ''))));
      if (count === 3) urls.push(...PIECES.map((p) => `/a/a/${p}`), ...PIECES.map((p) => `/w-12/w/${p}`));
      for (const url of urls) {
        // what lies between two parameters may be in either
        if (segs.some((s, i) => /\}.*\{/.test(s) && (url.split('/')[i + 1] || '').split(/[-.]|_v/).length > 2)) continue;
        const m = re.exec(url);
        const want = m && Object.fromEntries(names.map((n, i) => [n, m[i + 1]]));
        const x = inject(app, { method: method.toUpperCase(), url }).start();
        if (!x.ended) await settle(x);
        const res = x.res();
        const key = (w) => () => `shape-${w}:${template}:${how}`;
        if (want) c.check(res && res.status === 200 && same(res.json, { got: want }), key('answer'), `${url} is not handled by ${template} with its parameters`, () => ({ want, response: res && [res.status, res.text], through: x.fallthrough }));
        else c.check(!res && x.fallthrough === 1, key('extra'), `${url} is handled by ${template}`, () => ({ response: res && [res.status, res.text] }));
        seen += want ? '1' : '0';
      }
      c.observe(template + seen);
    }
    const T = tier === 'thorough';
    return [
      { name: 'shapes', shards: [T ? 3 : 2, SEGMENTS.length], run: shapes, what: 'templates of every shape' },
      { name: 'short', deviations: T ? 3 : 2, shards: [2, 14], run: driver([1, 2], 12), what: 'histories of up to 2 registrations over all 12 pairs, each followed by every request' },
      { name: 'long', deviations: 1, shards: [1, T ? 14 : 10], run: driver([3], T ? 12 : 8), what: 'histories of 3 registrations' },
      ...(T ? [{ name: 'longest', deviations: 0, shards: [1, 14], run: driver([4], 12), what: 'histories of 4 registrations' }] : []),
    ];
  },
};
