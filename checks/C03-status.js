'use strict';
const { show, same } = require('../lib/explore');
const { request } = require('../lib/http');
// The reference: every standard status code this system names, with its name.
const REF = { 100: 'continue', 101: 'switchingProtocols', 102: 'processing', 200: 'ok', 201: 'created', 202: 'accepted', 203: 'nonAuthoritativeInformation', 204: 'noContent', 205: 'resetContent', 206: 'partialContent', 207: 'multiStatus', 208: 'alreadyReported', 226: 'imUsed', 300: 'multipleChoices', 301: 'movedPermanently', 302: 'found', 303: 'seeOther', 304: 'notModified', 307: 'temporaryRedirect', 308: 'permanentRedirect', 400: 'invalidRequest', 401: 'unauthenticated', 402: 'paymentRequired', 403: 'permissionDenied', 404: 'notFound', 405: 'methodNotAllowed', 406: 'notAcceptable', 407: 'proxyAuthenticationRequired', 408: 'requestTimeout', 409: 'conflict', 410: 'gone', 411: 'lengthRequired', 412: 'preconditionFailed', 413: 'contentTooLarge', 414: 'uriTooLong', 415: 'unsupportedMediaType', 416: 'rangeNotSatisfiable', 417: 'exceptionFailed', 418: 'imATeapot', 421: 'misdirectedRequest', 422: 'unprocessableContent', 423: 'locked', 424: 'failedDependency', 425: 'tooEarly', 426: 'upgradeRequired', 428: 'preconditionRequired', 429: 'rateLimitExceeded', 431: 'requestHeaderFieldsTooLarge', 451: 'unavailableForLegalReasons', 500: 'internalError', 501: 'notImplemented', 502: 'badGateway', 503: 'serviceUnavailable', 504: 'gatewayTimeout', 505: 'httpVersionNotSupported', 506: 'variantAlsoNegotiates', 507: 'insufficientStorage', 508: 'loopDetected', 510: 'notExtended', 511: 'networkAuthenticationRequired' };
const CODES = Object.keys(REF).map(Number);
const PAYLOADS = ['p', undefined, null, 0, '', false, { a: [1] }, [1, 2]];

module.exports = {
  id: 'C03',
  bounds: 'all 61 standard status codes and names, every helper in the four helper sets, 8 payloads (identity checked); every code also served by both server packages by number and by name; every integer 0..1000 and a set of inherited/unknown names must be absent from the tables',
  assumptions: ['the table of standard codes and names in the check is the reference', '1xx, 204, 205 and 304 responses carry no body on the wire (node/express)'],
  scenarios(b) {
    const h = b.pkg('io-ts-http');
    const r = b.pkg('response');
    const t = b.require('io-ts');
    const express = b.require('express');
    const router = b.pkg('typed-express-router');
    const wrapper = b.pkg('express-wrapper');
    return [
      {
        name: 'tables', what: 'the two tables are inverse bijections over exactly the standard set',
        run(c) {
          const by = c.flag('by-name');
          if (!by) {
            const code = c.choose(1001, 'code');
            const got = Object.prototype.hasOwnProperty.call(h.HttpToKeyStatus, code) ? h.HttpToKeyStatus[code] : undefined;
            c.observe(show(got));
            c.check(got === REF[code], `code:${code}`, `status ${code} is named ${show(got)}, expected ${show(REF[code])}`);
            if (got !== undefined) c.check(h.KeyToHttpStatus[got] === code, `inverse:${code}`, `name ${got} maps back to ${h.KeyToHttpStatus[got]}, not ${code}`);
          } else {
            const keys = Object.keys(h.KeyToHttpStatus);
            const k = c.choose(keys.length, 'key');
            c.observe(keys[k]);
            c.check(REF[h.KeyToHttpStatus[keys[k]]] === keys[k], `key:${keys[k]}`, `name ${keys[k]} maps to ${h.KeyToHttpStatus[keys[k]]}`);
            c.check(keys.length === CODES.length, 'size', `the name table has ${keys.length} entries, expected ${CODES.length}`);
          }
        },
      },
      {
        name: 'helpers', what: 'every helper of every set builds exactly {type, payload} for its own status',
        run(c) {
          const [name, set, type] = c.pick([['io-ts-http Response', h.Response, 'code'], ['response Response', r.Response, 'code'], ['response KeyedResponse', r.KeyedResponse, 'key']].map((x) => x), 'set');
          c.check(same(Object.keys(set).sort(), Object.values(REF).sort()), `helpers:${name}`, `${name} does not have exactly one helper per status`);
          const code = c.pick(CODES, 'code');
          const p = c.pick(PAYLOADS, 'payload');
          const got = set[REF[code]](p);
          const want = { type: type === 'code' ? code : REF[code], payload: p };
          c.observe(show(got));
          c.check(same(got, want) && got.payload === p, `helper:${name}:${REF[code]}`, `${name}.${REF[code]} built ${show(got)}, expected ${show(want)}`);
        },
      },
      {
        name: 'served', what: 'every status, by number and by name, through both servers',
        async run(c) {
          const code = c.pick(CODES.filter((x) => x >= 200), 'code');
          const server = c.choose(2, 'server');
          const keyed = c.flag('by-name');
          const bodyless = [204, 205, 304].includes(code);
          let app;
          if (server === 0) {
            const spec = { 'x.y': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { [keyed ? REF[code] : code]: t.type({ c: t.number }) } } } };
            app = router.createRouter(spec);
            app.get('x.y', [(req, res) => res.sendEncoded(keyed ? REF[code] : code, { c: code })]);
            const e = express(); e.use(app); app = e;
          } else {
            const spec = { 'x.y': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { [code]: t.type({ c: t.number }) } } } };
            const helper = c.choose(2, 'helper');
            app = wrapper.createServer(spec, () => ({ 'x.y': { get: () => (helper ? (keyed ? r.KeyedResponse : h.Response)[REF[code]]({ c: code }) : { type: keyed ? REF[code] : code, payload: { c: code } }) } }));
          }
          const x = await request(app, { url: '/x' });
          const res = x.res();
          c.observe(show(res && [res.status, res.json]));
          c.check(res && res.responses === 1 && res.status === code, `served:${server}:${keyed}:${code}`, `status ${keyed ? REF[code] : code} went out as ${res && res.status}`);
          if (!bodyless) c.check(same(res.json, { c: code }), `body:${server}:${keyed}:${code}`, `wrong body ${show(res.text)}`);
        },
      },
    ];
  },
};
