'use strict';
// In-memory HTTP: real IncomingMessage/ServerResponse objects on a fake socket,
// so the bytes the code under test would put on the wire are captured
// synchronously and deterministically.
const http = require('http');
const { Duplex } = require('stream');

class FakeSocket extends Duplex {
  constructor() { super(); this.chunks = []; this.remoteAddress = '127.0.0.1'; this.encrypted = false; }
  _read() {}
  _write(chunk, enc, cb) { this.chunks.push(Buffer.from(chunk)); cb(); }
  setTimeout() {} setKeepAlive() {} setNoDelay() {} ref() {} unref() {}
  address() { return { port: 80 }; }
}

function parseResponse(buf) {
  // may hold several responses (which would be a bug) or none
  const s = buf.toString('latin1');
  if (!s) return undefined;
  const end = s.indexOf('\r\n\r\n');
  if (end < 0) return { raw: s, malformed: true };
  const lines = s.slice(0, end).split('\r\n');
  const m = /^HTTP\/1\.1 (\d+)/.exec(lines[0]);
  const headers = {};
  for (const l of lines.slice(1)) { const i = l.indexOf(':'); headers[l.slice(0, i).toLowerCase()] = l.slice(i + 1).trim(); }
  let body = buf.slice(Buffer.byteLength(s.slice(0, end + 4), 'latin1'));
  if (/chunked/.test(headers['transfer-encoding'] || '')) {
    let out = [], rest = body;
    for (;;) { const i = rest.indexOf('\r\n'); if (i < 0) break; const n = parseInt(rest.slice(0, i).toString(), 16); if (!n) break; out.push(rest.slice(i + 2, i + 2 + n)); rest = rest.slice(i + 4 + n); }
    body = Buffer.concat(out);
  }
  const text = body.toString('utf8');
  let json; try { json = text === '' ? undefined : JSON.parse(text); } catch (e) { json = undefined; }
  return { status: Number(m && m[1]), headers, text, json, responses: (s.match(/HTTP\/1\.1 \d+/g) || []).length };
}

/**
 * Start a request against an express-like handler. Returns a handle:
 *   .res() the response seen so far (undefined if none), .ended, .fallthrough
 *   (number of times next() left the application), .fallthroughError
 */
function inject(app, { method = 'GET', url = '/', headers = {}, body, rawBody, parsedBody }) {
  const socket = new FakeSocket();
  const req = new http.IncomingMessage(socket);
  req.method = method; req.url = url; req.httpVersion = '1.1'; req.httpVersionMajor = 1; req.httpVersionMinor = 1;
  const hs = {};
  for (const k of Object.keys(headers)) { hs[k.toLowerCase()] = headers[k]; req.rawHeaders.push(k, headers[k]); }
  let payload = rawBody !== undefined ? rawBody : body === undefined ? undefined : JSON.stringify(body);
  if (payload !== undefined) {
    if (!('content-type' in hs)) hs['content-type'] = 'application/json';
    hs['content-length'] = String(Buffer.byteLength(payload));
  }
  req.headers = hs;
  if (parsedBody !== undefined) req.body = parsedBody;
  const res = new http.ServerResponse(req);
  res.assignSocket(socket);
  const h = { req, res: () => parseResponse(Buffer.concat(socket.chunks)), fallthrough: 0, fallthroughErrors: [], thrown: undefined, rawres: res };
  Object.defineProperty(h, 'ended', { get: () => res.writableEnded });
  const out = (err) => { h.fallthrough++; if (err !== undefined) h.fallthroughErrors.push(err); };
  h.start = () => {
    try { app(req, res, out); } catch (e) { h.thrown = e; }
    if (payload !== undefined) req.push(payload);
    req.push(null);
    return h;
  };
  return h;
}

const tick = () => new Promise((r) => setImmediate(r));
// run the event loop until the response has ended / next() left the app, or the horizon passes
async function settle(h, horizon = 30) {
  for (let i = 0; i < horizon; i++) { if (h.ended || h.fallthrough || h.thrown) break; await tick(); }
  await tick();
  return h;
}
async function request(app, opts) { const h = inject(app, opts).start(); return settle(h); }

module.exports = { inject, settle, request, tick, parseResponse };
