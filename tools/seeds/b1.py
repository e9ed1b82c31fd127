CM='packages/io-ts-http/src/combinators.ts'
TR='packages/typed-express-router/src/index.ts'
EW='packages/express-wrapper/src/request.ts'
MW='packages/express-wrapper/src/middleware.ts'
SW='packages/superagent-wrapper/src/request.ts'
SEEDS=[
dict(ID='c01-encode-flat', PROPERTY='C01',
 NEEDS='a request codec declaring the same property name in two sections with different codecs',
 BREAKS='encode looks the codec up in the flattened property table, so a name that occurs in two sections is encoded with the codec of the last section everywhere',
 EDITS=[(CM,"            const codec = props[o]![i]!;","            const codec = flatProps[i]!;")],
 DEMO=r"""
const h = load('io-ts-http'); const t = reqIn('io-ts-http')('io-ts'); const { NumberFromString } = reqIn('io-ts-http')('io-ts-types');
const c = h.httpRequest({ params: { id: NumberFromString }, body: { id: t.number, x: t.string } });
const e = c.encode({ id: 5, x: 'a' });
eq(e.params, { id: '5' }, 'path section'); eq(e.body, { id: 5, x: 'a' }, 'body section');
"""),
dict(ID='c02-is-optional-shape', PROPERTY='C02',
 NEEDS='a property codec that accepts undefined without being a union whose direct member is t.undefined (t.unknown, a nested optional, a custom codec)',
 BREAKS='such a property becomes required: an object without it no longer decodes',
 EDITS=[(CM,"    const isOptional = codec.is(void 0);","    const isOptional =\n      codec instanceof t.UnionType\n        ? codec.types.some((c: t.Mixed) => c instanceof t.UndefinedType)\n        : codec.is(void 0);")],
 DEMO=r"""
const h = load('io-ts-http'); const t = reqIn('io-ts-http')('io-ts');
const c = h.optionalized({ a: t.number, b: t.union([t.string, h.optional(t.number)]) });
const r = c.decode({ a: 1 });
ok(r._tag === 'Right', 'absent optional properties are accepted'); ok(c.is({ a: 1 }), 'an object without its optional properties is a member');
eq(Object.keys(c.encode({ a: 1 })), ['a'], 'encode adds nothing');
eq(Object.keys(r.right), ['a'], 'decode adds nothing');
"""),
dict(ID='c05-validated-cache', PROPERTY='C05',
 NEEDS='one payload object replied with twice, made invalid between the two replies',
 BREAKS='an invalid payload is sent raw because the object had been validated before',
 EDITS=[(TR,"  const routerMiddleware: UncheckedRequestHandler[] = [];","  const routerMiddleware: UncheckedRequestHandler[] = [];\n  // payloads that are known to match a codec do not have to be checked again\n  const checked = new WeakMap<object, unknown>();"),
  (TR,"            } else if (!codec.is(payload)) {\n              throw new Error(`response does not match expected type ${codec.name}`);\n            }","            } else if (checked.get(payload as object) !== codec) {\n              if (!codec.is(payload)) {\n                throw new Error(`response does not match expected type ${codec.name}`);\n              }\n              if (typeof payload === 'object' && payload !== null) {\n                checked.set(payload, codec);\n              }\n            }")],
 DEMO=r"""
const h = load('io-ts-http'); const R = load('typed-express-router'); const t = reqIn('io-ts-http')('io-ts'); const express = reqIn('typed-express-router')('express');
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.type({ n: t.number }) } } } };
const payload = { n: 1 };
const router = R.createRouter(spec);
router.get('a.one', [(req, res) => res.sendEncoded(200, payload)]);
const app = express(); app.use(router);
await serve(app, async (call) => { eq((await call('GET', '/x')).status, 200, 'valid'); payload.n = 'secret'; eq((await call('GET', '/x')).status, 500, 'invalid payload'); });
"""),
dict(ID='c07-span-finally', PROPERTY='C07',
 NEEDS='tracing available and an encode-error hook (formatter or status hook) that throws while an encode error is handled',
 BREAKS='the encode span is never ended',
 EDITS=[(TR,"            res.status(statusCode).json(encoded).end();\n","            res.status(statusCode).json(encoded).end();\n            endSpan(encodeSpan);\n"),
        (TR,"            recordSpanEncodeError(encodeSpan, err, statusCode);\n            res.status(statusCode).json(encodeErrorMessage);\n          } finally {\n            endSpan(encodeSpan);\n          }","            recordSpanEncodeError(encodeSpan, err, statusCode);\n            endSpan(encodeSpan);\n            res.status(statusCode).json(encodeErrorMessage);\n          }")],
 DEMO=r"""
const otel = reqIn('typed-express-router')('@opentelemetry/api');
const spans = [];
otel.trace.setGlobalTracerProvider({ getTracer: () => ({ startSpan: (name) => { const s = { name, ended: 0, setAttributes() { return s; }, setAttribute() { return s; }, setStatus() { return s; }, recordException() {}, end() { s.ended++; } }; spans.push(s); return s; } }) });
const h = load('io-ts-http'); const R = load('typed-express-router'); const t = reqIn('io-ts-http')('io-ts'); const express = reqIn('typed-express-router')('express');
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.type({ n: t.number }) } } } };
const router = R.createRouter(spec, { encodeErrorFormatter: () => { throw new Error('formatter'); } });
router.get('a.one', [(req, res) => res.sendEncoded(200, { n: 'bad' })]);
const app = express(); app.use(router); app.use((err, req, res, next) => res.status(599).end());
await serve(app, async (call) => { await call('GET', '/x'); });
ok(spans.length === 2, 'two spans'); for (const s of spans) ok(s.ended === 1, s.name + ' ended ' + s.ended + ' times');
"""),
dict(ID='c08-shared-params', PROPERTY='C08',
 NEEDS='two concurrent requests to one route whose middleware resumes in the opposite order',
 BREAKS='a request is handled with the decoded input of another request',
 EDITS=[(EW,"  return createNamedFunction(\n    'decodeRequestAndEncodeResponse'","  const serviceFn = getServiceFunction(handler);\n  let input: any;\n  return createNamedFunction(\n    'decodeRequestAndEncodeResponse'"),
  (EW,"""        const handlerParams =
          MiddlewareBrand in handler
            ? await runMiddlewareChain(req.decoded, getMiddleware(handler), req, res)
            : await runMiddlewareChainIgnoringResults(
                req.decoded,
                getMiddleware(handler),
                req,
                res,
              );
        const serviceFn = getServiceFunction(handler);

        const response = await serviceFn(handlerParams);
""","""        input = req.decoded;
        if (MiddlewareBrand in handler) {
          input = await runMiddlewareChain(input, getMiddleware(handler), req, res);
        } else {
          await runMiddlewareChainIgnoringResults(
            input,
            getMiddleware(handler),
            req,
            res,
          );
        }

        const response = await serviceFn(input);
""")],
 DEMO=r"""
const h = load('io-ts-http'); const E = load('express-wrapper'); const t = reqIn('io-ts-http')('io-ts');
const spec = { 'a.one': { get: { path: '/{x}', method: 'GET', request: h.httpRequest({ params: { x: t.string } }), response: { 200: t.string } } } };
let first;
const app = E.createServer(spec, () => ({ 'a.one': { get: { middleware: [(req, res, next) => { if (!first) first = next; else { setTimeout(first, 20); setTimeout(next, 60); } }], handler: ({ x }) => h.Response.ok(x) } } }));
await serve(app, async (call) => { const [a, b] = await Promise.all([call('GET', '/one'), call('GET', '/two')]); eq([a.json, b.json].sort(), ['one', 'two'], 'each request gets its own input'); });
"""),
dict(ID='c09-merge-late', PROPERTY='C09',
 NEEDS='routeHandler with three or more middleware, of which two set the same property around one that sets none',
 BREAKS='when a later middleware adds nothing the merged properties of the earlier ones are dropped in favour of the decoded request',
 EDITS=[(MW,"    result = { ...result, ...middlewareResult };","    const isEmpty = Object.keys(middlewareResult).length === 0;\n    result = { ...(isEmpty ? input : {}), ...result, ...(isEmpty ? input : middlewareResult) };")],
 DEMO=r"""
const h = load('io-ts-http'); const E = load('express-wrapper'); const t = reqIn('io-ts-http')('io-ts');
const spec = { 'a.one': { get: { path: '/{x}', method: 'GET', request: h.httpRequest({ params: { x: t.string } }), response: { 200: t.unknown } } } };
const app = E.createServer(spec, () => ({ 'a.one': { get: E.routeHandler({ middleware: [E.middlewareFn(async () => ({ x: 'replaced', y: 1 })), (req, res, next) => next()], handler: (p) => h.Response.ok(p) }) } }));
await serve(app, async (call) => { eq((await call('GET', '/orig')).json, { x: 'replaced', y: 1 }, 'later properties win'); });
"""),
dict(ID='c12-expecting-class', PROPERTY='C12',
 NEEDS='decodeExpecting on a response with another status for which a codec accepting the body exists, with the expected status undeclared as decoded type',
 BREAKS='decodeExpecting compares with the decoded status only when decoding failed, so another declared status resolves when its body is empty',
 EDITS=[(SW,"      if (res.original.status !== status) {","      if (res.original.status !== status && res.original.text !== '') {")],
 DEMO=r"""
const h = load('io-ts-http'); const S = load('superagent-wrapper'); const t = reqIn('io-ts-http')('io-ts'); const superagent = reqIn('superagent-wrapper')('superagent');
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.unknown, 503: t.unknown } } } };
await serve((req, res) => { res.statusCode = 503; res.end(); }, async (call, base) => {
  const client = S.buildApiClient(S.superagentRequestFactory(superagent, base), spec);
  let resolved = false; try { await client['a.one'].get({}).decodeExpecting(200); resolved = true; } catch (e) {}
  ok(!resolved, 'a 503 was accepted as the expected 200');
});
"""),
]
