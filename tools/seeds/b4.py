exec(open('/verif/tools/seeds/b3.py').read().split('SEEDS=[')[0])
SEEDS=[
dict(ID='c01-name-cache', PROPERTY='C01',
 NEEDS='two request codecs of different shape that are given the same name',
 BREAKS='the second is the first one: it decodes and encodes the sections of the other request',
 EDITS=[('packages/io-ts-http/src/httpRequest.ts',"  return flattened(name ?? 'httpRequest', {\n    query: {},\n    params: {},\n    ...(props as Omit<Props, 'query' | 'params'>),\n  } as { query: {}; params: {} } & Props);","  const build = () =>\n    flattened(name ?? 'httpRequest', {\n      query: {},\n      params: {},\n      ...(props as Omit<Props, 'query' | 'params'>),\n    } as { query: {}; params: {} } & Props);\n  if (name === undefined) {\n    return build();\n  }\n  // Named requests are only built once\n  const known = namedRequests.get(name) ?? build();\n  namedRequests.set(name, known);\n  return known as ReturnType<typeof build>;"),
        ('packages/io-ts-http/src/httpRequest.ts',"export function httpRequest<","const namedRequests: Map<string, any> = new Map();\n\nexport function httpRequest<")],
 DEMO=LIB+r"""
const a = h.httpRequest({ query: { x: t.string } }, 'Req'), b = h.httpRequest({ query: { y: t.string } }, 'Req');
eq(a.decode({ query: { x: '1' }, params: {} }).right, { x: '1' }, 'first'); eq(b.decode({ query: { y: '1' }, params: {} }).right, { y: '1' }, 'second');
"""),
dict(ID='c07-end-late', PROPERTY='C07',
 NEEDS='router middleware that answers, fails or waits while another request to the route arrives',
 BREAKS='decode spans stay open, or the one of another request is ended',
 EDITS=[(TR,"        wrapReqAndRes,\n        endDecodeSpanMiddleware,\n        ...routerMiddleware,\n","        wrapReqAndRes,\n        ...routerMiddleware,\n        endDecodeSpanMiddleware,\n")],
 DEMO=LIB+r"""
const otel = reqIn('typed-express-router')('@opentelemetry/api');
const open = new Set();
otel.trace.setGlobalTracerProvider({ getTracer: () => ({ startSpan: (name) => { const s = { name, end() { open.delete(s); }, setAttribute() { return s; }, setAttributes() { return s; }, setStatus() { return s; }, recordException() {}, isRecording: () => true, addEvent() { return s; } }; open.add(s); return s; } }) });
const R = load('typed-express-router'); const express = reqIn('typed-express-router')('express');
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } } } };
const router = R.createRouter(spec); router.use((req, res) => res.status(401).end());
router.get('a.one', [(req, res) => res.sendEncoded(200, 'x')]);
const app = express(); app.use(router);
await serve(app, async (call) => { eq((await call('GET', '/x')).status, 401, 'status'); eq(open.size, 0, 'open spans'); });
"""),
dict(ID='c13-empty-operation', PROPERTY='C13',
 NEEDS='a spec of which an operation has no routes',
 BREAKS='the client lacks the operation',
 EDITS=[(SW+'routes.ts',"    result[apiName] = subSpec;","    if (Object.keys(subSpec).length > 0) {\n      result[apiName] = subSpec;\n    }")],
 DEMO=LIB+r"""
const S = load('superagent-wrapper');
const c = S.buildApiClient(() => ({}), { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: {} } }, 'a.none': {} });
eq(Object.keys(c), ['a.one', 'a.none'], 'operations');
"""),
dict(ID='c04-formatter-first', PROPERTY='C04',
 NEEDS='a status hook that looks at something the formatter hook changes, such as a counter or the request',
 BREAKS='',
 EDITS=[], DEMO=''),
]
SEEDS=[s for s in SEEDS if s['EDITS']]
