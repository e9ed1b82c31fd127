exec(open('/verif/tools/seeds/b3.py').read().split('SEEDS=[')[0])
IH='packages/io-ts-http/src/'
OPT=G+'optimize.ts'
# type-checks a probe against the sources: complaints(text) are the compiler's messages
TYP=r"""
const ts = require(require.resolve('typescript', { paths: [root] }));
function complaints(text) {
  const base = ts.parseConfigFileTextToJson('tsconfig.json', fs.readFileSync(path.join(root, 'tsconfig.json'), 'utf8')).config.compilerOptions;
  const options = ts.convertCompilerOptionsFromJson(base, root).options;
  for (const k of ['composite', 'declaration', 'declarationMap', 'incremental', 'noUnusedLocals', 'noUnusedParameters']) delete options[k];
  Object.assign(options, { noEmit: true, skipLibCheck: true, types: [], baseUrl: root, paths: { '@api-ts/*': ['packages/*/src/index.ts'] } });
  const probe = path.join(root, 'packages/express-wrapper/src/__demo_probe__.ts');
  const host = ts.createCompilerHost(options); const { getSourceFile, fileExists, readFile } = host;
  const head = "import * as t from 'io-ts'; import * as h from '@api-ts/io-ts-http'; import * as N from 'io-ts-types'; import * as X from '@api-ts/express-wrapper'; import * as S from '@api-ts/superagent-wrapper'; import * as R from '@api-ts/typed-express-router';\n";
  host.getSourceFile = (f, ...a) => (f === probe ? ts.createSourceFile(f, head + text, ts.ScriptTarget.ES2020, true) : getSourceFile.call(host, f, ...a));
  host.fileExists = (f) => f === probe || fileExists.call(host, f); host.readFile = (f) => (f === probe ? head + text : readFile.call(host, f));
  const program = ts.createProgram([probe], options, host);
  return ts.getPreEmitDiagnostics(program, program.getSourceFile(probe)).map((d) => ts.flattenDiagnosticMessageText(d.messageText, ' '));
}
const fine = (text, what) => { const c = complaints(text); ok(c.length === 0, what + ' is rejected: ' + c[0]); };
const wrong = (text, what) => ok(complaints(text).length > 0, what + ' is accepted');
"""
SEEDS=[
dict(ID='c22-null-dropped', PROPERTY='C22',
 NEEDS='an optional property whose codec accepts null as well',
 BREAKS='the static type says that the property is never null, though the codec decodes null',
 EDITS=[(IH+'utils.ts',"type Defined<T> = T extends undefined ? never : T;","type Defined<T> = NonNullable<T>;")],
 DEMO=TYP+r"""
fine("const c = h.optionalized({ a: h.optional(t.union([t.string, t.null])) }); export const v: t.TypeOf<typeof c> = { a: null };", 'null');
"""),
dict(ID='c22-partial-params', PROPERTY='C22',
 NEEDS='a client call that leaves out a required property of the request',
 BREAKS='the call compiles; the request is sent without the property and refused by the server',
 EDITS=[(SW+'request.ts',"> = (params: h.RequestType<Route>) => PatchedRequest<Req, Route>;","> = (params: Partial<h.RequestType<Route>>) => PatchedRequest<Req, Route>;")],
 DEMO=TYP+r"""
const pre = "const r = h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({ query: { a: t.string } }), response: { 200: t.string } }); const s = h.apiSpec({ x: { get: r } }); declare const c: S.ApiClient<S.SuperagentRequest<S.Response>, typeof s>; ";
fine(pre + "export const f = () => c.x.get({ a: 'a' });", 'a whole request'); wrong(pre + "export const f = () => c.x.get({});", 'a request without a');
"""),
dict(ID='c22-chain-six', PROPERTY='C22',
 NEEDS='a chain of six middlewares of which the last two give the same property with different types',
 BREAKS='the handler is told the type of the fifth, but gets what the sixth gives',
 EDITS=[(EW+'middleware.ts',"                      D\n                    >,\n                    E\n                  >,\n                  F\n                >","                      D\n                    >,\n                    F\n                  >,\n                  E\n                >")],
 DEMO=TYP+r"""
const pre = "type M<T extends {}> = ReturnType<typeof X.middlewareFn<T>>; type C = X.MiddlewareChainOutput<{ a: string }, [M<{ b: 1 }>, M<{ b: 2 }>, M<{ b: 3 }>, M<{ b: 4 }>, M<{ b: 5 }>, M<{ b: 6 }>]>; ";
fine(pre + "export const f = (c: C): 6 => c.b;", 'the value of the last middleware'); wrong(pre + "export const f = (c: C): 5 => c.b;", 'the value of the last but one');
"""),
dict(ID='c22-header-list', PROPERTY='C22',
 NEEDS='a request with a header whose codec encodes to a list of strings',
 BREAKS='the request compiles, though a header is only ever one string',
 EDITS=[(IH+'httpRequest.ts',"type HeaderValue = string | undefined;","type HeaderValue = QueryValue;")],
 DEMO=TYP+r"""
fine("export const r = h.httpRequest({ headers: { a: t.string } });", 'a text header');
wrong("export const r = h.httpRequest({ headers: { a: t.array(t.string) } });", 'a list as a header');
"""),
dict(ID='c22-keyed-encoded', PROPERTY='C22',
 NEEDS='a response codec that changes the type (NumberFromString) and a handler that answers by key',
 BREAKS='handlers have to answer the encoded value, which then cannot be encoded',
 EDITS=[(EW+'response.ts',"    payload: t.TypeOf<R['response'][Key]>;","    payload: t.OutputOf<R['response'][Key]>;")],
 DEMO=TYP+r"""
const pre = "const r = h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: N.NumberFromString } }); ";
fine(pre + "export const f: X.ServiceFunction<typeof r> = () => ({ type: 'ok', payload: 1 });", 'the value');
wrong(pre + "export const f: X.ServiceFunction<typeof r> = () => ({ type: 'ok', payload: '1' });", 'the encoded value');
"""),
dict(ID='c22-unchecked-any', PROPERTY='C22',
 NEEDS='a route without the checks of the decoded request that answers a status the route does not declare',
 BREAKS='sendEncoded of unchecked handlers takes any status and payload; at run time it answers an internal error',
 EDITS=[('packages/typed-express-router/src/types.ts',"    t.Validation<t.TypeOf<NonNullable<Spec[ApiName][Method]>['request']>>\n  >,\n  res: WrappedResponse<t.TypeOfProps<NonNullable<Spec[ApiName][Method]>['response']>>,","    t.Validation<t.TypeOf<NonNullable<Spec[ApiName][Method]>['request']>>\n  >,\n  res: WrappedResponse<\n    t.TypeOfProps<NonNullable<Spec[ApiName][Method]>['response'] & t.Props>\n  >,")],
 DEMO=TYP+r"""
const pre = "const r = h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }); const s = h.apiSpec({ a: { get: r } }); declare const w: R.WrappedRouter<typeof s>; ";
fine(pre + "w.getUnchecked('a', [(_q, res) => res.sendEncoded(200, 'x')]);", 'a declared response'); wrong(pre + "w.getUnchecked('a', [(_q, res) => res.sendEncoded(404, 'x')]);", 'another status');
"""),
dict(ID='c15-flatten-comment', PROPERTY='C15',
 NEEDS='a union within a union that has a comment of its own',
 BREAKS='the comment of the inner union is lost',
 EDITS=[(OPT,"      resultingSchemas.add(deterministicStringify(merged));","      (merged.type === 'union' ? merged.schemas : [merged]).forEach((s) =>\n        resultingSchemas.add(deterministicStringify(s)),\n      );")],
 DEMO=r"""
const { optimize } = load('openapi-generator', 'optimize');
const comment = { description: 'either', tags: [], source: [], problems: [] };
const r = optimize({ type: 'union', schemas: [{ type: 'union', schemas: [{ type: 'object', properties: {}, required: [] }, { type: 'array', items: { type: 'string' } }], comment }, { type: 'boolean' }] });
ok(JSON.stringify(r).includes('either'), 'the comment is kept');
"""),
dict(ID='c15-one-form', PROPERTY='C15',
 NEEDS='a union of nothing but codecs from string forms of one type, such as two of numbers with different bounds',
 BREAKS='the union is described as plain numbers',
 EDITS=[(OPT,"  if (allConsolidatable && areSameRuntimeType && hasPrimitive) {","  if (allConsolidatable && areSameRuntimeType && (hasPrimitive || schema.schemas.length > 2)) {")],
 DEMO=r"""
const { optimize } = load('openapi-generator', 'optimize');
const f = (o) => ({ type: 'string', format: 'number', decodedType: 'number', ...o });
const r = optimize({ type: 'union', schemas: [f({ pattern: 'a' }), f({ pattern: 'b' }), f({ pattern: 'c' })] });
eq(r.type, 'union', 'type');
"""),
dict(ID='c05-undefined-payload', PROPERTY='C05',
 NEEDS='a handler that sends undefined for a response codec that does not accept it',
 BREAKS='the response is sent with the declared status and without a body',
 EDITS=[(TR,"            } else if (!codec.is(payload)) {","            } else if (payload !== undefined && !codec.is(payload)) {")],
 DEMO=SRV+r"""
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } } } };
const router = R.createRouter(spec); router.get('a.one', [(req, res) => res.sendEncoded(200, undefined)]);
const app = express(); app.use(router);
await serve(app, async (call) => { eq((await call('GET', '/x')).status, 500, 'status'); });
"""),
dict(ID='c13-shared-handler', PROPERTY='C13',
 NEEDS='one function that handles two routes of a spec',
 BREAKS='the second route is answered as if it were the first: with the codecs of the first',
 EDITS=[(EW+'index.ts',"      const expressRouteHandler = handleRequest(\n        apiName,\n        httpRoute,\n        routeHandler as RouteHandler<HttpRoute>,\n        encoder,\n      );","      const expressRouteHandler =\n        known.get(routeHandler) ??\n        handleRequest(\n          apiName,\n          httpRoute,\n          routeHandler as RouteHandler<HttpRoute>,\n          encoder,\n        );\n      known.set(routeHandler, expressRouteHandler);"),
        (EW+'index.ts',"  for (const apiName of Object.keys(spec)) {\n    const resource","  // Handlers may be shared between routes\n  const known = new Map<unknown, ReturnType<typeof handleRequest>>();\n  for (const apiName of Object.keys(spec)) {\n    const resource")],
 DEMO=LIB+r"""
const X = load('express-wrapper');
const route = (path, c) => ({ path, method: 'GET', request: h.httpRequest({}), response: { 200: c } });
const handler = () => ({ type: 200, payload: { a: 1, b: 1 } });
const app = X.createServer({ one: { get: route('/1', t.strict({ a: t.number })) }, two: { get: route('/2', t.strict({ b: t.number })) } }, () => ({ one: { get: handler }, two: { get: handler } }));
await serve(app, async (call) => { eq((await call('GET', '/1')).json, { a: 1 }, 'first'); eq((await call('GET', '/2')).json, { b: 1 }, 'second'); });
"""),
dict(ID='c06-long-param', PROPERTY='C06',
 NEEDS='a path with two parameters within one segment, or a parameter next to text',
 BREAKS='only parameters that fill their segment are converted: such routes are never reached',
 EDITS=[('packages/typed-express-router/src/path.ts',"const PATH_PARAM = /{(\\w+)}/g;","const PATH_PARAM = /(?<=\\/){(\\w+)}/g;")],
 DEMO=SRV+r"""
const spec = { 'a.one': { get: { path: '/x/{a}-{b}', method: 'GET', request: h.httpRequest({ params: { a: t.string, b: t.string } }), response: { 200: t.unknown } } } };
const router = R.createRouter(spec); router.get('a.one', [(req, res) => res.sendEncoded(200, req.decoded)]);
const app = express(); app.use(router);
await serve(app, async (call) => { eq((await call('GET', '/x/1-2')).json, { a: '1', b: '2' }, 'params'); });
"""),
dict(ID='c07-error-status', PROPERTY='C07',
 NEEDS='an encode error that is not an Error object (a codec that throws text, for example)',
 BREAKS='the span of the failed response is not marked as failed',
 EDITS=[(TEL,"  span.setStatus({ code: otelApi.SpanStatusCode.ERROR });\n}\n\n/**\n * Records errors on a decode span","  if (error instanceof Error) {\n    span.setStatus({ code: otelApi.SpanStatusCode.ERROR });\n  }\n}\n\n/**\n * Records errors on a decode span")],
 DEMO=LIB+r"""
const otel = reqIn('typed-express-router')('@opentelemetry/api');
const failed = [];
otel.trace.setGlobalTracerProvider({ getTracer: () => ({ startSpan: (name) => { const s = { name, end() {}, setAttribute() { return s; }, setAttributes() { return s; }, setStatus(x) { failed.push([name, x.code]); return s; }, recordException() {}, isRecording: () => true, addEvent() { return s; } }; return s; } }) });
const R = load('typed-express-router'); const express = reqIn('typed-express-router')('express');
const bad = new t.Type('bad', (x) => true, (x) => t.success(x), () => { throw 'text'; });
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: bad } } } };
const router = R.createRouter(spec); router.get('a.one', [(req, res) => res.sendEncoded(200, 1)]);
const app = express(); app.use(router);
await serve(app, async (call) => { eq((await call('GET', '/x')).status, 500, 'status'); eq(failed, [['typed-express-router.encode', 2]], 'failed spans'); });
"""),
]
