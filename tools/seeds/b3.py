G='packages/openapi-generator/src/'
TR='packages/typed-express-router/src/index.ts'
TEL='packages/typed-express-router/src/telemetry.ts'
EW='packages/express-wrapper/src/'
SW='packages/superagent-wrapper/src/'
CM='packages/io-ts-http/src/combinators.ts'
SRC=r"""const H = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
const api = (codec, more = '') => `export const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: ${codec} } })${more} } });\n`;
const schema = (r) => r.doc.paths['/p'].get.responses[200].content['application/json'].schema;
"""
LIB=r"""const h = load('io-ts-http'); const t = reqIn('io-ts-http')('io-ts'); const { NumberFromString } = reqIn('io-ts-http')('io-ts-types');
"""
SRV=LIB+r"""const R = load('typed-express-router'); const express = reqIn('typed-express-router')('express');
"""
SEEDS=[
dict(ID='c02-optional-by-decoding', PROPERTY='C02',
 NEEDS='a property whose codec replaces a missing value (withFallback) but whose values are never undefined',
 BREAKS='the property becomes optional: objects without it are members of the codec',
 EDITS=[(CM,"    const isOptional = codec.is(void 0);","    const isOptional = E.isRight(codec.decode(void 0));")],
 DEMO=LIB+r"""
const { withFallback } = reqIn('io-ts-http')('io-ts-types');
const c = h.optionalized({ a: withFallback(t.string, 'x'), b: t.number });
ok(!c.is({ b: 1 }), 'a required property may not be absent');
eq(c.decode({ b: 1 }).right, { a: 'x', b: 1 }, 'the fallback is used');
"""),
dict(ID='c03-empty-payload', PROPERTY='C03',
 NEEDS='a response helper called with null',
 BREAKS='the payload becomes an empty object',
 EDITS=[('packages/io-ts-http/src/httpResponse.ts',"  <T>(payload: T) => ({ type: KeyToHttpStatus[status] as KeyToHttpStatus[S], payload });","  <T>(payload: T) => ({\n    type: KeyToHttpStatus[status] as KeyToHttpStatus[S],\n    payload: payload ?? ({} as T),\n  });")],
 DEMO=LIB+r"""
eq(h.Response.notFound(null), { type: 404, payload: null }, 'helper'); eq(h.Response.ok({ a: 1 }), { type: 200, payload: { a: 1 } }, 'helper');
"""),
dict(ID='c04-status-once', PROPERTY='C04',
 NEEDS='two invalid requests to one route whose decode-error status hook gives different statuses',
 BREAKS='the second is answered with the status of the first',
 EDITS=[(TR,"      const validateMiddleware: UncheckedRequestHandler<","      let decodeErrorStatusCode: number | undefined;\n      const validateMiddleware: UncheckedRequestHandler<"),
        (TR,"            (errs) => {\n              const statusCode = (\n                options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode\n              )(errs, req);\n              const decodeErrorMessage","            (errs) => {\n              const statusCode = (decodeErrorStatusCode ??= (\n                options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode\n              )(errs, req));\n              const decodeErrorMessage")],
 DEMO=SRV+r"""
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({ query: { q: t.literal('a') } }), response: { 200: t.unknown } } } };
const router = R.createRouter(spec, { getDecodeErrorStatusCode: (errs, req) => (req.query.q === undefined ? 400 : 422) });
router.get('a.one', [(req, res) => res.sendEncoded(200, 1)]);
const app = express(); app.use(router);
await serve(app, async (call) => { eq((await call('GET', '/x')).status, 400, 'missing'); eq((await call('GET', '/x?q=b')).status, 422, 'wrong'); });
"""),
dict(ID='c05-status-alias', PROPERTY='C05',
 NEEDS='a reply with a status name where the route declares the number only (or the reverse)',
 BREAKS='the undeclared status is sent with the codec of the other form instead of an encode error',
 EDITS=[(TR,"            const codec = route.response[status];","            const codec =\n              route.response[status] ??\n              route.response[KeyToHttpStatus[status as keyof KeyToHttpStatus]];")],
 DEMO=SRV+r"""
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } } } };
const router = R.createRouter(spec); router.get('a.one', [(req, res) => res.sendEncoded('ok', 'secret')]);
const app = express(); app.use(router);
await serve(app, async (call) => { const r = await call('GET', '/x'); eq([r.status, r.text], [500, '{}'], 'undeclared status'); });
"""),
dict(ID='c06-alias-braces', PROPERTY='C06',
 NEEDS='a route alias that is an express pattern with braces in a regular expression, such as /:id(\\\\d{2})',
 BREAKS='the alias matches something else',
 EDITS=[(TR,"        router[method](alias, middlewareChain);","        router[method](apiTsPathToExpress(alias), middlewareChain);")],
 DEMO=SRV+r"""
const spec = { 'a.one': { get: { path: '/x/{id}', method: 'GET', request: h.httpRequest({ params: { id: t.string } }), response: { 200: t.string } } } };
const router = R.createRouter(spec); router.get('a.one', [(req, res) => res.sendEncoded(200, req.decoded.id)], { routeAliases: ['/old/:id(\\d{2})'] });
const app = express(); app.use(router);
await serve(app, async (call) => { eq((await call('GET', '/old/12')).json, '12', 'alias'); eq((await call('GET', '/old/123')).status, 404, 'not the alias'); });
"""),
dict(ID='c09-undefined-result', PROPERTY='C09',
 NEEDS='a later middleware that replaces an earlier property (or a request property) with undefined',
 BREAKS='the handler still sees the earlier value',
 EDITS=[(EW+'middleware.ts',"    result = { ...result, ...middlewareResult };","    result = Object.entries(middlewareResult).reduce(\n      (acc, [key, value]) => (value === undefined ? acc : { ...acc, [key]: value }),\n      result,\n    );")],
 DEMO=LIB+r"""
const W = load('express-wrapper');
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({ query: { token: h.optional(t.string) } }), response: { 200: t.string } } } };
const app = W.createServer(spec, () => ({ 'a.one': { get: W.routeHandler({ middleware: [W.middlewareFn(async () => ({ token: undefined }))], handler: async (p) => W.Response ? { type: 200, payload: String(p.token) } : { type: 200, payload: String(p.token) } }) } }));
await serve(app, async (call) => { eq((await call('GET', '/x?token=abc')).json, 'undefined', 'the middleware decides'); });
"""),
dict(ID='c10-bodyless-status', PROPERTY='C10',
 NEEDS='a service function that answers 204, 205 or 304 with a status the route does not declare or a payload that cannot be encoded',
 BREAKS='the client gets the status instead of 500',
 EDITS=[(EW+'response.ts',"    const responseCodec = route.response[status];","    if (status === 204 || status === 205 || status === 304) {\n      // These never have a body\n      res.status(status).end();\n      return;\n    }\n    const responseCodec = route.response[status];")],
 DEMO=LIB+r"""
const W = load('express-wrapper'); console.warn = () => {};
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } } } };
const app = W.createServer(spec, () => ({ 'a.one': { get: async () => ({ type: 204, payload: 'x' }) } }));
await serve(app, async (call) => { eq((await call('GET', '/x')).status, 500, 'undeclared status'); });
"""),
dict(ID='c11-base-query', PROPERTY='C11',
 NEEDS='a base URL without a path but with a query string',
 BREAKS='the path of the route is appended to the query string',
 EDITS=[(SW+'request.ts',"    url.pathname = posix.join(url.pathname, substitutedPath);\n    return superagent[method](url.toString());","    if (url.pathname === '/' || url.pathname === '') {\n      // No path to prepend\n      return superagent[method](base.replace(/\\/?$/, '') + substitutedPath);\n    }\n    url.pathname = posix.join(url.pathname, substitutedPath);\n    return superagent[method](url.toString());")],
 DEMO=LIB+r"""
const S = load('superagent-wrapper');
const urls = []; const sa = {}; for (const m of ['get', 'post', 'put', 'delete', 'patch']) sa[m] = (u) => { urls.push(u); };
const f = S.superagentRequestFactory(sa, 'http://x.test/?trace=1');
f({ path: '/a/{id}', method: 'GET' }, { id: 'b' });
eq(urls, ['http://x.test/a/b?trace=1'], 'url');
"""),
dict(ID='c12-ok-declared', PROPERTY='C12',
 NEEDS='an answer with a status below 400 that the route does not declare',
 BREAKS='decode() may reject instead of reporting a decodeError with the body',
 EDITS=[(SW+'request.ts',"  // Stop superagent from throwing on non-2xx status codes\n  patchedReq.ok(() => true);","  // Stop superagent from throwing on non-2xx status codes\n  patchedReq.ok(\n    ({ status }) => status >= 400 || hasCodecForStatus(route.response, status),\n  );")],
 DEMO=LIB+r"""
const S = load('superagent-wrapper'); const superagent = reqIn('superagent-wrapper')('superagent'); const express = reqIn('typed-express-router')('express');
const route = { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } };
const app = express(); app.get('/x', (req, res) => res.status(201).json('made'));
await serve(app, async (call, base) => {
  const out = await S.requestForRoute(S.superagentRequestFactory(superagent, base), route)({}).decode();
  eq([out.status, out.body], ['decodeError', 'made'], 'undeclared status');
});
"""),
dict(ID='c14-single-key-record', PROPERTY='C14',
 NEEDS='a record whose keys are a single literal',
 BREAKS='the document accepts any property name, and does not require the one there is',
 EDITS=[(G+'openapi.ts',"          if (keys.type === 'string' && keys.enum !== undefined) {","          if (keys.type === 'string' && keys.enum !== undefined && keys.enum.length > 1) {")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + api("t.record(t.literal('a'), t.number)") });
eq(schema(r), { type: 'object', properties: { a: { type: 'number' } }, required: ['a'] }, 'record');
"""),
dict(ID='c16-tuple-first-ref', PROPERTY='C16',
 NEEDS='a named codec that is only reached through a nested union or tuple that is not the first of its parent',
 BREAKS='its component is missing: the reference dangles',
 EDITS=[(G+'ref.ts',"    return schema.schemas.reduce<Reference[]>((acc, member) => {\n      return [...acc, ...getRefs(member, typeMap)];\n    }, []);\n  } else if (schema.type === 'object') {","    const refs = schema.schemas.filter(\n      (member): member is Reference => member.type === 'ref',\n    );\n    return refs.length > 0\n      ? refs.flatMap((ref) => getRefs(ref, typeMap))\n      : schema.schemas.flatMap((member) => getRefs(member, typeMap));\n  } else if (schema.type === 'object') {")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "const A = t.type({ a: t.string });\nconst B = t.type({ b: t.string });\n" + api("t.union([A, t.union([B, t.number])])") });
eq(Object.keys(r.doc.components.schemas).sort(), ['A', 'B'], 'components');
"""),
dict(ID='c17-star-first', PROPERTY='C17',
 NEEDS='a module with a star export whose file exports a name that the module also exports itself',
 BREAKS='the name is resolved to the one of the star export',
 EDITS=[(G+'resolveInit.ts',"  for (const starExport of sourceFile.symbols.exportStarFiles) {","  for (const exp of sourceFile.symbols.exportStarFiles.length > 0\n    ? []\n    : sourceFile.symbols.exports) {\n    if (exp.exportedName === name) {\n      return findLocalInitializer(project, sourceFile, exp.localName);\n    }\n  }\n  for (const starExport of sourceFile.symbols.exportStarFiles) {"),
        (G+'resolveInit.ts',"  return errorLeft(`Unknown identifier ${name}`);\n}\n\nexport function findSymbolInitializer(","  const own = sourceFile.symbols.exports.find((exp) => exp.exportedName === name);\n  return own !== undefined\n    ? findLocalInitializer(project, sourceFile, own.localName)\n    : errorLeft(`Unknown identifier ${name}`);\n}\n\nexport function findSymbolInitializer("),
        (G+'resolveInit.ts',"  visited.add(sourceFile);\n  for (const exp of sourceFile.symbols.exports) {\n    if (exp.exportedName === name) {\n      return findLocalInitializer(project, sourceFile, exp.localName);\n    }\n  }\n","  visited.add(sourceFile);\n")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "import { A } from './lib';\n" + api('A'), 'lib.ts': "import * as t from 'io-ts';\nexport * from './other';\nexport const A = t.string;\n", 'other.ts': "import * as t from 'io-ts';\nexport const A = t.number;\n" });
eq(r.doc.components.schemas.A.type, 'string', 'A');
"""),
dict(ID='c18-last-header', PROPERTY='C18',
 NEEDS='a request union of which two members declare the same header differently',
 BREAKS='the header is described as the last member declares it: required, though a request of the first member needs none',
 EDITS=[(G+'route.ts',"          // Only add if not already present\n          if (!headerParams.has(name)) {","          // Prefer a declaration that requires the header\n          if (!headerParams.has(name) || headers.required.includes(name)) {")],
 DEMO=SRC+r"""
const H2 = H + "export const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p', method: 'GET', request: t.union([h.httpRequest({ headers: { a: h.optional(t.number) } }), h.httpRequest({ headers: { a: t.string } })]), response: { 200: t.string } }) } });\n";
const r = generate({ 'index.ts': H2 });
eq(r.doc.paths['/p'].get.parameters, [{ name: 'a', in: 'header', schema: { type: 'number' } }], 'header');
"""),
dict(ID='c19-first-comment', PROPERTY='C19',
 NEEDS='a property with two documentation comments in front of it',
 BREAKS='the first one is used',
 EDITS=[(G+'codec.ts',"        ? { ...valueE.right, comment: comments[comments.length - 1] }","        ? { ...valueE.right, comment: comments[0] }")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + api("t.type({\n/** old */\n/** new */\na: t.string })") });
eq(schema(r).properties.a, { type: 'string', description: 'new' }, 'comment');
"""),
dict(ID='c21-description-name', PROPERTY='C21',
 NEEDS='--name given, no --description, and a package.json without description but with another name',
 BREAKS='the default description names the package instead of the given name',
 EDITS=[(G+'cli.ts',"      descriptionParam ?? packageJson['description'] ?? `API spec for ${name}`;","      descriptionParam ??\n      packageJson['description'] ??\n      `API spec for ${packageJson['name'] ?? name}`;")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + api('t.string'), 'package.json': '{"name":"pkg"}' }, { args: ['--name', 'mine'] });
eq(r.doc.info, { title: 'mine', version: '0.0.1', description: 'API spec for mine' }, 'info');
"""),
dict(ID='c21-codec-file-ignored', PROPERTY='C21',
 NEEDS='an imported package whose customCodecFile has no default export, while its codecs can be described without it',
 BREAKS='the command succeeds with a document made without the custom codecs',
 EDITS=[(G+'project.ts',"        return errorLeft(`Could not find default export in ${customCodecPath}`);","        console.error(`Could not find default export in ${customCodecPath}`);\n        return E.right({});")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "import { A } from 'pkg';\n" + api('A'), 'node_modules/pkg/package.json': '{"name":"pkg","types":"index.ts","customCodecFile":"codecs.js"}', 'node_modules/pkg/codecs.js': 'exports.__esModule = true;\nexports.codecs = () => ({ A: () => ({}) });', 'node_modules/pkg/index.ts': "import * as t from 'io-ts';\nexport const A = t.string;\n" });
ok(r.code !== 0 && r.stdout.trim() === '', 'the command fails: ' + r.code + ' ' + r.stdout.slice(0, 60));
"""),
]
