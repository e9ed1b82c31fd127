G='packages/openapi-generator/src/'
TR='packages/typed-express-router/src/index.ts'
EW='packages/express-wrapper/src/'
SW='packages/superagent-wrapper/src/'
SRC=r"""const H = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
const api = (codec, more = '') => `export const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: ${codec} } })${more} } });\n`;
const schema = (r) => r.doc.paths['/p'].get.responses[200].content['application/json'].schema;
"""
SEEDS=[
dict(ID='c04-headers-sent', PROPERTY='C04',
 NEEDS='a router middleware that has already sent (or flushed) the response and an invalid request',
 BREAKS='the typed handler runs with the decode errors instead of a decoded request',
 EDITS=[(TR,"              res.status(statusCode).json(decodeErrorMessage);\n            },\n            (value)","              if (res.headersSent) {\n                // The request has been answered already\n                next();\n                return;\n              }\n              res.status(statusCode).json(decodeErrorMessage);\n            },\n            (value)")],
 DEMO=r"""
const h = load('io-ts-http'); const R = load('typed-express-router'); const t = reqIn('io-ts-http')('io-ts'); const express = reqIn('typed-express-router')('express');
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({ query: { q: t.string } }), response: { 200: t.unknown } } } };
const router = R.createRouter(spec); const seen = [];
router.use((req, res, next) => { res.flushHeaders(); next(); });
router.get('a.one', [(req, res) => { seen.push(req.decoded); res.end(); }]);
const app = express(); app.use(router); app.use((e, req, res, next) => res.end());
await serve(app, async (call) => { await call('GET', '/x'); eq(seen, [], 'the handler is not reached'); });
"""),
dict(ID='c06-duplicate-skip', PROPERTY='C06',
 NEEDS='two routes with the same method and path pattern under different api names, and a handler of the first that passes the request on',
 BREAKS='the second route is never registered, so the request falls through to 404',
 EDITS=[(TR,"  const routerMiddleware: UncheckedRequestHandler[] = [];","  const routerMiddleware: UncheckedRequestHandler[] = [];\n  // Express never gets past the first route of a path\n  const registered = new Set<string>();"),
        (TR,"      router[method](apiTsPathToExpress(path), middlewareChain);","      const expressPath = apiTsPathToExpress(path);\n      if (!registered.has(`${method} ${expressPath}`)) {\n        registered.add(`${method} ${expressPath}`);\n        router[method](expressPath, middlewareChain);\n      }")],
 DEMO=r"""
const h = load('io-ts-http'); const R = load('typed-express-router'); const t = reqIn('io-ts-http')('io-ts'); const express = reqIn('typed-express-router')('express');
const route = () => ({ get: { path: '/{x}', method: 'GET', request: h.httpRequest({ params: { x: t.string } }), response: { 200: t.string } } });
const router = R.createRouter({ 'a.one': route(), 'a.two': route() });
router.get('a.one', [(req, res, next) => next()]);
router.get('a.two', [(req, res) => res.sendEncoded(200, 'two')]);
const app = express(); app.use(router);
await serve(app, async (call) => { const r = await call('GET', '/v'); eq([r.status, r.json], [200, 'two'], 'the second route answers'); });
"""),
dict(ID='c10-preset-status', PROPERTY='C10',
 NEEDS='a middleware that sets a status before the service function returns another one',
 BREAKS='the response is sent with the status of the middleware instead of the one the service function returned',
 EDITS=[(EW+'response.ts',"      res.status(status).json(responseCodec!.encode(payload)).end();","      // a status that has been set explicitly takes precedence over the plain success\n      if (status !== 200 || res.statusCode === 200) {\n        res.status(status);\n      }\n      res.json(responseCodec!.encode(payload)).end();")],
 DEMO=r"""
const h = load('io-ts-http'); const W = load('express-wrapper'); const t = reqIn('io-ts-http')('io-ts');
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } } } };
const app = W.createServer(spec, () => ({ 'a.one': { get: { middleware: [(req, res, next) => { res.status(202); next(); }], handler: async () => h.Response.ok('x') } } }));
await serve(app, async (call) => { const r = await call('GET', '/x'); eq([r.status, r.json], [200, 'x'], 'status of the service function'); });
"""),
dict(ID='c11-empty-query', PROPERTY='C11',
 NEEDS='a query parameter whose encoded value is the empty string',
 BREAKS='the client does not send the parameter, so the server sees another request or rejects it',
 EDITS=[(SW+'request.ts',"    let request = requestFactory(route, reqProps.params).query(reqProps.query);","    // `?a=&b=` is the same as no query\n    const query = Object.fromEntries(\n      Object.entries(reqProps.query).filter(([, value]) => value !== ''),\n    );\n    let request = requestFactory(route, reqProps.params).query(query);")],
 DEMO=r"""
const h = load('io-ts-http'); const W = load('express-wrapper'); const S = load('superagent-wrapper'); const t = reqIn('io-ts-http')('io-ts'); const superagent = reqIn('superagent-wrapper')('superagent');
const spec = { 'a.one': { get: { path: '/x', method: 'GET', request: h.httpRequest({ query: { q: t.string } }), response: { 200: t.string } } } };
const app = W.createServer(spec, () => ({ 'a.one': { get: async ({ q }) => h.Response.ok(`got ${q}`) } }));
await serve(app, async (call, base) => { const c = S.buildApiClient(S.superagentRequestFactory(superagent, base), spec); const r = await c['a.one'].get({ q: '' }).decode(); eq([r.status, r.body], [200, 'got '], 'an empty string arrives'); });
"""),
dict(ID='c13-client-memo', PROPERTY='C13',
 NEEDS='two routes of one spec with the same method and path but different codecs',
 BREAKS='the second client function uses the codecs of the first route',
 EDITS=[(SW+'routes.ts',"  const result: any = {};\n","  const result: any = {};\n  // Actions may share their routes\n  const requests: Record<string, any> = {};\n"),
        (SW+'routes.ts',"      subSpec[method] = requestForRoute(requestFactory, route);","      subSpec[method] = requests[`${route.method} ${route.path}`] ??= requestForRoute(\n        requestFactory,\n        route,\n      );")],
 DEMO=r"""
const h = load('io-ts-http'); const S = load('superagent-wrapper'); const t = reqIn('io-ts-http')('io-ts'); const { NumberFromString } = reqIn('io-ts-http')('io-ts-types');
const route = (q) => ({ get: { path: '/x', method: 'GET', request: h.httpRequest({ query: q }), response: { 200: t.string } } });
const sent = []; const factory = () => { const r = Promise.resolve({}); r.query = (q) => { sent.push(q); return r; }; r.ok = () => r; r.set = () => r; return r; };
const c = S.buildApiClient(factory, { 'a.one': route({ q: t.string }), 'a.two': route({ n: NumberFromString }) });
c['a.two'].get({ n: 5 }); eq(sent, [{ n: '5' }], 'query of the second route');
"""),
dict(ID='c14-assign-order', PROPERTY='C14',
 NEEDS='Object.assign where a later source overrides a property of an earlier one with another codec',
 BREAKS='the overridden codec is described',
 EDITS=[(G+'knownImports.ts',"        return { ...acc, ...source.properties };","        return { ...source.properties, ...acc };")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "export const A = t.type(Object.assign({ a: t.string }, { a: t.number, b: t.boolean }));\n" + api('A') });
eq(r.doc.components.schemas.A.properties, { a: { type: 'number' }, b: { type: 'boolean' } }, 'the last codec of a property counts');
"""),
dict(ID='c15-absorb-literals', PROPERTY='C15',
 NEEDS='a union of a literal and a constrained codec of the same wire type without a format (NonEmptyString or t.literal(""))',
 BREAKS='the literal disappears from the union',
 EDITS=[(G+'optimize.ts',"    if (value.size > 0) {\n      result.schemas.push","    // A literal is already described by a constrained string that is not decoded\n    const known = remainder.some(\n      (s) =>\n        s.type === key && !s.comment && (s.decodedType ?? s.type) === key && 'minLength' in s,\n    );\n    if (value.size > 0 && !known) {\n      result.schemas.push")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': "import { NonEmptyString } from 'io-ts-types';\n" + H + "export const A = t.type({ a: t.union([NonEmptyString, t.literal('')]) });\n" + api('A') });
ok(JSON.stringify(r.doc.components.schemas.A).includes('""'), 'the literal is described');
"""),
dict(ID='c16-resolve-cache', PROPERTY='C16',
 NEEDS='two directories of the same name whose files import the same relative path',
 BREAKS='a reference is resolved to the file of the other directory',
 EDITS=[(G+'project.ts',"  resolve(basedir: string, path: string): E.Either<string, string> {\n    try {","  private resolved: Map<string, string> = new Map();\n\n  resolve(basedir: string, path: string): E.Either<string, string> {\n    const key = `${p.basename(basedir)}:${path}`;\n    const known = this.resolved.get(key);\n    if (known !== undefined) {\n      return E.right(known);\n    }\n    try {"),
  (G+'project.ts',"      const result = resolve.sync(path, {\n        basedir,\n        extensions: ['.ts', '.js'],\n      });","      const result = resolve.sync(path, {\n        basedir,\n        extensions: ['.ts', '.js'],\n      });\n      this.resolved.set(key, result);")],
 DEMO=SRC+r"""
const f = (c) => `import * as t from 'io-ts';\nexport const A = ${c};\n`;
const r = generate({ 'index.ts': "import { X } from './a/src/x';\nimport { Y } from './b/src/y';\n" + H + api('t.type({ x: X, y: Y })'), 'a/src/x.ts': "import * as t from 'io-ts';\nimport { A } from './types';\nexport const X = t.type({ a: A });\n", 'b/src/y.ts': "import * as t from 'io-ts';\nimport { A } from './types';\nexport const Y = t.type({ a: A });\n", 'a/src/types.ts': f('t.string'), 'b/src/types.ts': f('t.number') });
ok(r.code === 0, r.stderr); const s = JSON.stringify(r.doc); ok(s.includes('"string"') && s.includes('"number"'), 'both codecs are described');
"""),
dict(ID='c17-js-first', PROPERTY='C17',
 NEEDS='a compiled .js file beside the .ts file of the same name with other contents',
 BREAKS='the compiled file is described instead of the source',
 EDITS=[(G+'project.ts',"      const result = resolve.sync(path, {\n        basedir,\n        extensions: ['.ts', '.js'],","      const result = resolve.sync(path, {\n        basedir,\n        extensions: ['.js', '.ts'],")],
 DEMO=SRC+r"""
const f = (c) => `import * as t from 'io-ts';\nexport const A = ${c};\n`;
const r = generate({ 'index.ts': "import { A } from './a';\n" + H + api('A'), 'a.ts': f('t.string'), 'a.js': f('t.number') });
eq(r.doc.components.schemas.A.type, 'string', 'the TypeScript source is described');
"""),
dict(ID='c18-trailing-slash', PROPERTY='C18',
 NEEDS='two routes of the same method whose paths differ by a trailing slash only',
 BREAKS='one of the routes is missing from the document',
 EDITS=[(G+'openapi.ts',"      const [path, method, pathItem] = routeToOpenAPI(route, componentNameMapping);","      const [routePath, method, pathItem] = routeToOpenAPI(route, componentNameMapping);\n      // Express does not distinguish them either\n      const path = routePath.length > 1 ? routePath.replace(/\\/$/, '') : routePath;")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "const route = <P extends string>(p: P) => p;\nexport const api = h.apiSpec({ 'a': { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) }, 'b': { get: h.httpRoute({ path: '/p/', method: 'GET', request: h.httpRequest({}), response: { 200: t.number } }) } });\n" });
eq(Object.keys(r.doc.paths).sort(), ['/p', '/p/'], 'both routes are described');
"""),
dict(ID='c19-enums-deprecated', PROPERTY='C19',
 NEEDS='a keyof codec with deprecated members and without descriptions inside a union with another literal',
 BREAKS='the deprecation of the members is lost',
 EDITS=[(G+'optimize.ts',"      if (\n        innerSchema.comment ||\n        innerSchema.enumDescriptions ||\n        innerSchema.enumsDeprecated\n      ) {","      if (innerSchema.comment || innerSchema.enumDescriptions) {")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "export const A = t.type({ a: t.union([t.keyof({\n  /** @deprecated */\n  x: 1, y: 1 }), t.number]) });\n" + api('A') });
ok(JSON.stringify(r.doc.components.schemas.A).includes('x-enumsDeprecated'), 'the deprecation is kept');
"""),
dict(ID='c20-codec-file-cwd', PROPERTY='C20',
 NEEDS='a codec file named in package.json and the command run from another directory in which that relative path exists, too',
 BREAKS='the document depends on the working directory',
 EDITS=[(G+'cli.ts',"      codecFile = p.join(p.dirname(packageJsonPath), relativeCodecFilePath);","      codecFile = fs.existsSync(relativeCodecFilePath)\n        ? relativeCodecFilePath\n        : p.join(p.dirname(packageJsonPath), relativeCodecFilePath);")],
 DEMO=SRC+r"""
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-cwd-'));
try {
  const codec = (f) => `module.exports = (E) => ({ lib: { L: () => E.right({ type: 'string', format: '${f}' }) } });\n`;
  fs.mkdirSync(dir + '/p/node_modules', { recursive: true }); fs.mkdirSync(dir + '/other');
  fs.writeFileSync(dir + '/p/package.json', JSON.stringify({ name: 'p', 'openapi-generator': { 'codec-file': 'codecs.js' } }));
  fs.writeFileSync(dir + '/p/codecs.js', codec('mine')); fs.writeFileSync(dir + '/other/codecs.js', codec('other'));
  fs.writeFileSync(dir + '/p/index.ts', "import { L } from 'lib';\n" + H + api('t.type({ a: L })'));
  const run = (cwd) => require('child_process').spawnSync(process.execPath, [path.join(root, 'packages/openapi-generator/dist/src/cli.js'), dir + '/p/index.ts'], { encoding: 'utf8', cwd }).stdout;
  const a = run(dir + '/p'), b = run(dir + '/other');
  ok(a.includes('mine'), 'the codec file of the package is used'); ok(a === b, 'the document does not depend on the working directory');
} finally { fs.rmSync(dir, { recursive: true, force: true }); }
"""),
dict(ID='c21-skip-broken-spec', PROPERTY='C21',
 NEEDS='an entry point with two api specs of which one cannot be described',
 BREAKS='the command succeeds with a document that lacks the routes of the broken spec',
 EDITS=[(G+'cli.ts',"        logError(`Error when parsing ${symbol.name}: ${result.left}`);\n        process.exit(1);","        logError(`Error when parsing ${symbol.name}: ${result.left}`);\n        continue;")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + api('t.string') + "export const other = h.apiSpec(somewhere);\n" });
ok(r.code !== 0 && r.stdout === '', 'a broken api spec fails the command');
"""),
]
