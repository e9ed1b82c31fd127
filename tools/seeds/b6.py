exec(open('/verif/tools/seeds/b3.py').read().split('SEEDS=[')[0])
RI=G+'resolveInit.ts'
SEEDS=[
dict(ID='c17-default-as', PROPERTY='C17',
 NEEDS='`import { default as X }` of a module that also exports something named X',
 BREAKS='the import stands for the export named X, not for the default export',
 EDITS=[(G+'symbol.ts',"          importedName: specifier.imported?.value ?? specifier.local.value,","          importedName:\n            specifier.imported?.value === 'default'\n              ? specifier.local.value\n              : (specifier.imported?.value ?? specifier.local.value),")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "import { default as X } from './m';\n" + api('t.array(X)'), 'm.ts': H + "export const X = t.number;\nconst D = t.string;\nexport default D;\n" });
ok(r.doc && JSON.stringify(r.doc).includes('"string"') && !JSON.stringify(r.doc).includes('"number"'), 'the default export: ' + (r.stderr || r.stdout));
"""),
dict(ID='c21-one-server', PROPERTY='C21',
 NEEDS='an entry file with two api specs that have different @url tags',
 BREAKS='only the first server is in the document',
 EDITS=[(G+'cli.ts',"      if (server !== undefined) {\n","      if (server !== undefined && servers.length === 0) {\n")],
 DEMO=SRC+r"""
const spec = (n, u) => `/** S${n}\n * @url ${u} */\nexport const a${n} = h.apiSpec({ 'x.y${n}': { get: h.httpRoute({ path: '/p${n}', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) } });\n`;
const r = generate({ 'index.ts': H + spec(1, 'https://one.example') + spec(2, 'https://two.example') });
eq(r.doc.servers.map((s) => s.url), ['https://one.example', 'https://two.example'], 'servers');
"""),
dict(ID='c19-lower-description', PROPERTY='C19',
 NEEDS='a property with a comment that has only tags, whose codec is a union with a described member',
 BREAKS='the description of the member becomes the one of the property',
 EDITS=[(G+'comments.ts',"  if (comments[0]?.description && comments[0].description !== '') {\n    result.description = comments[0].description;\n  }","  result.description = comments.find((c) => c.description)?.description ?? '';")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "/** Of A. */\nconst A = t.type({ a: t.string });\n" + api("t.type({\n  /** @deprecated */\n  p: h.optional(A),\n})") });
const p = schema(r).properties.p;
ok(p.description === undefined, 'description of p: ' + JSON.stringify(p));
"""),
dict(ID='c14-assign-first', PROPERTY='C14',
 NEEDS='Object.assign of property maps that declare one key with different codecs',
 BREAKS='the first declaration is described, the last one decodes',
 EDITS=[(G+'knownImports.ts',"        return { ...acc, ...source.properties };","        return { ...source.properties, ...acc };")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "const one = { a: t.string }; const two = { a: t.number };\n" + api('t.type(Object.assign({}, one, two))') });
eq(schema(r).properties.a.type, 'number', 'type of a');
"""),
dict(ID='c14-zero-excluded', PROPERTY='C14',
 NEEDS='a NonPositiveInt that is zero',
 BREAKS='the schema rejects zero',
 EDITS=[(G+'knownImports.ts',"    NonPositiveInt: () =>\n      E.right({\n        type: 'number',\n        maximum: 0,\n      }),","    NonPositiveInt: () =>\n      E.right({\n        type: 'number',\n        maximum: 0,\n        exclusiveMaximum: true,\n      }),")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "import { NonPositiveInt } from 'io-ts-numbers';\n" + api('NonPositiveInt') });
eq(schema(r), { type: 'number', maximum: 0 }, 'schema');
"""),
dict(ID='c18-single-body', PROPERTY='C18',
 NEEDS='an intersection of requests of which only one has a body',
 BREAKS='the operation has no request body',
 EDITS=[(G+'route.ts',"  if ((result.body as CombinedType).schemas.length === 0) {","  if ((result.body as CombinedType).schemas.length < 2) {")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "export const api = h.apiSpec({ 'x.y': { post: h.httpRoute({ path: '/p', method: 'POST', request: t.intersection([h.httpRequest({ query: { q: t.string } }), h.httpRequest({ body: { b: t.number } })]), response: { 200: t.string } }) } });\n" });
ok(r.doc.paths['/p'].post.requestBody, 'the body: ' + JSON.stringify(r.doc.paths['/p'].post));
"""),
dict(ID='c17-raw-template', PROPERTY='C17',
 NEEDS='a template literal with an escape sequence in a path',
 BREAKS='the path has the escape sequence instead of the character',
 EDITS=[(G+'codec.ts',"      const quasis = template.quasis.map((quasi) => quasi.cooked);","      const quasis = template.quasis.map((quasi) => quasi.raw);")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "export const api = h.apiSpec({ 'x.y': { get: h.httpRoute({ path: `/\\u0061bc`, method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) } });\n" });
eq(Object.keys(r.doc.paths), ['/abc'], 'paths');
"""),
dict(ID='c17-typings', PROPERTY='C17',
 NEEDS='a package that names its entry point by `typings` only',
 BREAKS='its codecs are not found',
 EDITS=[(G+'project.ts',"      } else if (packageInfo['typings']) {\n        typesEntryPoint = packageInfo['typings'];\n","")],
 DEMO=SRC+r"""
const r = generate({ 'index.ts': H + "import { X } from 'pkg';\n" + api('X'), 'node_modules/pkg/package.json': JSON.stringify({ name: 'pkg', version: '1.0.0', typings: 'i.ts' }), 'node_modules/pkg/i.ts': H + 'export const X = t.number;\n' });
ok(r.doc && r.doc.components.schemas.X.type === 'number', r.stderr || r.stdout);
"""),
dict(ID='c20-visited-packages', PROPERTY='C20',
 NEEDS='two projects in one process that use the same package with custom codecs',
 BREAKS='the second project does not know the custom codecs',
 EDITS=[(G+'project.ts',"export class Project {\n","const visitedPackages: Set<string> = new Set();\n\nexport class Project {\n"),(G+'project.ts',"    this.visitedPackages = new Set();","    this.visitedPackages = visitedPackages;")],
 DEMO=SRC+r"""
const { Project } = load('openapi-generator');
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-prj-'));
try {
  const put = (f, s) => { fs.mkdirSync(path.dirname(path.join(dir, f)), { recursive: true }); fs.writeFileSync(path.join(dir, f), s); };
  put('node_modules/pkg/package.json', JSON.stringify({ name: 'pkg', version: '1.0.0', customCodecFile: 'codecs.js' }));
  put('node_modules/pkg/codecs.js', "module.exports = (E) => ({ X: () => E.right({ type: 'number' }) });");
  put('index.ts', "import { X } from 'pkg';\nexport const a = X;\n");
  for (let i = 0; i < 2; i++) {
    const p = await new Project().parseEntryPoint(path.join(dir, 'index.ts'));
    ok(p._tag === 'Right' && p.right.resolveKnownImport('pkg', 'X') !== undefined, 'custom codec in project ' + i);
  }
} finally { fs.rmSync(dir, { recursive: true, force: true }); }
"""),
]
