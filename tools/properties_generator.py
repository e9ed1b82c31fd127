GEN = 'The command is driven in process on real source trees in a scratch directory; the same sources are evaluated by the real libraries as the oracle.'
PROPS = [
P('C14', 'The generated schema says what the codec accepts',
  'For every codec expression the generator supports, however nested and whether written inline or behind a name, the schema in the generated document (following references, nullability and requiredness) describes exactly the JSON values that the codec itself decodes; constraints of known codecs (bounds, lengths, patterns, formats, minimum item counts) are those of the codec.',
  ['programs', 'inputs'], 'every composition of supported codecs and every JSON value',
  'The tests compare documents for some eighty hand-picked sources with hand-written expectations; the meaning of nested compositions is never compared with what the codec decodes.',
  [G+'codec.ts', G+'knownImports.ts', G+'optimize.ts', G+'openapi.ts', I+'combinators.ts'], [('parseCodecInitializer', G+'codec.ts'), ('KNOWN_IMPORTS', G+'knownImports.ts'), ('schemaToOpenAPI', G+'openapi.ts')],
  'Exhaustive over codec expressions and JSON values within the bounds, real generator against real codecs; ' + GEN),
P('C15', 'Simplifying a schema does not change what it means',
  'The simplification applied to schemas before they are printed (flattening and merging unions and intersections, dropping undefined members, consolidating primitives) accepts exactly the values the original accepts, with the same required properties, constraints and own documentation; it never modifies the schema it is given and gives the same result for equal schemas.',
  ['inputs'], 'every intermediate schema',
  'The tests simplify a dozen schemas; interactions of nested unions, intersections, optional properties and comments are combinatorial.',
  [G+'optimize.ts', G+'ir.ts'], [('optimize / foldIntersection / simplifyUnion / mergeUnions / filterUndefinedUnion', G+'optimize.ts')],
  'Exhaustive over intermediate schemas within the bounds against a reference interpretation of schemas on 77 values; the documented consolidation of a primitive with codecs from its string form is excluded.'),
P('C16', 'Every reference resolves to the codec it stands for',
  'Every $ref in a generated document resolves to a component of that document, and that component is generated from the very codec the reference stands for: codecs that share a name but come from different files or packages get different components, one codec reached in several ways gets one meaning, and recursion ends. This holds for every set of names, including numbered ones and names of Object.prototype members.',
  ['programs', 'configurations'], 'every assignment of names to codecs over files and packages, and every way to reach them',
  'The tests check two collisions of one name; collisions between derived names, re-exports and packages are not covered.',
  [G+'cli.ts', G+'ref.ts', G+'codec.ts', G+'openapi.ts', G+'project.ts'], [('component collection', G+'cli.ts'), ('getRefs', G+'ref.ts'), ('componentNameMapping', G+'openapi.ts')],
  GEN),
P('C17', 'Names resolve as ES modules resolve them',
  'Wherever the generator follows a name (imports, default and namespace imports, renames, re-exports, star exports, packages, cycles, constants used in paths, keys, spreads and templates), the codec or value it finds is the one that evaluating the modules gives; if it cannot follow a name, it fails instead of describing something else.',
  ['programs'], 'every chain of import and export forms between the definition and the use of a name',
  'The tests have one fixture per import form; chains of forms and shadowed names are not tested.',
  [G+'symbol.ts', G+'resolveInit.ts', G+'project.ts', G+'codec.ts'], [('parseTopLevelSymbols', G+'symbol.ts'), ('findSymbolInitializer', G+'resolveInit.ts'), ('codecIdentifier', G+'codec.ts')],
  GEN),
P('C18', 'The document contains every route of the api spec, completely',
  'However an api spec is composed (inline, spread, imported, named constants), the document has exactly one operation per route of the evaluated spec, at its path and method, with exactly its path, query and header parameters with their schema and requiredness, its request body and all of its responses; requests that are unions or intersections are covered as well.',
  ['programs', 'configurations'], 'every composition of api specs, routes, requests and responses',
  'Each test uses a single composition form; combinations of forms and several routes per path are hardly tested.',
  [G+'apiSpec.ts', G+'route.ts', G+'openapi.ts', G+'cli.ts'], [('parseApiSpec', G+'apiSpec.ts'), ('parseRoute', G+'route.ts'), ('convertRoutesToOpenAPI', G+'openapi.ts')],
  GEN),
P('C19', 'Documentation comments end up where they belong, unchanged',
  'A JSDoc comment on a route, parameter, property, codec or enum member is attached to exactly that element: its description and every documented tag appear with the value written, and text before the comment, other characters (including multibyte ones), other files or other comments never change what appears.',
  ['programs', 'inputs'], 'every placement of comments and tags, and every surrounding text',
  'The tests check single tags in fixed sources; the positions of comments are computed from byte offsets that depend on all earlier text and files.',
  [G+'comments.ts', G+'jsdoc.ts', G+'openapi.ts', G+'codec.ts', G+'symbol.ts'], [('leadingComment', G+'comments.ts'), ('parseCommentBlock', G+'jsdoc.ts'), ('schemaToOpenAPI / routeToOpenAPI', G+'openapi.ts')],
  GEN),
P('C20', 'A document is a function of its sources',
  'Generating a document gives the same bytes every time for the same sources: whatever was parsed before in the same process, in whatever directory the sources lie, in whichever order unrelated files are visited and however concurrent runs interleave. Parsing one project never changes the shared tables of known codecs or the schemas of another.',
  ['histories', 'schedules', 'configurations'], 'every history and interleaving of parses in one process',
  'The tests parse everything once, in one order.',
  [G+'project.ts', G+'sourceFile.ts', G+'knownImports.ts', G+'comments.ts', G+'cli.ts'], [('Project.parseEntryPoint', G+'project.ts'), ('parseSource', G+'sourceFile.ts'), ('KNOWN_IMPORTS', G+'knownImports.ts')],
  GEN, technique='stateless model checking of the real code: all histories and schedules of parses up to the bound'),
P('C21', 'The command either prints a whole document or fails',
  'The command ends with status 0 and prints nothing but one well-formed OpenAPI document, or it ends with a non-zero status, prints a message and no document; input it cannot express is never silently left out. Title, version, description and servers come from the options, else package.json, else the defaults.',
  ['inputs', 'fault_sequences', 'configurations'], 'every input, option and missing or unreadable file',
  'The tests never run the command itself.',
  [G+'cli.ts', G+'project.ts', G+'packageInfo.ts', G+'error.ts'], [('handler', G+'cli.ts'), ('parseEntryPoint', G+'project.ts')],
  GEN),
P('C22', 'The static types say what the codecs do at run time',
  'What TypeScript is told agrees with what the codecs do when the program runs: for every optionalized codec and every request, the static type has exactly the values that the codec accepts (a property may be left out exactly if its codec accepts undefined) and the output type has what encoding gives; a codec whose encoding does not fit into a section of a request is rejected; handlers (of both servers) and clients may be given exactly the declared inputs, behind a middleware chain the merged ones; handlers may answer exactly the declared statuses with values of the declared codecs; a decoded response is told to be exactly one of those; and an operation, method or handler exists in the types of clients, routers and handler tables exactly if the spec declares it under the method of its route.',
  ['programs', 'inputs'], 'every composition of codecs, requests, routes, specs and middleware chains, and every value',
  'The repository has a handful of type-level tests for fixed codecs (TypeScript is otherwise only exercised by code that compiles); a type that is too wide makes no test fail, it silently lets wrong programs compile.',
  [I+'utils.ts', I+'httpRequest.ts', I+'httpRoute.ts', I+'combinators.ts', R+'types.ts', W+'request.ts', W+'middleware.ts', W+'index.ts', S+'request.ts', S+'routes.ts'], [('OptionalProps / RequiredProps', I+'utils.ts'), ('HttpRequestCombinatorProps', I+'httpRequest.ts'), ('ServiceFunction', W+'request.ts'), ('MiddlewareChainOutput', W+'middleware.ts'), ('AddRouteHandler / WrappedRouteOptions', R+'types.ts'), ('DecodedResponse / ExpectedDecodedResponse', S+'request.ts')],
  'Exhaustive over probe programs and values within the bounds: the TypeScript checker of the repository judges each on the sources of the current tree, the real codecs at run time are the oracle.',
  technique='exhaustive enumeration of bounded programs and values; the static judgement of each is compared with the execution of the real codecs'),
]
