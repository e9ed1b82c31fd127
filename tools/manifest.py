#!/usr/bin/env python3
# Generates properties.jsonl and MANIFEST.json (run from /verif).
import json, os, glob

def P(id, title, statement, over, text, why, files, mech, level_note, state=None, observe=None, technique=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech],
                             **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                             **({'observe_at': observe} if observe else {}), hook_needed=None)), level_note, technique

I = 'packages/io-ts-http/src/'; R = 'packages/typed-express-router/src/'; W = 'packages/express-wrapper/src/'; S = 'packages/superagent-wrapper/src/'; G = 'packages/openapi-generator/src/'
EXH = 'stateless model checking of the real code: exhaustive bounded enumeration of executions against a reference model'
PROPS = [
P('C01', 'A request codec flattens and unflattens a request without loss',
  'Decoding an HTTP request with a request codec succeeds exactly when every declared path, query, header and body property decodes with its own codec, and yields one flat object holding exactly the declared properties (undeclared input properties and absent optional ones do not appear). Encoding such an object puts every property back into its own section, encoded with its own codec, and decoding what was encoded gives the same object; a failed decode reports errors and neither operation modifies or shares mutation with its input.',
  ['inputs', 'programs'], 'every request codec built from params/query/headers/body sections, every raw request and every typed request object',
  'The tests decode a handful of hand-written requests for a handful of codecs; the claim quantifies over all section/codec/value combinations.',
  [I+'httpRequest.ts', I+'combinators.ts'], [('flattened', I+'combinators.ts'), ('httpRequest', I+'httpRequest.ts')],
  'Every combination of sections, codecs and values within the stated bounds is executed on the real codecs and compared with a hand-written reference; trusts io-ts leaf codecs.'),
P('C02', 'Properties that accept undefined are optional, everywhere and only there',
  'In an object codec with optional properties, a property whose codec accepts undefined may be absent, and every other property must be present and valid. Neither decoding nor encoding ever produces an explicit undefined property, and neither changes the value it was given.',
  ['inputs', 'programs'], 'every set of property codecs and every input object, including inherited, frozen and explicit-undefined ones',
  'The tests use a few fixed shapes; interactions between required/optional, transforming and identity codecs are not sampled.',
  [I+'combinators.ts'], [('optionalized', I+'combinators.ts'), ('optional', I+'combinators.ts')],
  'Exhaustive over property-codec sets and inputs within the bounds; trusts io-ts leaf codecs.'),
P('C03', 'Status names and codes agree everywhere',
  'The table from status codes to names and the table from names to codes are inverses of each other over exactly the standard statuses the library names. Every response helper, in every package that offers them, builds a response with its own status and the payload it was given, and both server packages send that status on the wire whether it is given by number or by name.',
  ['inputs', 'configurations'], 'every standard status, every helper of every set, by number and by name',
  'The tests touch four or five statuses; a single wrong row is invisible to them.',
  [I+'statusCode.ts', I+'httpResponse.ts', 'packages/response/src/response.ts', 'packages/response/src/keyed-response.ts', W+'response.ts'], [('HttpToKeyStatus / KeyToHttpStatus', I+'statusCode.ts'), ('Response helpers', I+'httpResponse.ts'), ('responseFunction', 'packages/response/src/keyed-response.ts')],
  'Complete enumeration of the finite tables and of every status through both servers (1xx cannot be served as final responses).'),
P('C04', 'A typed route handler only ever sees a request that decodes',
  'On a checked route the handlers run exactly when the request decodes, and see the decoded value; otherwise they do not run and the client gets one response whose status and body come from the route\'s decode-error hooks, else the router\'s, else the defaults (400). On an unchecked route the handlers always run and see the decode result, successful or not; router-level middleware runs before validation, in registration order, and whatever it or a handler answers or reports as an error is final.',
  ['inputs', 'configurations', 'histories'], 'every method, request, codec shape, middleware/handler behaviour and hook configuration',
  'The tests fix one configuration per feature and one bad request each; the precedence and ordering rules are claims over the whole product.',
  [R+'index.ts', R+'errors.ts'], [('makeAddRoute / validateMiddleware', R+'index.ts'), ('wrapReqAndRes', R+'index.ts')],
  'Every execution within the deviation bound runs on the real router over in-memory HTTP against a reference model.'),
P('C05', 'sendEncoded sends the encoded payload or an encode error, once',
  'Replying with a declared status and a payload its codec accepts sends exactly that HTTP status and the encoded payload; replying with an undeclared or unknown status, or with a payload that is not accepted or cannot be encoded, sends the route\'s (else the router\'s, else the default 500) encode-error status and body instead, and never the raw payload. The after-response hook of the route (else of the router) runs exactly once per successfully encoded response, with the status and original payload, and never for an encode error; nothing a hook or a further reply does changes or adds to the one response.',
  ['inputs', 'configurations', 'fault_sequences'], 'every status, payload, hook configuration (including hooks that throw) and repetition of replies',
  'Each test replies once with one payload; hook failures, repeated replies and precedence combinations are not reached.',
  [R+'index.ts'], [('sendEncoded', R+'index.ts')],
  'Every execution within the deviation bound runs on the real router over in-memory HTTP against a reference model.'),
P('C06', 'A request reaches exactly the first matching registered route',
  'For every history of route registrations, a request is handled by the handlers of the registrations whose method and path template (or alias) match, in registration order, until one answers; each sees its own operation name, route and path parameters, and a request that matches none leaves the router untouched. A wrapped express router keeps its other express behaviour (plain routes, options, mounting), and registering a route that the spec leaves undefined fails without registering anything.',
  ['histories', 'inputs', 'configurations'], 'every registration history, request method and URL, router option, mount point and alias set',
  'The tests register one or two routes in one order; overlapping templates and order effects need whole histories.',
  [R+'index.ts', R+'path.ts'], [('makeAddUncheckedRoute', R+'index.ts'), ('apiTsPathToExpress', R+'path.ts'), ('wrapRouter', R+'index.ts')],
  'All registration histories up to the depth bound, each followed by every request of a URL alphabet; trusts express matching of literal and :name segments.'),
P('C07', 'Tracing is complete and changes nothing',
  'With tracing available, every request to a typed route produces exactly one decode span and every encoded reply exactly one encode span; each carries the operation, method and path, is ended exactly once whatever fails, and records the error and status that the client gets when decoding or encoding fails, or the status sent when it succeeds. Clients and handlers see exactly the same behaviour with tracing present or absent.',
  ['inputs', 'configurations', 'fault_sequences'], 'every request outcome and every point at which a codec, hook, middleware or handler fails',
  'The tests trace one success and one failure; spans leaked on the throwing paths are invisible to them.',
  [R+'telemetry.ts', R+'index.ts'], [('createDecodeSpan / createSendEncodedSpan / endSpan', R+'telemetry.ts'), ('wrapReqAndRes / endDecodeSpanMiddleware / sendEncoded', R+'index.ts')],
  'Every execution within the deviation bound runs on the real router twice (recording tracer / tracing absent); trusts the OpenTelemetry API package.'),
P('C08', 'Concurrent requests and calls do not affect each other',
  'Whatever order concurrent requests arrive in and their middleware and handlers resume in, each request is decoded, handled and answered exactly as if it were alone. Likewise every outstanding client call settles with the outcome of its own response, in whatever order responses arrive.',
  ['schedules'], 'every interleaving of the await points of concurrent requests and every order of responses',
  'The tests run one request at a time; state shared between requests only shows under particular interleavings.',
  [R+'index.ts', W+'request.ts', W+'middleware.ts', S+'request.ts'], [('per-request state on req/res', R+'index.ts'), ('runMiddlewareChain', W+'middleware.ts'), ('patchRequest', S+'request.ts')],
  'All schedules of the await points within the bounds, on the real code under a controlled scheduler; code between awaits is atomic in JavaScript.', technique='stateless model checking of the real code: all schedules under a controlled scheduler'),
P('C09', 'A middleware chain runs in order, merges results, and stops on any error',
  'The middleware of an express-wrapper route runs one after another in order, and the route handler runs only after all of them have continued. With routeHandler the handler gets the decoded request with the properties added by each middleware, later ones winning; without it, exactly the decoded request. As soon as one middleware reports an error in any way (thrown, rejected or passed on) or answers, nothing after it runs, and a reported error is answered with an error status.',
  ['programs', 'fault_sequences'], 'every chain of middleware behaviours, synchronous or asynchronous, for both ways of declaring a handler',
  'The tests run a few chains of up to three middleware; an error in an unmerged chain is not tested at all.',
  [W+'middleware.ts', W+'request.ts'], [('runMiddlewareChain / runMiddlewareChainIgnoringResults', W+'middleware.ts'), ('middlewareFn', W+'middleware.ts'), ('handleRequest', W+'request.ts')],
  'All chains up to the length bound over 18 behaviours on the real server over in-memory HTTP.'),
P('C10', 'A service function\'s result decides the one HTTP response',
  'On an express-wrapper server every route of the spec runs its own handler, once, with the decoded request, and the result\'s status (by number or name) and encoded payload become the response. A result with an unknown or undeclared status, one that cannot be encoded, and a handler that fails are answered with 500; a request that does not decode never reaches the handler and gets the configured (default 400) decode-error response; there is always exactly one response and the request is not passed on.',
  ['inputs', 'configurations', 'fault_sequences'], 'every service result or failure, handler form, request and server configuration',
  'The tests return well-formed results only; failing handlers are not tested.',
  [W+'index.ts', W+'request.ts', W+'response.ts'], [('handleRequest', W+'request.ts'), ('defaultResponseEncoder', W+'response.ts'), ('routerForApiSpec / createServer', W+'index.ts')],
  'Every execution within the deviation bound runs on the real server over in-memory HTTP against a reference model.'),
P('C11', 'Client and server built from one spec agree on every message',
  'What a generated client is given for a route is exactly what a server for the same spec decodes and hands to that route\'s handler, for every path, query, header and body value (any characters; optional properties absent or undefined). What the handler replies is exactly what the client decodes: same status, same value.',
  ['inputs', 'configurations'], 'every typed request and reply, both server packages, superagent and supertest, any base URL',
  'The tests send plain ASCII words and small integers; reserved characters, falsy values and undefined are not sampled.',
  [S+'request.ts', S+'routes.ts', I+'httpRequest.ts', R+'index.ts', W+'request.ts'], [('requestForRoute / substitutePathParams', S+'request.ts'), ('request codec', I+'combinators.ts')],
  'All pairs (thorough: triples) of deviations over value tables, over real HTTP on loopback, for both servers and both clients.'),
P('C12', 'The client classifies every response correctly',
  'decode() settles successfully for every completed HTTP response: with the status and decoded body when the status is declared and its codec accepts the body, and otherwise with a decode error that carries the raw body and original response. decodeExpecting(status) resolves exactly when the response has that status and decodes, and otherwise rejects with an error carrying the decoded response; a failed transport rejects with its own error.',
  ['inputs', 'fault_sequences'], 'every status, body, text and expected status',
  'The tests see four responses; falsy and unparsed bodies are not among them.',
  [S+'request.ts'], [('patchRequest: decode / decodeExpecting', S+'request.ts')],
  'Complete enumeration of the bounded product of statuses, bodies, texts and expectations on the real client, scripted and over loopback HTTP.'),
P('C13', 'Clients and servers cover exactly the routes of the spec',
  'A client built from a spec has exactly one call per declared route and each call sends its own route. A server built from a spec answers exactly the declared routes, each with its own handler; keys that are not methods and inherited entries are not routes, and an explicitly undefined route is rejected.',
  ['configurations'], 'every set of apis and methods in a spec',
  'The tests use two or three fixed specs.',
  [S+'routes.ts', W+'index.ts', R+'index.ts'], [('buildApiClient', S+'routes.ts'), ('routerForApiSpec', W+'index.ts')],
  'Every subset of 2 apis x 5 methods on the real builders, with every request.'),
]
def extra():
    f = 'tools/properties_generator.py'
    if os.path.exists(f):
        g = dict(P=P, I=I, R=R, W=W, S=S, G=G); exec(open(f).read(), g); return g['PROPS']
    return []
PROPS += extra()
built = {os.path.basename(f).split('-')[0] for f in glob.glob('checks/C*.js')}
with open('properties.jsonl', 'w') as o:
    for p, _, _ in PROPS: o.write(json.dumps(p) + '\n')
checks = []; na = []
for p, note, tech in PROPS:
    if p['id'] in built:
        checks.append(dict(property=p['id'], quick_cmd=f"node lib/main.js {p['id']} quick", thorough_cmd=f"node lib/main.js {p['id']} thorough", technique=tech or EXH, level='model_checking', level_note=note))
    else: na.append(dict(property=p['id'], reason='the check is under construction'))
json.dump(dict(version=1, setup_cmd='node lib/selftest.js', checks=checks, not_applicable=na, notes='No hooks in /repo: the checks transpile /repo\'s current working tree into a private scratch directory and drive the real code.'), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
