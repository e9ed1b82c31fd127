From ccff2ba6afd2e2f5ca62d4dc5e207c81c756f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 01/59] fix: optionalized codecs must not modify their input
 and must drop every explicit undefined

---
 packages/io-ts-http/src/combinators.ts | 65 +++++++++++++++-----------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 1990e20..7030766 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -14,6 +14,25 @@ import {
   Simplify,
 } from './utils';
 
+// Returns `value` without its explicit `undefined` properties. The input may belong to the caller
+// (io-ts returns it as-is when nothing changes), so it must not be modified.
+const withoutUndefined = <T>(value: T): T => {
+  if (typeof value !== 'object' || value === null) {
+    // `t.partial` will return `undefined` when passed `undefined` even though it is not in the type
+    return value;
+  }
+  if (Object.values(value).every((v) => v !== void 0)) {
+    return value;
+  }
+  const result: any = { ...value };
+  for (const key of Object.keys(result)) {
+    if (result[key] === void 0) {
+      delete result[key];
+    }
+  }
+  return result;
+};
+
 const partialWithoutUndefined = <P extends t.Props>(
   props: P,
   name?: string,
@@ -27,32 +46,17 @@ const partialWithoutUndefined = <P extends t.Props>(
   return new t.PartialType(
     partialCodec.name,
     (i): i is DefinedValues<t.TypeOfPartialProps<P>> => partialCodec.is(i),
-    (i, ctx) => {
-      return pipe(
+    (i, ctx) =>
+      pipe(
         partialCodec.validate(i, ctx),
-        E.map((result) => {
-          for (const key of Object.keys(result)) {
-            if (result[key] === void 0) {
-              delete result[key];
-            }
-          }
-          return result as DefinedValues<t.TypeOfPartialProps<P>>;
-        }),
-      );
-    },
-    (a) => {
-      const result = partialCodec.encode(a);
-      if (result === undefined) {
-        // `t.partial` will return this when passed `undefined` even though it is not in the type
-        return result;
-      }
-      for (const key of Object.keys(result)) {
-        if (result[key] === void 0) {
-          delete result[key];
-        }
-      }
-      return result as DefinedValues<t.OutputOfPartialProps<P>>;
-    },
+        E.map(
+          (result) => withoutUndefined(result) as DefinedValues<t.TypeOfPartialProps<P>>,
+        ),
+      ),
+    (a) =>
+      withoutUndefined(partialCodec.encode(a)) as DefinedValues<
+        t.OutputOfPartialProps<P>
+      >,
     props,
   );
 };
@@ -75,7 +79,7 @@ export const optionalized = <P extends t.Props>(
       requiredProps[key] = codec;
     }
   }
-  return t.intersection([
+  const codec = t.intersection([
     t.type(requiredProps, name ? `required_${name}` : undefined) as t.TypeC<
       RequiredProps<P>
     >,
@@ -84,6 +88,15 @@ export const optionalized = <P extends t.Props>(
       name ? `optional_${name}` : undefined,
     ) as t.PartialC<OptionalProps<P>>,
   ]);
+  // `t.intersection` merges the results of its members, so the explicit `undefined` properties
+  // that are still present in the required half have to be removed from the merged result
+  return new t.IntersectionType(
+    codec.name,
+    codec.is,
+    (i, ctx) => pipe(codec.validate(i, ctx), E.map(withoutUndefined)),
+    (a) => withoutUndefined(codec.encode(a)),
+    codec.types,
+  );
 };
 
 export const flattened = <Props extends NestedProps>(
-- 
2.43.0


From 2c729f096c20fbc75c8c21dce8187c7aa6874d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 02/59] fix: an error thrown by afterEncodedResponseSent is not
 an encode error

The hook ran inside the try block of sendEncoded, so when it threw, the
encode-error hooks were consulted and a second response was attempted on
top of the one already sent (ERR_HTTP_HEADERS_SENT hid the hook's error).
---
 packages/typed-express-router/src/index.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/typed-express-router/src/index.ts b/packages/typed-express-router/src/index.ts
index cb7c0f6..b39399b 100644
--- a/packages/typed-express-router/src/index.ts
+++ b/packages/typed-express-router/src/index.ts
@@ -133,6 +133,7 @@ export function wrapRouter<Spec extends ApiSpec>(
             apiName,
             httpRoute: route,
           });
+          let sentStatusCode: number | undefined;
           try {
             const codec = route.response[status];
             if (!codec) {
@@ -152,12 +153,7 @@ export function wrapRouter<Spec extends ApiSpec>(
             }
             const encoded = codec.encode(payload);
             res.status(statusCode).json(encoded).end();
-            (options?.afterEncodedResponseSent ?? afterEncodedResponseSent)(
-              statusCode,
-              payload,
-              req as WrappedRequest,
-              res as WrappedResponse,
-            );
+            sentStatusCode = statusCode;
           } catch (err) {
             const statusCode = (
               options?.getEncodeErrorStatusCode ?? getEncodeErrorStatusCode
@@ -171,6 +167,15 @@ export function wrapRouter<Spec extends ApiSpec>(
           } finally {
             endSpan(encodeSpan);
           }
+          if (sentStatusCode !== undefined) {
+            // The response is already sent here, so an error thrown by the hook is not an encode error
+            (options?.afterEncodedResponseSent ?? afterEncodedResponseSent)(
+              sentStatusCode,
+              payload,
+              req as WrappedRequest,
+              res as WrappedResponse,
+            );
+          }
         };
         next();
       };
-- 
2.43.0


From 5f4e5ced1780ea5045c1a92495a31220f6a77881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 03/59] fix: end the decode span when decoding or a
 decode-error hook throws

The span was started but never ended when the request codec, the
decodeErrorFormatter or getDecodeErrorStatusCode threw.
---
 packages/typed-express-router/src/index.ts | 48 +++++++++++++---------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/packages/typed-express-router/src/index.ts b/packages/typed-express-router/src/index.ts
index b39399b..fb1f6b5 100644
--- a/packages/typed-express-router/src/index.ts
+++ b/packages/typed-express-router/src/index.ts
@@ -116,13 +116,18 @@ export function wrapRouter<Spec extends ApiSpec>(
         // Intentionally passing explicit arguments here instead of decoding
         // req by itself because of issues that arise while using Node 16
         // See https://github.com/BitGo/api-ts/pull/394 for more information.
-        const decoded = route.request.decode({
-          body: req.body,
-          headers: req.headers,
-          params: req.params,
-          query: req.query,
-        });
-        req.decoded = decoded;
+        try {
+          req.decoded = route.request.decode({
+            body: req.body,
+            headers: req.headers,
+            params: req.params,
+            query: req.query,
+          });
+        } catch (err) {
+          // `endDecodeSpanMiddleware` will not run for this request
+          endSpan(decodeSpan);
+          throw err;
+        }
         req.apiName = apiName;
         req.httpRoute = route;
         res.sendEncoded = (
@@ -181,19 +186,22 @@ export function wrapRouter<Spec extends ApiSpec>(
       };
 
       const endDecodeSpanMiddleware: UncheckedRequestHandler = (req, _res, next) => {
-        pipe(
-          req.decoded,
-          E.getOrElseW((errs) => {
-            const decodeErrorMessage = (
-              options?.decodeErrorFormatter ?? decodeErrorFormatter
-            )(errs, req);
-            const statusCode = (
-              options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode
-            )(errs, req);
-            recordSpanDecodeError(decodeSpan, decodeErrorMessage, statusCode);
-          }),
-        );
-        endSpan(decodeSpan);
+        try {
+          pipe(
+            req.decoded,
+            E.getOrElseW((errs) => {
+              const decodeErrorMessage = (
+                options?.decodeErrorFormatter ?? decodeErrorFormatter
+              )(errs, req);
+              const statusCode = (
+                options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode
+              )(errs, req);
+              recordSpanDecodeError(decodeSpan, decodeErrorMessage, statusCode);
+            }),
+          );
+        } finally {
+          endSpan(decodeSpan);
+        }
         next();
       };
 
-- 
2.43.0


From 51ee84f138befa61a73e351d00d717addfe0a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 04/59] fix: answer 500 when a route handler or its middleware
 fails

res.statusCode defaults to 200, so the check for an unset status never
applied and a failed handler was answered with an empty 200.
---
 packages/express-wrapper/src/request.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index c9d61ff..adfd531 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -144,7 +144,8 @@ export const handleRequest = (
         const response = await serviceFn(handlerParams);
         responseEncoder(httpRoute, response)(req, res, next);
       } catch (err) {
-        if (!res.statusCode) {
+        // `res.statusCode` is 200 until something sets it, so only an error status chosen before the failure is kept
+        if (!res.headersSent && res.statusCode < 400) {
           res.status(500);
         }
         res.end();
-- 
2.43.0


From 8477cc97de61ce0ebf40399b6129ca9d0bddb57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 05/59] fix: do not pass a request on after its failure has
 been answered

After ending the response, next() ran later matching routes and finally
express' own 404 handler on the finished response, which then destroys
the connection.
---
 packages/express-wrapper/src/request.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index adfd531..83bdc0f 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -149,7 +149,6 @@ export const handleRequest = (
           res.status(500);
         }
         res.end();
-        next();
         return;
       }
     },
-- 
2.43.0


From 468828a349730f179c42654692e389c9f9ac454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 06/59] fix: an error reported by middleware always stops the
 request

- a chain run without routeHandler() took next(err) for success and ran
  the handler anyway
- a middlewareFn rejecting without a reason was taken for success
- next(null), which express treats as no error, was taken for an error
---
 packages/express-wrapper/src/middleware.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 947760f..94c2a05 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -34,7 +34,8 @@ export function middlewareFn<T extends {}>(fn: MiddlewareFn<T>): MiddlewareHandl
   const result: express.RequestHandler = (req, res, next: MiddlewareNextFn) => {
     fn(req, res)
       .then((result) => next(undefined, result))
-      .catch((err) => next(err));
+      // without a value `next` would take the rejection for a success
+      .catch((err) => next(err ?? new Error('middleware rejected without a reason')));
   };
   return result as MiddlewareHandler<T>;
 }
@@ -166,7 +167,7 @@ export async function runMiddlewareChain<
   for (const middleware of chain) {
     const middlewareResult: {} = await new Promise((resolve, reject) => {
       const next = (value?: unknown, middlewareResult?: {}) => {
-        if (value !== undefined) {
+        if (value !== undefined && value !== null) {
           reject(value);
         } else if (middlewareResult !== undefined) {
           resolve(middlewareResult);
@@ -208,9 +209,17 @@ export async function runMiddlewareChainIgnoringResults<
   res: express.Response,
 ): Promise<Input> {
   for (const middleware of chain) {
-    await new Promise((resolve, reject) => {
+    await new Promise<void>((resolve, reject) => {
+      const next = (value?: unknown) => {
+        if (value !== undefined && value !== null) {
+          reject(value);
+        } else {
+          resolve();
+        }
+      };
+
       try {
-        middleware(req, res, resolve);
+        middleware(req, res, next);
       } catch (err) {
         reject(err);
       }
-- 
2.43.0


From 111fc31cedbf7b899e5d6263e2266e9486314c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 07/59] fix: percent-encode path parameters and substitute each
 one independently

Values were inserted verbatim, so a '/', '?', '#' or '%' changed which
resource was requested, '$&' was expanded as a replacement pattern, a
value containing '{other}' was substituted again and only the first
occurrence of a parameter was replaced.
---
 packages/superagent-wrapper/src/request.ts | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 20d6631..6483779 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -64,14 +64,12 @@ export interface SuperagentRequest<Res extends Response> extends Promise<Res> {
   send(body: string): this;
 }
 
-export const substitutePathParams = (path: string, params: Record<string, string>) => {
-  for (const key in params) {
-    if (params.hasOwnProperty(key)) {
-      path = path.replace(`{${key}}`, params[key]);
-    }
-  }
-  return path;
-};
+export const substitutePathParams = (path: string, params: Record<string, string>) =>
+  path.replace(/{([^{}]+)}/g, (placeholder, key) =>
+    Object.prototype.hasOwnProperty.call(params, key)
+      ? encodeURIComponent(params[key]!)
+      : placeholder,
+  );
 
 export type RequestFactory<Req> = <Route extends h.HttpRoute>(
   route: Route,
-- 
2.43.0


From 64f3a0cdbeb226c62dd208ab1ba540734742d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 08/59] fix: decode falsy JSON response bodies as the values
 they are

false, 0, null and '' were replaced by the raw response text before
being handed to the response codec.
---
 packages/superagent-wrapper/src/request.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 6483779..4254a21 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -126,7 +126,10 @@ const patchRequest = <
   patchedReq.decode = () =>
     req.then((res) => {
       const { body, text, status } = res;
-      const bodyOrText = body || text;
+      // A missing body means the response was not parsed, which superagent also reports as `null` in
+      // browsers; any other falsy body is a JSON value
+      const bodyOrText =
+        body === undefined || (body === null && text !== 'null') ? text : body;
 
       if (!hasCodecForStatus(route.response, status)) {
         return decodedResponse({
-- 
2.43.0


From e4d3200b37fd42ac69d64f5a28fbdd076fac9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 09/59] fix: do not send headers that are explicitly undefined

superagent forwards the value to node, which rejects the whole request
with ERR_HTTP_INVALID_HEADER_VALUE.
---
 packages/superagent-wrapper/src/request.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 4254a21..6767e77 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -203,8 +203,10 @@ export const requestForRoute =
 
     const headers = reqProps.headers ?? {};
     for (const key in headers) {
-      if (headers.hasOwnProperty(key)) {
-        request = request.set(key, headers[key]);
+      const value: string | undefined = headers[key];
+      // An optional header may also be present as an explicit undefined property
+      if (headers.hasOwnProperty(key) && value !== undefined) {
+        request = request.set(key, value);
       }
     }
 
-- 
2.43.0


From b593e2a5320a0c4848604bc231afecb063eeae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 10/59] fix: do not swap a schema's own minimum and maximum in
 the OpenAPI document

---
 packages/openapi-generator/src/openapi.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3b4e6d5..d90b03e 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -300,8 +300,8 @@ export function schemaToOpenAPI(
     const maxLength = jsdoc?.tags?.maxLength ?? schema.maxLength;
     const minLength = jsdoc?.tags?.minLength ?? schema.minLength;
     const pattern = jsdoc?.tags?.pattern ?? schema.pattern;
-    const minimum = jsdoc?.tags?.minimum ?? schema.maximum;
-    const maximum = jsdoc?.tags?.maximum ?? schema.minimum;
+    const minimum = jsdoc?.tags?.minimum ?? schema.minimum;
+    const maximum = jsdoc?.tags?.maximum ?? schema.maximum;
     const minItems = jsdoc?.tags?.minItems ?? schema.minItems;
     const maxItems = jsdoc?.tags?.maxItems ?? schema.maxItems;
     const minProperties = jsdoc?.tags?.minProperties ?? schema.minProperties;
-- 
2.43.0


From f2f9eb4b73e8bf1ce53e420bb1158d389bd2abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 11/59] fix: keep an array's and object's own constraints
 (minItems, ...) when optimizing

---
 packages/openapi-generator/src/knownImports.ts | 2 +-
 packages/openapi-generator/src/optimize.ts     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 29042a3..13138bb 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -396,7 +396,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     NonEmptyString: () => E.right({ type: 'string', minLength: 1 }),
     readonlyNonEmptyArray: (_, innerSchema) =>
-      E.right({ type: 'array', items: innerSchema }),
+      E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     UUID: () => E.right({ type: 'string', title: 'uuid' }),
     Json: () => E.right({ type: 'any', title: 'JSON' }),
     JsonRecord: () => E.right({ type: 'record', codomain: { type: 'any' } }),
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index cb877d4..bf78221 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -238,7 +238,7 @@ export function optimize(schema: Schema): Schema {
       }
     }
 
-    const schemaObject: Schema = { type: 'object', properties, required };
+    const schemaObject: Schema = { ...schema, properties, required };
 
     return withComment(schemaObject, schema);
   } else if (schema.type === 'intersection') {
@@ -254,11 +254,11 @@ export function optimize(schema: Schema): Schema {
   } else if (schema.type === 'array') {
     const optimized = optimize(schema.items);
 
-    return withComment({ type: 'array', items: optimized }, schema);
+    return withComment({ ...schema, items: optimized }, schema);
   } else if (schema.type === 'record') {
     return withComment(
       {
-        type: 'record',
+        ...schema,
         ...(schema.domain ? { domain: optimize(schema.domain) } : {}),
         codomain: optimize(schema.codomain),
       },
@@ -266,7 +266,7 @@ export function optimize(schema: Schema): Schema {
     );
   } else if (schema.type === 'tuple') {
     const schemas = schema.schemas.map(optimize);
-    return withComment({ type: 'tuple', schemas }, schema);
+    return withComment({ ...schema, schemas }, schema);
   } else if (schema.type === 'ref') {
     return schema;
   } else {
-- 
2.43.0


From 3b22f453f8fac9e15890fafc91be85f2b2da6e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 12/59] fix: a property whose named codec accepts undefined is
 not required

---
 .../openapi-generator/src/knownImports.ts     | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 13138bb..7ffd7ae 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -14,16 +14,24 @@ export type KnownImportEntry = Record<string, KnownCodec>;
 
 export type KnownImports = Record<string, KnownImportEntry>;
 
-function isOptional(schema: Schema): boolean {
+function isOptional(deref: DerefFn, schema: Schema): boolean {
   if (schema.type === 'undefined') {
     return true;
   } else if (schema.type === 'union') {
-    return schema.schemas.findIndex(isOptional) >= 0;
+    return schema.schemas.some((s) => isOptional(deref, s));
+  } else if (schema.type === 'ref') {
+    // A codec that cannot be found here is reported where it is used
+    const derefedE = deref(schema);
+    return E.isRight(derefedE) && isOptional(deref, derefedE.right);
   } else {
     return false;
   }
 }
 
+function requiredKeys(deref: DerefFn, properties: Record<string, Schema>): string[] {
+  return Object.keys(properties).filter((key) => !isOptional(deref, properties[key]!));
+}
+
 // TODO: Read this from a JSON (or YAML?) file
 
 export const KNOWN_IMPORTS: KnownImports = {
@@ -60,7 +68,7 @@ export const KNOWN_IMPORTS: KnownImports = {
     array: (_, innerSchema) => E.right({ type: 'array', items: innerSchema }),
     readonlyArray: (_, innerSchema) => E.right({ type: 'array', items: innerSchema }),
     object: () => E.right({ type: 'object', properties: {}, required: [] }),
-    type: (_, schema) => {
+    type: (deref, schema) => {
       if (schema.type !== 'object') {
         return errorLeft('typeC parameter must be object');
       }
@@ -70,7 +78,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       return E.right({
         type: 'object',
         properties: props,
-        required: Object.keys(props),
+        required: requiredKeys(deref, props),
       });
     },
     partial: (_, schema) => {
@@ -83,7 +91,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       return E.right({ type: 'object', properties: props, required: [] });
     },
     exact: (_, schema) => E.right(schema),
-    strict: (_, schema) => {
+    strict: (deref, schema) => {
       if (schema.type !== 'object') {
         return errorLeft('exactC parameter must be object');
       }
@@ -93,7 +101,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       return E.right({
         type: 'object',
         properties: props,
-        required: Object.keys(props),
+        required: requiredKeys(deref, props),
       });
     },
     record: (_, domain, codomain) => {
@@ -409,13 +417,11 @@ export const KNOWN_IMPORTS: KnownImports = {
   '@api-ts/io-ts-http': {
     optional: (_, innerSchema) =>
       E.right({ type: 'union', schemas: [innerSchema, { type: 'undefined' }] }),
-    optionalized: (_, props) => {
+    optionalized: (deref, props) => {
       if (props.type !== 'object') {
         return errorLeft('optionalized parameter must be object');
       }
-      const required = Object.keys(props.properties).filter(
-        (key) => !isOptional(props.properties[key]!),
-      );
+      const required = requiredKeys(deref, props.properties);
       return E.right({ type: 'object', properties: props.properties, required });
     },
     httpRequest: (deref, arg) => {
@@ -435,7 +441,7 @@ export const KNOWN_IMPORTS: KnownImports = {
         }
 
         innerProps.required = innerProps.required.filter(
-          (key) => !isOptional(innerProps.properties[key]!),
+          (key) => !isOptional(deref, innerProps.properties[key]!),
         );
         properties[outerKey] = innerProps;
       }
@@ -443,9 +449,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       return E.right({
         type: 'object',
         properties,
-        required: Object.keys(properties).filter(
-          (key) => !isOptional(properties[key]!),
-        ),
+        required: requiredKeys(deref, properties),
       });
     },
     httpRoute: (deref, schema) => {
-- 
2.43.0


From d86898e7ec2d2ccec81d4b4246a04df07b80aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 13/59] fix: describe every alternative of a union with
 undefined, not only the first

---
 packages/openapi-generator/src/openapi.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index d90b03e..114c6e7 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -155,9 +155,14 @@ export function schemaToOpenAPI(
         const isOptional =
           schema.schemas.length >= 2 && undefinedSchema && nonUndefinedSchema;
         if (isOptional) {
+          const definedSchemas = schema.schemas.filter((s) => s.type !== 'undefined');
+          const describedSchemas = definedSchemas.filter((s) => s.type !== 'null');
           return schemaToOpenAPI(
             {
-              ...nonUndefinedSchema,
+              // With several alternatives left, all of them are described
+              ...(describedSchemas.length > 1
+                ? { type: 'union', schemas: definedSchemas }
+                : (describedSchemas[0] ?? nonUndefinedSchema)),
               comment: schema.comment,
               ...(nullSchema ? { nullable: true } : {}),
             },
-- 
2.43.0


From a3bbc39cad8bd98fda27f57ee1cddddb2b4e989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 14/59] fix: keys of a record with an optional codomain are not
 required

---
 packages/openapi-generator/src/openapi.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 114c6e7..5472a48 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -2,7 +2,7 @@ import { OpenAPIV3 } from 'openapi-types';
 
 import { STATUS_CODES } from 'http';
 import { parseCommentBlock } from './jsdoc';
-import { optimize } from './optimize';
+import { filterUndefinedUnion, optimize } from './optimize';
 import type { Route } from './route';
 import type { Schema } from './ir';
 import { Block } from 'comment-parser';
@@ -251,11 +251,14 @@ export function schemaToOpenAPI(
               return { ...acc, [key]: additionalProperties };
             }, {});
 
+            // A missing value is one that the codomain may accept
+            const [isOptionalCodomain] = filterUndefinedUnion(schema.codomain);
+
             return {
               type: 'object',
               properties,
               ...defaultOpenAPIObject,
-              required: keys.enum,
+              ...(isOptionalCodomain ? {} : { required: keys.enum }),
             };
           }
         }
-- 
2.43.0


From c32a9ff45a2ba86a744cb9aca73be12de1d6d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 15/59] fix: a property of several intersected objects has to
 satisfy all of them

---
 packages/openapi-generator/src/optimize.ts | 26 ++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index bf78221..4827d8b 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -3,6 +3,13 @@ import { isPrimitive, type CombinedType, type Primitive, type Schema } from './i
 
 export type OptimizeFn = (schema: Schema) => Schema;
 
+function withoutComments(schema: Schema): string {
+  // A comment has a source; the schema of a property named 'comment' does not
+  return JSON.stringify(schema, (key, value) =>
+    key === 'comment' && value?.source !== undefined ? undefined : value,
+  );
+}
+
 export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   if (schema.type !== 'intersection') {
     return schema;
@@ -17,8 +24,23 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   let result: Schema = combinedObject;
   innerSchemas.forEach((innerSchema) => {
     if (innerSchema.type === 'object') {
-      Object.assign(combinedObject.properties, innerSchema.properties);
-      combinedObject.required.push(...innerSchema.required);
+      for (const [key, property] of Object.entries(innerSchema.properties)) {
+        const existing = Object.prototype.hasOwnProperty.call(
+          combinedObject.properties,
+          key,
+        )
+          ? combinedObject.properties[key]
+          : undefined;
+        // A property of several members has to satisfy all of them
+        combinedObject.properties[key] =
+          existing === undefined ||
+          withoutComments(existing) === withoutComments(property)
+            ? property
+            : optimize({ type: 'intersection', schemas: [existing, property] });
+      }
+      combinedObject.required.push(
+        ...innerSchema.required.filter((key) => !combinedObject.required.includes(key)),
+      );
     } else if (result.type === 'intersection') {
       result.schemas.push(innerSchema);
     } else {
-- 
2.43.0


From f6543f1f020e36681a16a4a1a6da4bc50fc39dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 16/59] fix: a non-negative bigint string has a minimum of 0,
 not a maximum

---
 packages/openapi-generator/src/knownImports.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 7ffd7ae..1925e82 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -339,7 +339,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({
         type: 'string',
         format: 'number',
-        maximum: 0,
+        minimum: 0,
         decodedType: 'bigint',
       }),
     NonPositiveBigInt: () =>
-- 
2.43.0


From 63c685c022e9ed12903db0202d463bea6275633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 17/59] fix: do not drop bounds, defaults and examples that are
 0 or false

---
 packages/openapi-generator/src/openapi.ts | 36 +++++++++++++----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 5472a48..294c2cf 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -105,8 +105,8 @@ export function schemaToOpenAPI(
 
         return {
           type: 'array',
-          ...(minItems ? { minItems } : {}),
-          ...(maxItems ? { maxItems } : {}),
+          ...(minItems !== undefined ? { minItems } : {}),
+          ...(maxItems !== undefined ? { maxItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
@@ -284,8 +284,10 @@ export function schemaToOpenAPI(
    * @param fieldValue The value to parse
    * @returns the parsed value
    */
-  const parseField = (schema: Schema, fieldValue: string): any => {
-    if (schema.type === 'number' || schema.type === 'integer') {
+  const parseField = (schema: Schema, fieldValue: any): any => {
+    if (typeof fieldValue !== 'string') {
+      return fieldValue;
+    } else if (schema.type === 'number' || schema.type === 'integer') {
       return Number(fieldValue);
     } else if (schema.type === 'boolean') {
       return fieldValue === 'true';
@@ -293,7 +295,7 @@ export function schemaToOpenAPI(
       return null;
     } else if (schema.type === 'string') {
       // Remove extraneous double quotes around the fieldValue
-      return fieldValue?.replace(/^"(.*)"$/, '$1');
+      return fieldValue.replace(/^"(.*)"$/, '$1');
     } else {
       return fieldValue;
     }
@@ -333,20 +335,24 @@ export function schemaToOpenAPI(
     }
     const description = schema.comment?.description ?? schema.description;
 
+    // 0 and false are values; a tag without a value is an empty string
+    const isSet = (value: unknown): boolean =>
+      value !== undefined && value !== null && value !== '';
+
     const defaultOpenAPIObject = {
-      ...(defaultValue ? { default: parseField(schema, defaultValue) } : {}),
+      ...(isSet(defaultValue) ? { default: parseField(schema, defaultValue) } : {}),
       ...(deprecated ? { deprecated: true } : {}),
       ...(description ? { description } : {}),
-      ...(example ? { example: parseField(schema, example) } : {}),
-      ...(maxLength ? { maxLength: Number(maxLength) } : {}),
-      ...(minLength ? { minLength: Number(minLength) } : {}),
+      ...(isSet(example) ? { example: parseField(schema, example) } : {}),
+      ...(isSet(maxLength) ? { maxLength: Number(maxLength) } : {}),
+      ...(isSet(minLength) ? { minLength: Number(minLength) } : {}),
       ...(pattern ? { pattern } : {}),
-      ...(minimum ? { minimum: Number(minimum) } : {}),
-      ...(maximum ? { maximum: Number(maximum) } : {}),
-      ...(minItems ? { minItems: Number(minItems) } : {}),
-      ...(maxItems ? { maxItems: Number(maxItems) } : {}),
-      ...(minProperties ? { minProperties: Number(minProperties) } : {}),
-      ...(maxProperties ? { maxProperties: Number(maxProperties) } : {}),
+      ...(isSet(minimum) ? { minimum: Number(minimum) } : {}),
+      ...(isSet(maximum) ? { maximum: Number(maximum) } : {}),
+      ...(isSet(minItems) ? { minItems: Number(minItems) } : {}),
+      ...(isSet(maxItems) ? { maxItems: Number(maxItems) } : {}),
+      ...(isSet(minProperties) ? { minProperties: Number(minProperties) } : {}),
+      ...(isSet(maxProperties) ? { maxProperties: Number(maxProperties) } : {}),
       ...(exclusiveMinimum ? { exclusiveMinimum: true } : {}),
       ...(exclusiveMaximum ? { exclusiveMaximum: true } : {}),
       ...(multipleOf ? { multipleOf: Number(multipleOf) } : {}),
-- 
2.43.0


From dfcac4f4c0132bc9c5f811786f7c78e1f9be9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 18/59] fix: recognise the schema tags that are written without
 a value

---
 packages/openapi-generator/src/openapi.ts | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 294c2cf..e8ccb87 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -305,6 +305,10 @@ export function schemaToOpenAPI(
     const emptyBlock: Block = { description: '', tags: [], source: [], problems: [] };
     const jsdoc = parseCommentBlock(schema.comment ?? emptyBlock);
 
+    const keys = Object.keys(jsdoc?.tags || {});
+    // Tags like `@readOnly` are written without a value
+    const hasTag = (tag: string): boolean => keys.includes(tag);
+
     const defaultValue = jsdoc?.tags?.default ?? schema.default;
     const example = jsdoc?.tags?.example ?? schema.example;
     const maxLength = jsdoc?.tags?.maxLength ?? schema.maxLength;
@@ -316,20 +320,18 @@ export function schemaToOpenAPI(
     const maxItems = jsdoc?.tags?.maxItems ?? schema.maxItems;
     const minProperties = jsdoc?.tags?.minProperties ?? schema.minProperties;
     const maxProperties = jsdoc?.tags?.maxProperties ?? schema.maxProperties;
-    const exclusiveMinimum = jsdoc?.tags?.exclusiveMinimum ?? schema.exclusiveMinimum;
-    const exclusiveMaximum = jsdoc?.tags?.exclusiveMaximum ?? schema.exclusiveMaximum;
+    const exclusiveMinimum = hasTag('exclusiveMinimum') || schema.exclusiveMinimum;
+    const exclusiveMaximum = hasTag('exclusiveMaximum') || schema.exclusiveMaximum;
     const multipleOf = jsdoc?.tags?.multipleOf ?? schema.multipleOf;
-    const uniqueItems = jsdoc?.tags?.uniqueItems ?? schema.uniqueItems;
-    const readOnly = jsdoc?.tags?.readOnly ?? schema.readOnly;
-    const writeOnly = jsdoc?.tags?.writeOnly ?? schema.writeOnly;
+    const uniqueItems = hasTag('uniqueItems') || schema.uniqueItems;
+    const readOnly = hasTag('readOnly') || schema.readOnly;
+    const writeOnly = hasTag('writeOnly') || schema.writeOnly;
     const format = jsdoc?.tags?.format ?? schema.format ?? schema.format;
     const title = jsdoc?.tags?.title ?? schema.title;
 
-    const keys = Object.keys(jsdoc?.tags || {});
-
-    const deprecated = keys.includes('deprecated') || !!schema.deprecated;
-    const isPrivate = keys.includes('private');
-    const isPublic = keys.includes('public');
+    const deprecated = hasTag('deprecated') || !!schema.deprecated;
+    const isPrivate = hasTag('private');
+    const isPublic = hasTag('public');
     if (isPrivate && isPublic) {
       throw new Error('Cannot use both @public and @private on the same schema field');
     }
-- 
2.43.0


From 9dbb168ee5447f818df206f80eb48ecbcaa6fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 19/59] fix: uniqueItems describes the array, not its items

---
 packages/openapi-generator/src/openapi.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index e8ccb87..3226141 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -79,7 +79,8 @@ export function schemaToOpenAPI(
           return undefined;
         }
 
-        const { example, minItems, maxItems, ...rest } = defaultOpenAPIObject;
+        const { example, minItems, maxItems, uniqueItems, ...rest } =
+          defaultOpenAPIObject;
         const isArrayExample = example && Array.isArray(example);
 
         const siblings = {
@@ -107,6 +108,7 @@ export function schemaToOpenAPI(
           type: 'array',
           ...(minItems !== undefined ? { minItems } : {}),
           ...(maxItems !== undefined ? { maxItems } : {}),
+          ...(uniqueItems ? { uniqueItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
-- 
2.43.0


From b679aaea027f3331dcae65b2e2be7e29df9d1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 20/59] fix: optimizing a schema does not modify the schema it
 is given

---
 packages/openapi-generator/src/optimize.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 4827d8b..3cc172b 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -237,7 +237,8 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
 // This function is a helper that adds back any comments that were removed during optimization
 function withComment(newSchema: Schema, oldSchema: Schema): Schema {
   if (oldSchema.comment) {
-    newSchema.comment = combineComments(oldSchema);
+    // The new schema may be a part of the old one: do not modify it
+    return { ...newSchema, comment: combineComments(oldSchema) };
   }
 
   return newSchema;
-- 
2.43.0


From 28086ca93705f852561a8c8ff3515ef5c681c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 21/59] fix: intersections keep constraints on the number of
 properties

---
 packages/openapi-generator/src/optimize.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 3cc172b..073f7c4 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -10,6 +10,16 @@ function withoutComments(schema: Schema): string {
   );
 }
 
+// The properties of several objects can be combined into one, constraints on the
+// number of their properties can not
+function isFoldable(schema: Schema): schema is Schema & { type: 'object' } {
+  return (
+    schema.type === 'object' &&
+    schema.minProperties === undefined &&
+    schema.maxProperties === undefined
+  );
+}
+
 export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   if (schema.type !== 'intersection') {
     return schema;
@@ -23,7 +33,7 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   };
   let result: Schema = combinedObject;
   innerSchemas.forEach((innerSchema) => {
-    if (innerSchema.type === 'object') {
+    if (isFoldable(innerSchema)) {
       for (const [key, property] of Object.entries(innerSchema.properties)) {
         const existing = Object.prototype.hasOwnProperty.call(
           combinedObject.properties,
@@ -61,7 +71,7 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
 
     // Remove the empty object from the intersection
     const nonEmptySchemas = intersectionResult.schemas.filter(
-      (s: Schema) => !(s.type === 'object' && Object.keys(s.properties).length === 0),
+      (s: Schema) => !(isFoldable(s) && Object.keys(s.properties).length === 0),
     );
 
     if (nonEmptySchemas.length === 0) {
-- 
2.43.0


From 50bf8588570590058d49c1bb7ddbda5d8fdc8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 22/59] fix: follow renamed, default and package exports to the
 declaration they stand for

---
 packages/openapi-generator/src/codec.ts       | 157 ++++++++----------
 packages/openapi-generator/src/project.ts     |  23 ++-
 packages/openapi-generator/src/resolveInit.ts |  46 ++++-
 packages/openapi-generator/src/route.ts       |   8 +-
 packages/openapi-generator/src/symbol.ts      |   9 +-
 5 files changed, 144 insertions(+), 99 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 86f2e1c..1c99755 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -6,7 +6,7 @@ import { leadingComment } from './comments';
 import type { Object, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findReferencedInitializer, findSymbolInitializer } from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -14,6 +14,38 @@ import { errorLeft } from './error';
 
 type ResolvedIdentifier = Schema | { type: 'codec'; schema: KnownCodec };
 
+// References have to be found again by their name in the file that declares them
+function reference(
+  project: Project,
+  source: SourceFile,
+  name: string,
+  init: swc.Expression,
+): Schema {
+  const initE = findSymbolInitializer(project, source, name);
+  const declaration = source.symbols.declarations.find((s) => s.init === init);
+  return {
+    type: 'ref',
+    name:
+      E.isRight(initE) && initE.right[1] === init ? name : (declaration?.name ?? name),
+    location: source.path,
+  };
+}
+
+// Follows references until something that is not a reference is found
+function resolveReferences(
+  project: Project,
+  schema: Schema,
+): E.Either<string, Schema> {
+  if (schema.type !== 'ref') {
+    return E.right(schema);
+  }
+  return pipe(
+    findReferencedInitializer(project, schema),
+    E.chain(([source, init]) => parsePlainInitializer(project, source, init)),
+    E.chain((resolved) => resolveReferences(project, resolved)),
+  );
+}
+
 function codecIdentifier(
   project: Project,
   source: SourceFile,
@@ -44,13 +76,9 @@ function codecIdentifier(
     if (E.isLeft(initE)) {
       return initE;
     }
-    const [newSourceFile] = initE.right;
+    const [newSourceFile, newInit] = initE.right;
 
-    return E.right({
-      type: 'ref',
-      name: imp.importedName,
-      location: newSourceFile.path,
-    });
+    return E.right(reference(project, newSourceFile, imp.importedName, newInit));
   } else if (id.type === 'MemberExpression') {
     const object = id.object;
     if (object.type !== 'Identifier') {
@@ -115,7 +143,9 @@ function codecIdentifier(
         return newInitE;
       }
 
-      return E.right({ type: 'ref', name, location: newInitE.right[0].path });
+      const [newSourceFile, newInit] = newInitE.right;
+
+      return E.right(reference(project, newSourceFile, name, newInit));
     }
 
     // Parse member expressions that come from `import { foo } from 'foo'` imports
@@ -137,7 +167,10 @@ function codecIdentifier(
       }
       const [newSourceFile, newInit] = newInitE.right;
 
-      const objectSchemaE = parsePlainInitializer(project, newSourceFile, newInit);
+      const objectSchemaE = pipe(
+        parsePlainInitializer(project, newSourceFile, newInit),
+        E.chain((schema) => resolveReferences(project, schema)),
+      );
       if (E.isLeft(objectSchemaE)) {
         return objectSchemaE;
       } else if (objectSchemaE.right.type !== 'object') {
@@ -160,7 +193,10 @@ function codecIdentifier(
       (s) => s.name === object.value,
     );
     if (declarationSym !== undefined) {
-      const schemaE = parsePlainInitializer(project, source, declarationSym.init);
+      const schemaE = pipe(
+        parsePlainInitializer(project, source, declarationSym.init),
+        E.chain((schema) => resolveReferences(project, schema)),
+      );
       if (E.isLeft(schemaE)) {
         return schemaE;
       } else if (schemaE.right.type !== 'object') {
@@ -217,26 +253,14 @@ function parseObjectExpression(
       result.required.push(name);
       continue;
     } else if (property.type === 'SpreadElement') {
-      const schemaE = parsePlainInitializer(project, source, property.arguments);
+      const schemaE = pipe(
+        parsePlainInitializer(project, source, property.arguments),
+        E.chain((schema) => resolveReferences(project, schema)),
+      );
       if (E.isLeft(schemaE)) {
         return schemaE;
       }
-      let schema = schemaE.right;
-      if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
-        if (E.isLeft(schemaE)) {
-          return schemaE;
-        }
-        schema = schemaE.right;
-      }
+      const schema = schemaE.right;
       if (schema.type !== 'object') {
         return errorLeft(`Spread element must be object`);
       }
@@ -264,26 +288,14 @@ function parseObjectExpression(
 
     let name: string = '';
     if (property.key.type === 'Computed') {
-      const valueE = parseCodecInitializer(project, source, property.key.expression);
+      const valueE = pipe(
+        parseCodecInitializer(project, source, property.key.expression),
+        E.chain((schema) => resolveReferences(project, schema)),
+      );
       if (E.isLeft(valueE)) {
         return valueE;
       }
-      let schema = valueE.right;
-      if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
-        if (E.isLeft(schemaE)) {
-          return schemaE;
-        }
-        schema = schemaE.right;
-      }
+      const schema = valueE.right;
       if (
         (schema.type === 'string' || schema.type === 'number') &&
         schema.enum !== undefined
@@ -325,22 +337,11 @@ function parseArrayExpression(
     }
     // swc sometimes sets this to `null` even though it is supposed to be `undefined`
     if (element.spread) {
-      let init = valueE.right;
-      if (init.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, init.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
-        if (E.isLeft(schemaE)) {
-          return schemaE;
-        }
-        init = schemaE.right;
+      const initE = resolveReferences(project, valueE.right);
+      if (E.isLeft(initE)) {
+        return initE;
       }
+      const init = initE.right;
       if (init.type !== 'tuple') {
         return errorLeft('Spread element must be array literal');
       }
@@ -358,7 +359,10 @@ function parseTemplateLiteral(
   template: swc.TemplateLiteral,
 ): E.Either<string, Schema> {
   const expressions: E.Either<string, string>[] = template.expressions.map((expr) => {
-    const schemaE = parsePlainInitializer(project, source, expr);
+    const schemaE = pipe(
+      parsePlainInitializer(project, source, expr),
+      E.chain((schema) => resolveReferences(project, schema)),
+    );
     if (E.isLeft(schemaE)) {
       return schemaE;
     }
@@ -369,23 +373,6 @@ function parseTemplateLiteral(
       schema.enum.length === 1
     ) {
       return E.right(String(schema.enum[0]));
-    } else if (schema.type === 'ref') {
-      const realInitE = findSymbolInitializer(project, source, schema.name);
-      if (E.isLeft(realInitE)) {
-        return realInitE;
-      }
-      const schemaE = parsePlainInitializer(
-        project,
-        realInitE.right[0],
-        realInitE.right[1],
-      );
-      if (E.isLeft(schemaE)) {
-        return schemaE;
-      }
-      if (schemaE.right.type !== 'string' || schemaE.right.enum === undefined) {
-        return errorLeft('Template element must be string literal');
-      }
-      return E.right(String(schemaE.right.enum[0]));
     } else {
       return errorLeft('Template element must be string literal');
     }
@@ -532,23 +519,19 @@ export function parseCodecInitializer(
       if (schema.type !== 'ref') {
         return E.right(schema);
       } else {
-        let refSource = project.get(schema.location);
-
+        // schema.location might be a package name
+        const path = project.locate(schema);
+        const refSource = project.get(path);
         if (refSource === undefined) {
-          // schema.location might be a package name -> need to resolve the path from the project types
-          const path = project.getTypes()[schema.name];
-          if (path === undefined)
+          if (path === schema.location)
             return errorLeft(
               `Cannot find external codec '${schema.name}' from module '${schema.location}'. ` +
                 `To fix this, add the codec definition to your codec config file. ` +
                 `See: https://github.com/BitGo/api-ts/tree/master/packages/openapi-generator#4-defining-custom-codecs`,
             );
-          refSource = project.get(path);
-          if (refSource === undefined) {
-            return errorLeft(`Cannot find '${schema.name}' from '${schema.location}'`);
-          }
+          return errorLeft(`Cannot find '${schema.name}' from '${schema.location}'`);
         }
-        const initE = findSymbolInitializer(project, refSource, schema.name);
+        const initE = findReferencedInitializer(project, schema);
         if (E.isLeft(initE)) {
           return initE;
         }
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 1075690..7c4e2b0 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -5,6 +5,7 @@ import * as E from 'fp-ts/Either';
 import resolve from 'resolve';
 
 import { KNOWN_IMPORTS, type KnownCodec } from './knownImports';
+import type { Reference } from './ir';
 import { parseSource, type SourceFile } from './sourceFile';
 import { errorLeft, logInfo } from './error';
 
@@ -18,6 +19,7 @@ export class Project {
   private types: Record<string, string>;
   private typeCollisionCounters: Record<string, number>;
   private visitedPackages: Set<string>;
+  private packageEntryPoints: Map<string, string>;
 
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
@@ -26,6 +28,7 @@ export class Project {
     this.types = {};
     this.typeCollisionCounters = {};
     this.visitedPackages = new Set();
+    this.packageEntryPoints = new Map();
   }
 
   add(path: string, sourceFile: SourceFile): void {
@@ -53,6 +56,17 @@ export class Project {
     return this.processedFiles[path];
   }
 
+  /** The path of the file in which to look for a reference */
+  locate(ref: Reference): string {
+    if (this.has(ref.location)) {
+      return ref.location;
+    }
+    // The location is a package
+    return (
+      this.packageEntryPoints.get(ref.location) ?? this.types[ref.name] ?? ref.location
+    );
+  }
+
   has(path: string): boolean {
     return this.processedFiles.hasOwnProperty(path);
   }
@@ -99,8 +113,13 @@ export class Project {
             }
 
             const entryPoint = this.resolveEntryPoint(baseDir, sym.from);
-            if (E.isRight(entryPoint) && !this.has(entryPoint.right)) {
-              queue.push(entryPoint.right);
+            if (E.isRight(entryPoint)) {
+              if (!this.packageEntryPoints.has(sym.from)) {
+                this.packageEntryPoints.set(sym.from, entryPoint.right);
+              }
+              if (!this.has(entryPoint.right)) {
+                queue.push(entryPoint.right);
+              }
             }
           } else {
             const absImportPathE = this.resolve(baseDir, sym.from);
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index eff1797..bba7235 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -3,6 +3,7 @@ import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
 import { dirname } from 'node:path';
 
+import type { Reference } from './ir';
 import type { Project } from './project';
 import type { SourceFile } from './sourceFile';
 import { errorLeft } from './error';
@@ -35,10 +36,16 @@ function findExportedDeclaration(
   project: Project,
   sourceFile: SourceFile,
   name: string,
+  visited: Set<SourceFile> = new Set(),
 ): E.Either<string, ResolvedInitializer> {
+  // Files may export each other
+  if (visited.has(sourceFile)) {
+    return errorLeft(`Unknown identifier ${name}`);
+  }
+  visited.add(sourceFile);
   for (const exp of sourceFile.symbols.exports) {
     if (exp.exportedName === name) {
-      return findSymbolInitializer(project, sourceFile, exp.localName);
+      return findLocalInitializer(project, sourceFile, exp.localName);
     }
   }
   for (const starExport of sourceFile.symbols.exportStarFiles) {
@@ -46,7 +53,12 @@ function findExportedDeclaration(
     if (E.isLeft(starSourceFile)) {
       return errorLeft(`Cannot resolve * export from '${starExport}'`);
     }
-    const starExportE = findExportedDeclaration(project, starSourceFile.right, name);
+    const starExportE = findExportedDeclaration(
+      project,
+      starSourceFile.right,
+      name,
+      visited,
+    );
     if (E.isRight(starExportE)) {
       return starExportE;
     }
@@ -72,6 +84,36 @@ export function findSymbolInitializer(
     }
     name = name[0];
   }
+  const localE = findLocalInitializer(project, sourceFile, name);
+  if (E.isRight(localE)) {
+    return localE;
+  }
+  // A reference may carry the name under which its file exports the symbol
+  const exportedE = findExportedDeclaration(project, sourceFile, name);
+  return E.isRight(exportedE) ? exportedE : localE;
+}
+
+// Finds the initializer that a (possibly external) reference stands for
+export function findReferencedInitializer(
+  project: Project,
+  ref: Reference,
+): E.Either<string, ResolvedInitializer> {
+  const sourceFile = project.get(project.locate(ref));
+  if (sourceFile === undefined) {
+    return errorLeft(`Could not find '${ref.name}' from '${ref.location}'`);
+  }
+  if (!project.has(ref.location)) {
+    // Only the exports of a package can be referenced
+    return findExportedDeclaration(project, sourceFile, ref.name);
+  }
+  return findSymbolInitializer(project, sourceFile, ref.name);
+}
+
+function findLocalInitializer(
+  project: Project,
+  sourceFile: SourceFile,
+  name: string,
+): E.Either<string, ResolvedInitializer> {
   for (const declaration of sourceFile.symbols.declarations) {
     if (declaration.name === name) {
       return E.right([sourceFile, declaration.init, declaration.comment]);
diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 69eeb7c..d3a7010 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -4,7 +4,7 @@ import * as E from 'fp-ts/Either';
 import { parseCodecInitializer } from './codec';
 import type { CombinedType, Schema } from './ir';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findReferencedInitializer } from './resolveInit';
 import { errorLeft } from './error';
 
 export type Parameter = {
@@ -34,11 +34,7 @@ function derefRequestSchema(
   schema: Schema,
 ): E.Either<string, Schema> {
   if (schema.type === 'ref') {
-    const sourceFile = project.get(schema.location);
-    if (sourceFile === undefined) {
-      return errorLeft(`Could not find '${schema.name}' from '${schema.location}'`);
-    }
-    const initE = findSymbolInitializer(project, sourceFile, schema.name);
+    const initE = findReferencedInitializer(project, schema);
     if (E.isLeft(initE)) {
       return initE;
     }
diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index ddb7527..116ac52 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -81,16 +81,21 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
   decl.specifiers.forEach((specifier) => {
     switch (specifier.type) {
       case 'ExportSpecifier':
+        // `export { foo } from './bar'` does not declare `foo` in this file, so the
+        // import gets a name that no identifier of this file can have
+        const localName = decl.source
+          ? `${decl.source.value}#${specifier.orig.value}`
+          : specifier.orig.value;
         result.exports.push({
           type: 'named',
           exportedName: specifier.exported?.value ?? specifier.orig.value,
-          localName: specifier.orig.value,
+          localName,
         });
         if (decl.source) {
           result.imports.push({
             type: 'named',
             importedName: specifier.orig.value,
-            localName: specifier.orig.value,
+            localName,
             from: decl.source.value,
           });
         }
-- 
2.43.0


From 38e7656b62b1e6712d80fb398d0d1073a7a6aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 23/59] fix: one component per codec, different codecs never
 share one, unresolved references fail

---
 packages/openapi-generator/src/cli.ts | 54 ++++++++++++---------------
 packages/openapi-generator/src/ref.ts | 12 ++++--
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index a51f8b7..0298fc0 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -15,7 +15,7 @@ import type { Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
-import { findSymbolInitializer } from './resolveInit';
+import { findReferencedInitializer } from './resolveInit';
 import { parseCodecInitializer } from './codec';
 import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
@@ -157,49 +157,35 @@ const app = command({
         ...Object.values(route.response),
       ];
     });
-    const componentLocations: Record<string, string> = {};
-    const componentCollisionCounters: Record<string, number> = {};
+    // Components by the expression that defines them
+    const componentNames: Map<Expression, string> = new Map();
     const componentNameMapping: Record<string, Record<string, string>> = {};
 
     // Helper to generate unique component names (name, name1, name2, ...)
     const getUniqueComponentName = (name: string): string => {
-      if (components[name] === undefined) {
-        return name;
+      let uniqueName = name;
+      for (let counter = 1; components.hasOwnProperty(uniqueName); counter++) {
+        uniqueName = `${name}${counter}`;
       }
-      const counter = (componentCollisionCounters[name] ?? 0) + 1;
-      componentCollisionCounters[name] = counter;
-      return `${name}${counter}`;
+      return uniqueName;
     };
 
     let schema: Schema | undefined;
     while (((schema = queue.pop()), schema !== undefined)) {
-      const refs = getRefs(schema, project.getTypes());
-      for (const ref of refs) {
-        if (
-          components[ref.name] !== undefined &&
-          componentLocations[ref.name] === ref.location
-        ) {
-          continue;
-        }
-
-        const componentName =
-          components[ref.name] !== undefined
-            ? getUniqueComponentName(ref.name)
-            : ref.name;
-
+      for (const ref of getRefs(schema)) {
         // Track the mapping: location -> originalName -> finalComponentName
-        if (componentNameMapping[ref.location] === undefined) {
-          componentNameMapping[ref.location] = {};
+        const namesAtLocation = (componentNameMapping[ref.location] ??=
+          Object.create(null) as Record<string, string>);
+        if (namesAtLocation[ref.name] !== undefined) {
+          continue;
         }
-        componentNameMapping[ref.location]![ref.name] = componentName;
 
-        const sourceFile = project.get(ref.location);
-        if (sourceFile === undefined) {
+        if (project.get(project.locate(ref)) === undefined) {
           logError(`Could not find '${ref.name}' from '${ref.location}'`);
           process.exit(1);
         }
 
-        const initE = findSymbolInitializer(project, sourceFile, ref.name);
+        const initE = findReferencedInitializer(project, ref);
         if (E.isLeft(initE)) {
           logError(
             `Could not find symbol '${ref.name}' in '${ref.location}': ${initE.left}`,
@@ -208,8 +194,16 @@ const app = command({
         }
         const [newSourceFile, init, comment] = initE.right;
 
+        const existingName = componentNames.get(init);
+        if (existingName !== undefined) {
+          // The same codec has been found in another way
+          namesAtLocation[ref.name] = existingName;
+          continue;
+        }
+        const componentName = getUniqueComponentName(ref.name);
+        namesAtLocation[ref.name] = componentName;
+
         if (init === null) {
-          console.log({ ref });
           let errorMessage = `Could not determine encode/decode types for codec '${ref.name}' in '${ref.location}'`;
           if (ref.location.includes('/node_modules/io-ts-types/')) {
             errorMessage += `
@@ -247,7 +241,7 @@ const app = command({
         }
 
         components[componentName] = codecE.right;
-        componentLocations[componentName] = ref.location;
+        componentNames.set(init, componentName);
         queue.push(codecE.right);
       }
     }
diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 5e10ca4..94f0657 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -1,13 +1,16 @@
 import type { Schema, Reference } from './ir';
 import fs from 'fs';
 
-export function getRefs(schema: Schema, typeMap: Record<string, string>): Reference[] {
+export function getRefs(
+  schema: Schema,
+  typeMap: Record<string, string> = {},
+): Reference[] {
   if (schema.type === 'ref') {
     if (!fs.existsSync(schema.location)) {
       // The location is a node module - we need to populate the location here
       const newPath = typeMap[schema.name];
       if (!newPath) {
-        return [];
+        return [schema];
       }
 
       return [{ ...schema, location: newPath }];
@@ -28,7 +31,10 @@ export function getRefs(schema: Schema, typeMap: Record<string, string>): Refere
       return [...acc, ...getRefs(member, typeMap)];
     }, []);
   } else if (schema.type === 'record') {
-    return getRefs(schema.codomain, typeMap);
+    return [
+      ...(schema.domain !== undefined ? getRefs(schema.domain, typeMap) : []),
+      ...getRefs(schema.codomain, typeMap),
+    ];
   } else {
     return [];
   }
-- 
2.43.0


From c291115744f9aecd8962df4cf08dae9a03fcd465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 24/59] fix: codecs may be named like members of
 Object.prototype

---
 packages/openapi-generator/src/cli.ts     |  8 +++++---
 packages/openapi-generator/src/project.ts | 10 +++++++---
 packages/openapi-generator/src/ref.ts     |  4 +++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 0298fc0..900291d 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -149,7 +149,8 @@ const app = command({
       process.exit(1);
     }
 
-    const components: Record<string, Schema> = {};
+    // Without a prototype: codecs may be named like its members
+    const components: Record<string, Schema> = Object.create(null);
     const queue: Schema[] = apiSpec.flatMap((route) => {
       return [
         ...route.parameters.map((p) => p.schema),
@@ -159,12 +160,13 @@ const app = command({
     });
     // Components by the expression that defines them
     const componentNames: Map<Expression, string> = new Map();
-    const componentNameMapping: Record<string, Record<string, string>> = {};
+    const componentNameMapping: Record<string, Record<string, string>> =
+      Object.create(null);
 
     // Helper to generate unique component names (name, name1, name2, ...)
     const getUniqueComponentName = (name: string): string => {
       let uniqueName = name;
-      for (let counter = 1; components.hasOwnProperty(uniqueName); counter++) {
+      for (let counter = 1; uniqueName in components; counter++) {
         uniqueName = `${name}${counter}`;
       }
       return uniqueName;
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 7c4e2b0..b2206a4 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -25,8 +25,9 @@ export class Project {
     this.processedFiles = files;
     this.pendingFiles = new Set();
     this.knownImports = knownImports;
-    this.types = {};
-    this.typeCollisionCounters = {};
+    // Without a prototype: exports may be named like its members
+    this.types = Object.create(null);
+    this.typeCollisionCounters = Object.create(null);
     this.visitedPackages = new Set();
     this.packageEntryPoints = new Map();
   }
@@ -201,7 +202,10 @@ export class Project {
 
   resolveKnownImport(path: string, name: string): KnownCodec | undefined {
     const baseKey = path.startsWith('.') ? '.' : path;
-    return this.knownImports[baseKey]?.[name];
+    const codecs = this.knownImports[baseKey];
+    return codecs !== undefined && Object.prototype.hasOwnProperty.call(codecs, name)
+      ? codecs[name]
+      : undefined;
   }
 
   getTypes() {
diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 94f0657..68461e6 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -8,7 +8,9 @@ export function getRefs(
   if (schema.type === 'ref') {
     if (!fs.existsSync(schema.location)) {
       // The location is a node module - we need to populate the location here
-      const newPath = typeMap[schema.name];
+      const newPath = Object.prototype.hasOwnProperty.call(typeMap, schema.name)
+        ? typeMap[schema.name]
+        : undefined;
       if (!newPath) {
         return [schema];
       }
-- 
2.43.0


From f37b65c2fe5cc47c453bc155205e2ebafba72808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 25/59] fix: star exports of packages are followed, files are
 parsed once

---
 packages/openapi-generator/src/project.ts | 42 +++++++++++------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index b2206a4..66e82b1 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -74,12 +74,14 @@ export class Project {
 
   async parseEntryPoint(entryPoint: string): Promise<E.Either<string, Project>> {
     const queue: string[] = [entryPoint];
+    const visited: Set<string> = new Set();
     let path: string | undefined;
 
     while (((path = queue.pop()), path !== undefined)) {
-      if (!['.ts', '.js'].includes(p.extname(path))) {
+      if (!['.ts', '.js'].includes(p.extname(path)) || visited.has(path)) {
         continue;
       }
+      visited.add(path);
 
       try {
         const src = await this.readFile(path);
@@ -92,51 +94,47 @@ export class Project {
 
         this.add(path, sourceFile);
 
-        // Process imports
+        // Process imports and star exports
         const baseDir = p.dirname(path);
-        for (const sym of Object.values(sourceFile.symbols.imports)) {
-          if (!sym.from.startsWith('.')) {
-            if (!this.visitedPackages.has(sym.from)) {
-              const codecs = await this.getCustomCodecs(baseDir, sym.from);
+        const origins = [
+          ...sourceFile.symbols.imports.map((sym) => sym.from),
+          ...sourceFile.symbols.exportStarFiles,
+        ];
+        for (const from of origins) {
+          if (!from.startsWith('.')) {
+            if (!this.visitedPackages.has(from)) {
+              const codecs = await this.getCustomCodecs(baseDir, from);
               if (E.isLeft(codecs)) {
                 return codecs;
               }
 
               if (Object.keys(codecs.right).length > 0) {
-                this.knownImports[sym.from] = {
+                this.knownImports[from] = {
                   ...codecs.right,
-                  ...this.knownImports[sym.from],
+                  ...this.knownImports[from],
                 };
-                logInfo(`Loaded custom codecs for ${sym.from}`);
+                logInfo(`Loaded custom codecs for ${from}`);
               }
 
-              this.visitedPackages.add(sym.from);
+              this.visitedPackages.add(from);
             }
 
-            const entryPoint = this.resolveEntryPoint(baseDir, sym.from);
+            const entryPoint = this.resolveEntryPoint(baseDir, from);
             if (E.isRight(entryPoint)) {
-              if (!this.packageEntryPoints.has(sym.from)) {
-                this.packageEntryPoints.set(sym.from, entryPoint.right);
+              if (!this.packageEntryPoints.has(from)) {
+                this.packageEntryPoints.set(from, entryPoint.right);
               }
               if (!this.has(entryPoint.right)) {
                 queue.push(entryPoint.right);
               }
             }
           } else {
-            const absImportPathE = this.resolve(baseDir, sym.from);
+            const absImportPathE = this.resolve(baseDir, from);
             if (E.isRight(absImportPathE) && !this.has(absImportPathE.right)) {
               queue.push(absImportPathE.right);
             }
           }
         }
-
-        // Process star exports
-        for (const starExport of sourceFile.symbols.exportStarFiles) {
-          const absImportPathE = this.resolve(baseDir, starExport);
-          if (E.isRight(absImportPathE) && !this.has(absImportPathE.right)) {
-            queue.push(absImportPathE.right);
-          }
-        }
       } catch (err) {
         if (err instanceof Error) {
           return E.left(err.message);
-- 
2.43.0


From ddd5978898c895e57902414edf32e75ca830c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 26/59] fix: custom codecs of packages stay within their
 project

---
 packages/openapi-generator/src/project.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 66e82b1..f181c98 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -24,7 +24,8 @@ export class Project {
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
     this.pendingFiles = new Set();
-    this.knownImports = knownImports;
+    // Copied: packages add their custom codecs to it
+    this.knownImports = { ...knownImports };
     // Without a prototype: exports may be named like its members
     this.types = Object.create(null);
     this.typeCollisionCounters = Object.create(null);
-- 
2.43.0


From 6b9b93e6d39cd2ef72c493cfb05bd5d3ba2af0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 27/59] fix: object codecs that refer to themselves are
 described

---
 packages/openapi-generator/src/codec.ts   | 5 +++++
 packages/openapi-generator/src/project.ts | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 1c99755..8123a58 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -536,7 +536,12 @@ export function parseCodecInitializer(
           return initE;
         }
         const [newSourceFile, init, comment] = initE.right;
+        if (project.dereferencing.has(init)) {
+          return errorLeft(`'${schema.name}' from '${path}' refers to itself`);
+        }
+        project.dereferencing.add(init);
         const plainInitE = parsePlainInitializer(project, newSourceFile, init);
+        project.dereferencing.delete(init);
 
         if (E.isLeft(plainInitE)) return plainInitE;
         if (comment !== undefined) plainInitE.right.comment = comment;
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index f181c98..49bf387 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -1,6 +1,7 @@
 import * as fs from 'fs';
 import * as p from 'node:path';
 import { promisify } from 'util';
+import type { Expression } from '@swc/core';
 import * as E from 'fp-ts/Either';
 import resolve from 'resolve';
 
@@ -21,6 +22,9 @@ export class Project {
   private visitedPackages: Set<string>;
   private packageEntryPoints: Map<string, string>;
 
+  /** The initializers that are being dereferenced, to notice circular references */
+  readonly dereferencing: Set<Expression> = new Set();
+
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
     this.pendingFiles = new Set();
-- 
2.43.0


From 7eb9edbc88536b9a7a42420666c8d98d1c24f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 28/59] fix: requests keep the parameters of named union
 members, intersections list each parameter once

---
 packages/openapi-generator/src/route.ts | 52 ++++++++++++++++++-------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index d3a7010..8024a73 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -1,8 +1,9 @@
 import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
+import { isDeepStrictEqual } from 'node:util';
 
 import { parseCodecInitializer } from './codec';
-import type { CombinedType, Schema } from './ir';
+import type { CombinedType, Object, Schema } from './ir';
 import type { Project } from './project';
 import { findReferencedInitializer } from './resolveInit';
 import { errorLeft } from './error';
@@ -126,6 +127,7 @@ function parseRequestUnion(
   const headerSchema: Schema = { type: 'union', schemas: [] };
   let body: Schema | undefined;
 
+  const members: Object[] = [];
   for (let subSchema of schema.schemas) {
     if (subSchema.type === 'ref') {
       let derefE = derefRequestSchema(project, subSchema);
@@ -138,6 +140,7 @@ function parseRequestUnion(
     if (subSchema.type !== 'object') {
       return errorLeft('Route request union must be all objects');
     }
+    members.push(subSchema);
     if (subSchema.properties['query'] !== undefined) {
       querySchema.schemas.push(subSchema.properties['query']);
     }
@@ -168,11 +171,8 @@ function parseRequestUnion(
     // For headers in unions, deduplicate and merge properties from all schemas
     const headerParams = new Map<string, Parameter>();
 
-    for (const subSchema of schema.schemas) {
-      if (
-        subSchema.type === 'object' &&
-        subSchema.properties['headers']?.type === 'object'
-      ) {
+    for (const subSchema of members) {
+      if (subSchema.properties['headers']?.type === 'object') {
         const headers = subSchema.properties['headers'];
         for (const [name, prop] of Object.entries(headers.properties)) {
           // Only add if not already present
@@ -191,23 +191,24 @@ function parseRequestUnion(
     parameters.push(...headerParams.values());
   }
 
-  // Find the first schema in the union that has path parameters
-  for (const subSchema of schema.schemas) {
-    if (subSchema.type === 'object') {
-      const pathSchema = subSchema.properties['params'];
-      if (pathSchema !== undefined && pathSchema.type === 'object') {
-        for (const [name, prop] of Object.entries(pathSchema.properties)) {
-          parameters.push({
+  // Take every path parameter from the first schema in the union that has it
+  const pathParams = new Map<string, Parameter>();
+  for (const subSchema of members) {
+    const pathSchema = subSchema.properties['params'];
+    if (pathSchema !== undefined && pathSchema.type === 'object') {
+      for (const [name, prop] of Object.entries(pathSchema.properties)) {
+        if (!pathParams.has(name)) {
+          pathParams.set(name, {
             type: 'path',
             name,
             schema: prop,
             required: pathSchema.required.includes(name),
           });
         }
-        break; // Found path params, stop looking
       }
     }
   }
+  parameters.push(...pathParams.values());
 
   return E.right({ parameters, body });
 }
@@ -228,7 +229,28 @@ function parseRequestIntersection(
     if (E.isLeft(subResultE)) {
       return subResultE;
     }
-    result.parameters.push(...subResultE.right.parameters);
+    for (const parameter of subResultE.right.parameters) {
+      const index = result.parameters.findIndex(
+        (p) => p.type === parameter.type && p.name === parameter.name,
+      );
+      const other = result.parameters[index];
+      if (other === undefined) {
+        result.parameters.push(parameter);
+      } else {
+        // Both requests of the intersection have this parameter
+        result.parameters[index] = {
+          ...other,
+          required: other.required || parameter.required,
+          schema: isDeepStrictEqual(other.schema, parameter.schema)
+            ? other.schema
+            : {
+                type: 'intersection',
+                schemas: [other.schema, parameter.schema],
+                comment: other.schema.comment ?? parameter.schema.comment,
+              },
+        };
+      }
+    }
     if (subResultE.right.body !== undefined) {
       (result.body as CombinedType).schemas.push(subResultE.right.body);
     }
-- 
2.43.0


From 5cd90ec02399be45cbfa02188f0b661ead1595ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 29/59] fix: responses keyed by name are described with their
 status code

---
 packages/openapi-generator/src/route.ts      | 12 +++-
 packages/openapi-generator/src/statusCode.ts | 71 ++++++++++++++++++++
 2 files changed, 82 insertions(+), 1 deletion(-)
 create mode 100644 packages/openapi-generator/src/statusCode.ts

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 8024a73..37e1c1b 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -6,6 +6,7 @@ import { parseCodecInitializer } from './codec';
 import type { CombinedType, Object, Schema } from './ir';
 import type { Project } from './project';
 import { findReferencedInitializer } from './resolveInit';
+import { keyToHttpStatus } from './statusCode';
 import { errorLeft } from './error';
 
 export type Parameter = {
@@ -335,11 +336,20 @@ export function parseRoute(project: Project, schema: Schema): E.Either<string, R
     return errorLeft('Route responses must be an object');
   }
 
+  const response: Record<number, Schema> = {};
+  for (const [key, codec] of Object.entries(schema.properties['response'].properties)) {
+    const status = keyToHttpStatus(key);
+    if (status === undefined) {
+      return errorLeft(`Unknown response status '${key}'`);
+    }
+    response[status] = codec;
+  }
+
   return E.right({
     path,
     method,
     parameters,
-    response: schema.properties['response'].properties,
+    response,
     ...(body !== undefined ? { body } : {}),
     ...(schema.comment !== undefined ? { comment: schema.comment } : {}),
   });
diff --git a/packages/openapi-generator/src/statusCode.ts b/packages/openapi-generator/src/statusCode.ts
new file mode 100644
index 0000000..ca3df98
--- /dev/null
+++ b/packages/openapi-generator/src/statusCode.ts
@@ -0,0 +1,71 @@
+// The names that responses may have instead of a numeric status code.
+// Keep in step with `KeyToHttpStatus` of `@api-ts/io-ts-http`
+const KEY_TO_HTTP_STATUS = new Map<string, number>(
+  Object.entries({
+    continue: 100,
+    switchingProtocols: 101,
+    processing: 102,
+    ok: 200,
+    created: 201,
+    accepted: 202,
+    nonAuthoritativeInformation: 203,
+    noContent: 204,
+    resetContent: 205,
+    partialContent: 206,
+    multiStatus: 207,
+    alreadyReported: 208,
+    imUsed: 226,
+    multipleChoices: 300,
+    movedPermanently: 301,
+    found: 302,
+    seeOther: 303,
+    notModified: 304,
+    temporaryRedirect: 307,
+    permanentRedirect: 308,
+    invalidRequest: 400,
+    unauthenticated: 401,
+    paymentRequired: 402,
+    permissionDenied: 403,
+    notFound: 404,
+    methodNotAllowed: 405,
+    notAcceptable: 406,
+    proxyAuthenticationRequired: 407,
+    requestTimeout: 408,
+    conflict: 409,
+    gone: 410,
+    lengthRequired: 411,
+    preconditionFailed: 412,
+    contentTooLarge: 413,
+    uriTooLong: 414,
+    unsupportedMediaType: 415,
+    rangeNotSatisfiable: 416,
+    exceptionFailed: 417,
+    imATeapot: 418,
+    misdirectedRequest: 421,
+    unprocessableContent: 422,
+    locked: 423,
+    failedDependency: 424,
+    tooEarly: 425,
+    upgradeRequired: 426,
+    preconditionRequired: 428,
+    rateLimitExceeded: 429,
+    requestHeaderFieldsTooLarge: 431,
+    unavailableForLegalReasons: 451,
+    internalError: 500,
+    notImplemented: 501,
+    badGateway: 502,
+    serviceUnavailable: 503,
+    gatewayTimeout: 504,
+    httpVersionNotSupported: 505,
+    variantAlsoNegotiates: 506,
+    insufficientStorage: 507,
+    loopDetected: 508,
+    notExtended: 510,
+    networkAuthenticationRequired: 511,
+  }),
+);
+
+/** The HTTP status code that the key of a response stands for */
+export function keyToHttpStatus(key: string): number | undefined {
+  return /^\d+$/.test(key) ? Number(key) : KEY_TO_HTTP_STATUS.get(key);
+}
-- 
2.43.0


From b5d00552ae5d5387e78fd45f4fc1f6534a578300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 30/59] fix: actions replaced by later ones of the same name
 are not described

---
 packages/openapi-generator/src/apiSpec.ts | 37 ++++++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index 794e358..a0c99f3 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -1,5 +1,6 @@
 import * as swc from '@swc/core';
 import * as E from 'fp-ts/Either';
+import { pipe } from 'fp-ts/lib/function';
 import type { Block } from 'comment-parser';
 
 import { parsePlainInitializer } from './codec';
@@ -10,11 +11,35 @@ import { SourceFile } from './sourceFile';
 import { OpenAPIV3 } from 'openapi-types';
 import { errorLeft } from './error';
 
+// Routes by the action they belong to, as a later action replaces an earlier one of the
+// same name. Names that are not known here are unique.
+type Actions = Map<string | symbol, Route[]>;
+
 export function parseApiSpec(
   project: Project,
   sourceFile: SourceFile,
   expr: swc.Expression,
 ): E.Either<string, Route[]> {
+  return pipe(
+    parseActions(project, sourceFile, expr),
+    E.map((actions) => [...actions.values()].flat()),
+  );
+}
+
+function actionName(key: swc.PropertyName): string | symbol {
+  if (key.type === 'Computed') {
+    return key.expression.type === 'StringLiteral'
+      ? key.expression.value
+      : Symbol('computed');
+  }
+  return String(key.value);
+}
+
+function parseActions(
+  project: Project,
+  sourceFile: SourceFile,
+  expr: swc.Expression,
+): E.Either<string, Actions> {
   // If apiSpec is passed an identifier (variable), first resolve it to its actual value
   if (expr.type === 'Identifier') {
     const resolvedE = resolveLiteralOrIdentifier(project, sourceFile, expr);
@@ -22,14 +47,14 @@ export function parseApiSpec(
       return resolvedE;
     }
     const [newSourceFile, resolvedExpr] = resolvedE.right;
-    return parseApiSpec(project, newSourceFile, resolvedExpr);
+    return parseActions(project, newSourceFile, resolvedExpr);
   }
 
   if (expr.type !== 'ObjectExpression') {
     return errorLeft(`unimplemented route expression type ${expr.type}`);
   }
 
-  const result: Route[] = [];
+  const result: Actions = new Map();
   for (const apiAction of Object.values(expr.properties)) {
     if (apiAction.type === 'SpreadElement') {
       const spreadExprE = resolveLiteralOrIdentifier(
@@ -49,11 +74,11 @@ export function parseApiSpec(
         }
         spreadExpr = arg.expression;
       }
-      const spreadSpecE = parseApiSpec(project, spreadSourceFile, spreadExpr);
+      const spreadSpecE = parseActions(project, spreadSourceFile, spreadExpr);
       if (E.isLeft(spreadSpecE)) {
         return spreadSpecE;
       }
-      result.push(...spreadSpecE.right);
+      spreadSpecE.right.forEach((routes, name) => result.set(name, routes));
       continue;
     }
 
@@ -69,6 +94,7 @@ export function parseApiSpec(
     if (routesInit.type !== 'ObjectExpression') {
       return errorLeft(`unimplemented routes type ${routes.type}`);
     }
+    const actionRoutes: Route[] = [];
     for (const route of Object.values(routesInit.properties)) {
       if (route.type !== 'KeyValueProperty') {
         return errorLeft(`unimplemented route type ${route.type}`);
@@ -90,8 +116,9 @@ export function parseApiSpec(
       if (E.isLeft(routeResultE)) {
         return routeResultE;
       }
-      result.push(routeResultE.right);
+      actionRoutes.push(routeResultE.right);
     }
+    result.set(actionName(apiAction.key), actionRoutes);
   }
 
   return E.right(result);
-- 
2.43.0


From 5db0661a2394e74b7357fe9986d047ad51edb862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 31/59] fix: api specs behind type assertions and default
 exports are found

---
 packages/openapi-generator/src/cli.ts    | 28 +++++++++++++++---------
 packages/openapi-generator/src/symbol.ts | 16 ++++++++++++++
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 900291d..aaf0d90 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -111,19 +111,17 @@ const app = command({
     let apiSpec: Route[] = [];
     let servers: OpenAPIV3.ServerObject[] = [];
     for (const symbol of Object.values(entryPoint.symbols.declarations)) {
-      if (symbol.init === undefined) {
+      const init = withoutTypes(symbol.init);
+      if (!init) {
         continue;
-      } else if (symbol.init.type !== 'CallExpression') {
+      } else if (init.type !== 'CallExpression') {
         continue;
-      } else if (symbol.init.arguments.length === 0) {
+      } else if (init.arguments.length === 0) {
         continue;
-      } else if (
-        symbol.init.callee.type === 'Super' ||
-        symbol.init.callee.type === 'Import'
-      ) {
-        logWarn(`Skipping ${symbol.name} because it is a ${symbol.init.callee.type}`);
+      } else if (init.callee.type === 'Super' || init.callee.type === 'Import') {
+        logWarn(`Skipping ${symbol.name} because it is a ${init.callee.type}`);
         continue;
-      } else if (!isApiSpec(entryPoint, symbol.init.callee)) {
+      } else if (!isApiSpec(entryPoint, init.callee)) {
         continue;
       }
       logInfo(`Found API spec in ${symbol.name}`);
@@ -131,7 +129,7 @@ const app = command({
       const result = parseApiSpec(
         project,
         entryPoint,
-        symbol.init.arguments[0]!.expression,
+        init.arguments[0]!.expression,
       );
       if (E.isLeft(result)) {
         logError(`Error when parsing ${symbol.name}: ${result.left}`);
@@ -264,6 +262,16 @@ const app = command({
   },
 });
 
+// An expression without type assertions and parentheses around it
+function withoutTypes(expr: Expression): Expression {
+  return expr?.type === 'TsAsExpression' ||
+    expr?.type === 'TsConstAssertion' ||
+    expr?.type === 'TsSatisfiesExpression' ||
+    expr?.type === 'ParenthesisExpression'
+    ? withoutTypes(expr.expression)
+    : expr;
+}
+
 function isApiSpec(entryPoint: SourceFile, init: Expression): boolean {
   if (init.type === 'Identifier') {
     return (
diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 116ac52..f7b4800 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -240,6 +240,22 @@ export function parseTopLevelSymbols(
           exportedName: 'default',
           localName: item.expression.value,
         });
+      } else {
+        // The expression has no name, `default` cannot be the name of anything else
+        const prev = items[idx - 1];
+        symbols.declarations.push({
+          name: 'default',
+          init: item.expression,
+          comment:
+            prev !== undefined
+              ? leadingComment(src, srcSpanStart, prev.span.end, item.span.start)[0]
+              : undefined,
+        });
+        symbols.exports.push({
+          type: 'named',
+          exportedName: 'default',
+          localName: 'default',
+        });
       }
     }
   });
-- 
2.43.0


From 7e8ccf524020b8e7254dfee02b374de06d2597f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 32/59] fix: documentation comments are found whatever text
 surrounds them

---
 packages/openapi-generator/src/comments.ts   | 73 ++++----------------
 packages/openapi-generator/src/sourceFile.ts |  4 +-
 packages/openapi-generator/src/symbol.ts     | 25 +++----
 3 files changed, 30 insertions(+), 72 deletions(-)

diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index bd8f135..9bbebcc 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -4,27 +4,22 @@ import { Schema } from './ir';
 /**
  * Convert a UTF-8 byte offset to a JavaScript string character offset.
  * SWC (written in Rust) uses byte offsets, but JavaScript strings use
- * UTF-16 code unit offsets. This function handles the conversion by
- * iterating through the string and accumulating byte lengths.
+ * UTF-16 code unit offsets.
  *
  * @param str The source string
  * @param byteOffset The byte offset to convert
  * @returns The corresponding character offset
  */
 function byteOffsetToCharOffset(str: string, byteOffset: number): number {
-  let charCount = 0;
-  let byteCount = 0;
-
-  for (const char of str) {
-    const charBytes = Buffer.byteLength(char, 'utf8');
-    if (byteCount + charBytes > byteOffset) break;
-    byteCount += charBytes;
-    charCount++;
-  }
-
-  return charCount;
+  return Buffer.from(str, 'utf8').toString('utf8', 0, byteOffset).length;
 }
 
+// Line comments are matched too, as they may contain what looks like a block comment
+const COMMENTS = /\/\/.*|\/\*[^]*?\*\//g;
+
+const isDocComment = (comment: string): boolean => /^\/\*\*[^*/]/.test(comment);
+
+/** The documentation comments between two offsets of a source */
 export function leadingComment(
   src: string,
   srcSpanStart: number,
@@ -33,53 +28,13 @@ export function leadingComment(
 ): Block[] {
   // SWC uses byte offsets, but JavaScript strings use character offsets.
   // When there are multibyte UTF-8 characters, we need to adjust.
-  // Calculate the byte-to-char difference for the portion of source before our slice.
-  const startByteOffset = start - srcSpanStart;
-  const endByteOffset = end - srcSpanStart;
-
-  const startCharOffset = byteOffsetToCharOffset(src, startByteOffset);
-  const endCharOffset = byteOffsetToCharOffset(src, endByteOffset);
-
-  let commentString = src.slice(startCharOffset, endCharOffset).trim();
-
-  if (commentString.includes(' * ') && !/\/\*\*([\s\S]*?)\*\//.test(commentString)) {
-    // The comment block seems to be JSDoc but was sliced incorrectly
-
-    const beginningSubstring = '/**\n';
-    const endingSubstring = '\n */';
-
-    if (commentString.includes(beginningSubstring)) {
-      // Use lastIndexOf to get the LAST occurrence of '/**\n' to handle cases where
-      // the slice includes parts of previous properties
-      const lastIdx = commentString.lastIndexOf(beginningSubstring);
-      commentString = commentString.substring(lastIdx);
-    } else {
-      switch (commentString.split('\n')[0]) {
-        case '**':
-          commentString = '/' + commentString;
-          break;
-        case '*':
-          commentString = '/*' + commentString;
-          break;
-        case '':
-          commentString = '/**' + commentString;
-          break;
-        default:
-          commentString = beginningSubstring + commentString;
-          break;
-      }
-    }
-
-    if (commentString.includes(endingSubstring)) {
-      // Use indexOf to get the FIRST occurrence of '\n */' after isolating the last comment block
-      const firstIdx = commentString.indexOf(endingSubstring);
-      commentString = commentString.substring(0, firstIdx + endingSubstring.length);
-    } else {
-      commentString = commentString + endingSubstring;
-    }
-  }
+  const startCharOffset = byteOffsetToCharOffset(src, start - srcSpanStart);
+  const endCharOffset = byteOffsetToCharOffset(src, end - srcSpanStart);
 
-  const parsedComment = parseComment(commentString, { spacing: 'preserve' });
+  const comments = src.slice(startCharOffset, endCharOffset).match(COMMENTS) ?? [];
+  const parsedComment = comments
+    .filter(isDocComment)
+    .flatMap((comment) => parseComment(comment, { spacing: 'preserve' }));
 
   for (const block of parsedComment) {
     block.description = block.description.trim();
diff --git a/packages/openapi-generator/src/sourceFile.ts b/packages/openapi-generator/src/sourceFile.ts
index fa639a4..db77fde 100644
--- a/packages/openapi-generator/src/sourceFile.ts
+++ b/packages/openapi-generator/src/sourceFile.ts
@@ -17,8 +17,10 @@ let lastSpanEnd = -1;
 
 export async function parseSource(
   path: string,
-  src: string,
+  sourceText: string,
 ): Promise<SourceFile | undefined> {
+  // `swc` does not count a byte order mark
+  const src = sourceText.replace(/^\uFEFF/, '');
   try {
     // Parse an empty string to get the last span
     const lastSpan = swc.parseSync('');
diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index f7b4800..61dd37e 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -113,6 +113,16 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
   return result;
 }
 
+// The documentation of a declaration is the last one before it
+function declarationComment(
+  src: string,
+  srcSpanStart: number,
+  prev: swc.ModuleItem | undefined,
+  start: number,
+): Block | undefined {
+  return leadingComment(src, srcSpanStart, prev?.span.end ?? srcSpanStart, start).pop();
+}
+
 function parseDeclaration(
   src: string,
   srcSpanStart: number,
@@ -130,10 +140,7 @@ function parseDeclaration(
     decl.type === 'ExportDeclaration' ? decl.declaration : decl;
 
   if (subDeclaration.type === 'VariableDeclaration') {
-    const comment =
-      prev !== undefined
-        ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
-        : undefined;
+    const comment = declarationComment(src, srcSpanStart, prev, decl.span.start);
     subDeclaration.declarations.forEach((d) => {
       if (
         d.type === 'VariableDeclarator' &&
@@ -156,10 +163,7 @@ function parseDeclaration(
       }
     });
   } else if (subDeclaration.type === 'TsEnumDeclaration') {
-    const comment =
-      prev !== undefined
-        ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
-        : undefined;
+    const comment = declarationComment(src, srcSpanStart, prev, decl.span.start);
     // Construct a synthetic object declaration
     const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
       return {
@@ -246,10 +250,7 @@ export function parseTopLevelSymbols(
         symbols.declarations.push({
           name: 'default',
           init: item.expression,
-          comment:
-            prev !== undefined
-              ? leadingComment(src, srcSpanStart, prev.span.end, item.span.start)[0]
-              : undefined,
+          comment: declarationComment(src, srcSpanStart, prev, item.span.start),
         });
         symbols.exports.push({
           type: 'named',
-- 
2.43.0


From eb1a7b75bca4ada6f15e1606156cbde1c2e4d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 33/59] fix: comments of shorthand properties stay with them

---
 packages/openapi-generator/src/codec.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 8123a58..0155dc8 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -244,15 +244,27 @@ function parseObjectExpression(
       if (E.isLeft(initE)) {
         return initE;
       }
-      const [newSourceFile, init] = initE.right;
+      const [newSourceFile, init, initComment] = initE.right;
       const valueE = parsePlainInitializer(project, newSourceFile, init);
       if (E.isLeft(valueE)) {
         return valueE;
       }
-      result.properties[name] = valueE.right;
+      const comment = leadingComment(
+        source.src,
+        source.span.start,
+        commentStartIdx,
+        property.span.start,
+      ).pop();
+      commentStartIdx = property.span.end;
+      result.properties[name] =
+        (comment ?? initComment) !== undefined
+          ? { ...valueE.right, comment: comment ?? initComment }
+          : valueE.right;
       result.required.push(name);
       continue;
     } else if (property.type === 'SpreadElement') {
+      // A comment before the spread is not one of the next property
+      commentStartIdx = (property.arguments as swc.HasSpan).span.end;
       const schemaE = pipe(
         parsePlainInitializer(project, source, property.arguments),
         E.chain((schema) => resolveReferences(project, schema)),
-- 
2.43.0


From 717673188deddd7ebfc97098f31ac0b50f7b764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 34/59] fix: values of documentation tags are kept as written

---
 packages/openapi-generator/src/jsdoc.ts   | 33 +++++++++++++++++------
 packages/openapi-generator/src/openapi.ts |  7 ++---
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/packages/openapi-generator/src/jsdoc.ts b/packages/openapi-generator/src/jsdoc.ts
index 6bf698f..744cb8e 100644
--- a/packages/openapi-generator/src/jsdoc.ts
+++ b/packages/openapi-generator/src/jsdoc.ts
@@ -1,4 +1,4 @@
-import type { Block } from 'comment-parser';
+import type { Block, Line } from 'comment-parser';
 
 type Tags = Record<Exclude<string, 'example'>, string> & { example?: any };
 
@@ -8,6 +8,19 @@ export type JSDoc = {
   tags?: Tags;
 };
 
+/** What is written on a line after its tag, if it has one */
+function textOf({ tokens }: Line): string {
+  const { type, postType, name, postName, description } = tokens;
+  return `${type}${postType}${name}${postName}${description}`;
+}
+
+/** The values of a tag that may be written several times */
+export function tagValues(comment: Block, tag: string): string[] {
+  return comment.source
+    .filter((line) => line.tokens.tag === `@${tag}`)
+    .map((line) => textOf(line).trim());
+}
+
 export function parseCommentBlock(comment: Block): JSDoc {
   let summary: string = '';
   let description: string = '';
@@ -16,36 +29,40 @@ export function parseCommentBlock(comment: Block): JSDoc {
 
   for (const line of comment.source) {
     if (writingExample) {
-      tags['example'] = `${tags['example']}\n${line.source.split('*')[1]?.trim()}`;
+      const { tag, postTag } = line.tokens;
+      tags['example'] = `${tags['example']}\n${tag}${postTag}${textOf(line)}`;
       try {
         tags['example'] = JSON.parse(tags['example']);
         writingExample = false;
       } catch (e) {
-        if (line.source.endsWith('*/'))
+        if (line.tokens.end !== '')
           throw new Error('@example contains invalid JSON');
         else continue;
       }
     } else if (line.tokens.tag !== undefined && line.tokens.tag.length > 0) {
       if (line.tokens.tag === '@example') {
-        tags['example'] = line.source.split('@example')[1]?.trim();
+        tags['example'] = textOf(line).trim();
         if (tags['example'].startsWith('{') || tags['example'].startsWith('[')) {
           try {
             tags['example'] = JSON.parse(tags['example']);
           } catch (e) {
+            if (line.tokens.end !== '')
+              throw new Error('@example contains invalid JSON');
             writingExample = true;
           }
         }
       } else {
-        tags[line.tokens.tag.slice(1)] =
-          `${line.tokens.name} ${line.tokens.description}`.trim();
+        tags[line.tokens.tag.slice(1)] = textOf(line).trim();
       }
     } else if (summary.length === 0) {
       if (line.tokens.description === '') {
         continue;
       }
-      summary = line.tokens.description;
+      summary = line.tokens.description.trim();
     } else {
-      description = `${description ?? ''}\n${line.tokens.description}`;
+      // All spaces but the one after the `*` are indentation
+      const indentation = line.tokens.postDelimiter.slice(1);
+      description = `${description ?? ''}\n${indentation}${line.tokens.description}`;
     }
   }
 
diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3226141..7541785 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -1,7 +1,7 @@
 import { OpenAPIV3 } from 'openapi-types';
 
 import { STATUS_CODES } from 'http';
-import { parseCommentBlock } from './jsdoc';
+import { parseCommentBlock, tagValues } from './jsdoc';
 import { filterUndefinedUnion, optimize } from './optimize';
 import type { Route } from './route';
 import type { Schema } from './ir';
@@ -382,7 +382,8 @@ function routeToOpenAPI(
 ): [string, string, OpenAPIV3.OperationObject] {
   const jsdoc = route.comment !== undefined ? parseCommentBlock(route.comment) : {};
   const operationId = jsdoc.tags?.operationId;
-  const tag = jsdoc.tags?.tag ?? '';
+  const tags =
+    route.comment !== undefined ? tagValues(route.comment, 'tag').filter(Boolean) : [];
   const isInternal = jsdoc.tags?.private !== undefined;
   const isPublic = jsdoc.tags?.public !== undefined;
   if (isInternal && isPublic) {
@@ -434,7 +435,7 @@ function routeToOpenAPI(
       ...(jsdoc.summary !== undefined ? { summary: jsdoc.summary } : {}),
       ...(jsdoc.description !== undefined ? { description: jsdoc.description } : {}),
       ...(operationId !== undefined ? { operationId } : {}),
-      ...(tag !== '' ? { tags: [tag] } : {}),
+      ...(tags.length > 0 ? { tags } : {}),
       ...(isInternal
         ? { 'x-internal': true }
         : isPublic
-- 
2.43.0


From 39591c66fb43e5f67a042bd05b1846c3ea04bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 35/59] fix: documentation of nullable, optional and null
 schemas is not lost

---
 packages/openapi-generator/src/openapi.ts | 31 ++++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 7541785..2dcb7c7 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -60,7 +60,7 @@ export function schemaToOpenAPI(
       case 'null':
         // TODO: OpenAPI v3 does not have an explicit null type, is there a better way to represent this?
         // Or should we just conflate explicit null and undefined properties?
-        return { nullable: true, enum: [] };
+        return { nullable: true, enum: [], ...defaultOpenAPIObject };
       case 'ref':
         // Resolve the component name using the mapping (handles collisions)
         const resolvedName =
@@ -85,7 +85,7 @@ export function schemaToOpenAPI(
 
         const siblings = {
           ...rest,
-          ...(!isArrayExample && example ? { example } : {}),
+          ...(!isArrayExample && example !== undefined ? { example } : {}),
         };
 
         // Handle case where innerSchema is a $ref with siblings
@@ -165,7 +165,7 @@ export function schemaToOpenAPI(
               ...(describedSchemas.length > 1
                 ? { type: 'union', schemas: definedSchemas }
                 : (describedSchemas[0] ?? nonUndefinedSchema)),
-              comment: schema.comment,
+              ...(schema.comment !== undefined ? { comment: schema.comment } : {}),
               ...(nullSchema ? { nullable: true } : {}),
             },
             componentNameMapping,
@@ -183,7 +183,7 @@ export function schemaToOpenAPI(
             return schemaToOpenAPI(
               {
                 ...nonUnknownSchemas[0],
-                comment: schema.comment,
+                ...(schema.comment !== undefined ? { comment: schema.comment } : {}),
                 ...(nullSchema ? { nullable: true } : {}),
               },
               componentNameMapping,
@@ -289,6 +289,22 @@ export function schemaToOpenAPI(
   const parseField = (schema: Schema, fieldValue: any): any => {
     if (typeof fieldValue !== 'string') {
       return fieldValue;
+    } else if (
+      schema.type === 'array' &&
+      ['number', 'integer', 'boolean'].includes(schema.items.type) &&
+      !fieldValue.startsWith('[')
+    ) {
+      // It is said about the items
+      return parseField(schema.items, fieldValue);
+    } else if (schema.type === 'union') {
+      const isNullable = schema.schemas.some((s) => s.type === 'null');
+      if (isNullable && fieldValue === 'null') {
+        return null;
+      }
+      const [member, ...others] = schema.schemas.filter((s) => s.type !== 'null');
+      return member !== undefined && others.length === 0
+        ? parseField(member, fieldValue)
+        : fieldValue;
     } else if (schema.type === 'number' || schema.type === 'integer') {
       return Number(fieldValue);
     } else if (schema.type === 'boolean') {
@@ -449,7 +465,10 @@ function routeToOpenAPI(
         // Array types not allowed here
         const schema = schemaToOpenAPI(p.schema, componentNameMapping);
 
+        // The description is one of the parameter
+        let description = p.schema?.comment?.description;
         if (schema && 'description' in schema) {
+          description ??= schema.description;
           delete schema.description;
         }
 
@@ -461,9 +480,7 @@ function routeToOpenAPI(
 
         return {
           name: p.name,
-          ...(p.schema?.comment?.description !== undefined
-            ? { description: p.schema.comment.description }
-            : {}),
+          ...(description !== undefined ? { description } : {}),
           in: p.type,
           ...(hasInternalFlag ? { 'x-internal': internalValue } : {}),
           ...(p.required ? { required: true } : {}),
-- 
2.43.0


From dd3e3de19bbfc3d49cc22e3b7d46261d4a6dceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 36/59] fix: schemas of custom codecs are not changed

A custom codec may return the same schema every time. Comments, and the
required properties of requests, were written into it and showed up wherever
else it is used.
---
 packages/openapi-generator/src/apiSpec.ts      |  8 ++++----
 packages/openapi-generator/src/cli.ts          | 10 +++++-----
 packages/openapi-generator/src/codec.ts        | 10 ++++++----
 packages/openapi-generator/src/knownImports.ts | 10 ++++++----
 packages/openapi-generator/src/route.ts        | 15 +++++++--------
 5 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index a0c99f3..5b38ae4 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -109,10 +109,10 @@ function parseActions(
       if (E.isLeft(codecE)) {
         return codecE;
       }
-      if (comment !== undefined) {
-        codecE.right.comment = comment;
-      }
-      const routeResultE = parseRoute(project, codecE.right);
+      const routeResultE = parseRoute(
+        project,
+        comment !== undefined ? { ...codecE.right, comment } : codecE.right,
+      );
       if (E.isLeft(routeResultE)) {
         return routeResultE;
       }
diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index aaf0d90..603df98 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -236,13 +236,13 @@ const app = command({
           );
           process.exit(1);
         }
-        if (comment !== undefined) {
-          codecE.right.comment = comment;
-        }
+        // Not changed in place: custom codecs may share their schemas
+        const component: Schema =
+          comment !== undefined ? { ...codecE.right, comment } : codecE.right;
 
-        components[componentName] = codecE.right;
+        components[componentName] = component;
         componentNames.set(init, componentName);
-        queue.push(codecE.right);
+        queue.push(component);
       }
     }
 
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 0155dc8..9053f40 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -555,10 +555,12 @@ export function parseCodecInitializer(
         const plainInitE = parsePlainInitializer(project, newSourceFile, init);
         project.dereferencing.delete(init);
 
-        if (E.isLeft(plainInitE)) return plainInitE;
-        if (comment !== undefined) plainInitE.right.comment = comment;
-
-        return plainInitE;
+        return comment === undefined
+          ? plainInitE
+          : pipe(
+              plainInitE,
+              E.map((plain) => ({ ...plain, comment })),
+            );
       }
     }
     const args = init.arguments.map<E.Either<string, Schema>>(({ expression }) => {
diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 1925e82..008b976 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -440,10 +440,12 @@ export const KNOWN_IMPORTS: KnownImports = {
           return errorLeft(`Unimplemented httpRequest type ${innerProps.type}`);
         }
 
-        innerProps.required = innerProps.required.filter(
-          (key) => !isOptional(deref, innerProps.properties[key]!),
-        );
-        properties[outerKey] = innerProps;
+        properties[outerKey] = {
+          ...innerProps,
+          required: innerProps.required.filter(
+            (key) => !isOptional(deref, innerProps.properties[key]!),
+          ),
+        };
       }
 
       return E.right({
diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 37e1c1b..771a924 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -1,5 +1,6 @@
 import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
+import { pipe } from 'fp-ts/lib/function';
 import { isDeepStrictEqual } from 'node:util';
 
 import { parseCodecInitializer } from './codec';
@@ -42,14 +43,12 @@ function derefRequestSchema(
     }
     const [newSourceFile, init, comment] = initE.right;
     const resolvedE = parseCodecInitializer(project, newSourceFile, init);
-    if (
-      E.isRight(resolvedE) &&
-      comment !== undefined &&
-      resolvedE.right.comment === undefined
-    ) {
-      resolvedE.right.comment = comment;
-    }
-    return resolvedE;
+    return comment === undefined
+      ? resolvedE
+      : pipe(
+          resolvedE,
+          E.map((resolved) => ({ ...resolved, comment: resolved.comment ?? comment })),
+        );
   } else {
     return E.right(schema);
   }
-- 
2.43.0


From 540e9d85c3e7cd0d9d015c0a371a74b59a5e5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 37/59] fix: the order of paths does not depend on the locale

---
 packages/openapi-generator/src/openapi.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 2dcb7c7..624ae38 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -551,12 +551,13 @@ export function convertRoutesToOpenAPI(
     {} as Record<string, OpenAPIV3.SchemaObject | OpenAPIV3.ReferenceObject>,
   );
 
+  // The order must not depend on the locale of whoever generates the document
   const sortedPaths = Object.keys(paths)
-    .sort((a, b) => a.localeCompare(b))
+    .sort((a, b) => a.localeCompare(b, 'en'))
     .reduce(
       (acc, key) => {
         const sortedMethods = Object.keys(paths[key]!)
-          .sort((a, b) => a.localeCompare(b))
+          .sort((a, b) => a.localeCompare(b, 'en'))
           .reduce(
             (methodAcc, methodKey) => {
               methodAcc[methodKey] = paths[key]![methodKey]!;
-- 
2.43.0


From 68186cffb56cd655432219c5db235c80e82b851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 38/59] fix: codecs that are not described and unreadable
 packages are reported

---
 packages/openapi-generator/src/cli.ts     | 14 ++---------
 packages/openapi-generator/src/codec.ts   | 29 +++++++++++++++++++----
 packages/openapi-generator/src/project.ts |  6 ++++-
 3 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 603df98..bb731f6 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -16,7 +16,7 @@ import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
 import { findReferencedInitializer } from './resolveInit';
-import { parseCodecInitializer } from './codec';
+import { parseCodecInitializer, withoutTypes } from './codec';
 import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
 
@@ -111,7 +111,7 @@ const app = command({
     let apiSpec: Route[] = [];
     let servers: OpenAPIV3.ServerObject[] = [];
     for (const symbol of Object.values(entryPoint.symbols.declarations)) {
-      const init = withoutTypes(symbol.init);
+      const init = symbol.init && withoutTypes(symbol.init);
       if (!init) {
         continue;
       } else if (init.type !== 'CallExpression') {
@@ -262,16 +262,6 @@ const app = command({
   },
 });
 
-// An expression without type assertions and parentheses around it
-function withoutTypes(expr: Expression): Expression {
-  return expr?.type === 'TsAsExpression' ||
-    expr?.type === 'TsConstAssertion' ||
-    expr?.type === 'TsSatisfiesExpression' ||
-    expr?.type === 'ParenthesisExpression'
-    ? withoutTypes(expr.expression)
-    : expr;
-}
-
 function isApiSpec(entryPoint: SourceFile, init: Expression): boolean {
   if (init.type === 'Identifier') {
     return (
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 9053f40..199bedf 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -10,7 +10,7 @@ import { findReferencedInitializer, findSymbolInitializer } from './resolveInit'
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
-import { errorLeft } from './error';
+import { errorLeft, logWarn } from './error';
 
 type ResolvedIdentifier = Schema | { type: 'codec'; schema: KnownCodec };
 
@@ -415,11 +415,24 @@ function parseTemplateLiteral(
   );
 }
 
+/** An expression without the type assertions and parentheses around it */
+export function withoutTypes(expr: swc.Expression): swc.Expression {
+  return expr.type === 'TsAsExpression' ||
+    expr.type === 'TsConstAssertion' ||
+    expr.type === 'TsSatisfiesExpression' ||
+    expr.type === 'TsNonNullExpression' ||
+    expr.type === 'TsTypeAssertion' ||
+    expr.type === 'ParenthesisExpression'
+    ? withoutTypes(expr.expression)
+    : expr;
+}
+
 export function parsePlainInitializer(
   project: Project,
   source: SourceFile,
-  init: swc.Expression,
+  expr: swc.Expression,
 ): E.Either<string, Schema> {
+  const init = withoutTypes(expr);
   if (init.type === 'ObjectExpression') {
     return parseObjectExpression(project, source, init.span.start, init);
   } else if (init.type === 'ArrayExpression') {
@@ -434,8 +447,6 @@ export function parsePlainInitializer(
     return E.right({ type: 'null', enum: [null] });
   } else if (init.type === 'Identifier' && init.value === 'undefined') {
     return E.right({ type: 'undefined' });
-  } else if (init.type === 'TsConstAssertion' || init.type === 'TsAsExpression') {
-    return parsePlainInitializer(project, source, init.expression);
   } else if (init.type === 'TemplateLiteral') {
     return parseTemplateLiteral(project, source, init);
   } else if (
@@ -445,6 +456,11 @@ export function parsePlainInitializer(
   ) {
     return parseCodecInitializer(project, source, init);
   } else {
+    // Functions are arguments of codecs, such as predicates. Anything else may be a
+    // codec that is not described any further.
+    if (init.type !== 'ArrowFunctionExpression' && init.type !== 'FunctionExpression') {
+      logWarn(`Unimplemented expression type ${init.type} in ${source.path}`);
+    }
     return E.right({ type: 'any' });
   }
 }
@@ -473,8 +489,9 @@ function parseFunctionBody(
 export function parseCodecInitializer(
   project: Project,
   source: SourceFile,
-  init: swc.Expression,
+  expr: swc.Expression,
 ): E.Either<string, Schema> {
+  const init = withoutTypes(expr);
   if (init.type === 'Identifier' || init.type === 'MemberExpression') {
     const identifierE = codecIdentifier(project, source, init);
     if (E.isLeft(identifierE)) {
@@ -524,6 +541,8 @@ export function parseCodecInitializer(
     const identifier = identifierE.right;
 
     if (identifier.type !== 'codec') {
+      // Described by the function, if that is possible at all
+      logWarn(`Unimplemented function call in ${source.path}`);
       return E.right(identifier);
     }
 
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 49bf387..bea3c76 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -226,7 +226,11 @@ export class Project {
         basedir,
         extensions: ['.json'],
       });
-    } catch (e) {
+    } catch (e: unknown) {
+      if ((e as NodeJS.ErrnoException).code !== 'MODULE_NOT_FOUND') {
+        // The package may well have custom codecs
+        throw e;
+      }
       // This should not lead to the failure of the entire project, so return an empty record
       return E.right({});
     }
-- 
2.43.0


From 131e991061bb6f175dfa7d3d4aa0edcac813fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 39/59] fix: references to codecs without a schema do not
 dangle

---
 packages/openapi-generator/src/openapi.ts | 37 ++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 624ae38..336b2fc 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -7,7 +7,8 @@ import type { Route } from './route';
 import type { Schema } from './ir';
 import { Block } from 'comment-parser';
 
-export type ComponentNameMapping = Record<string, Record<string, string>>;
+// The component of a codec, or null if there is nothing to describe (`t.undefined`)
+export type ComponentNameMapping = Record<string, Record<string, string | null>>;
 
 export function schemaToOpenAPI(
   schema: Schema,
@@ -63,8 +64,11 @@ export function schemaToOpenAPI(
         return { nullable: true, enum: [], ...defaultOpenAPIObject };
       case 'ref':
         // Resolve the component name using the mapping (handles collisions)
-        const resolvedName =
-          componentNameMapping?.[schema.location]?.[schema.name] ?? schema.name;
+        const componentName = componentNameMapping?.[schema.location]?.[schema.name];
+        if (componentName === null) {
+          return undefined;
+        }
+        const resolvedName = componentName ?? schema.name;
         // if defaultOpenAPIObject is empty, no need to wrap the $ref in an allOf array
         if (Object.keys(defaultOpenAPIObject).length === 0) {
           return { $ref: `#/components/schemas/${resolvedName}` };
@@ -509,13 +513,38 @@ function routeToOpenAPI(
   ];
 }
 
+// Without the components that have no schema, and those that are nothing but them
+function withoutUndefined(
+  schemas: Record<string, Schema>,
+  mapping: ComponentNameMapping,
+): ComponentNameMapping {
+  const isUndefined = (name: string | null): boolean =>
+    name !== null &&
+    schemas[name] !== undefined &&
+    schemaToOpenAPI(schemas[name]!, mapping) === undefined;
+
+  let changed = false;
+  const result: ComponentNameMapping = Object.create(null);
+  for (const [location, names] of Object.entries(mapping)) {
+    result[location] = Object.create(null) as Record<string, string | null>;
+    for (const [name, componentName] of Object.entries(names)) {
+      const drop = isUndefined(componentName);
+      changed ||= drop;
+      result[location]![name] = drop ? null : componentName;
+    }
+  }
+  return changed ? withoutUndefined(schemas, result) : mapping;
+}
+
 export function convertRoutesToOpenAPI(
   info: OpenAPIV3.InfoObject,
   servers: OpenAPIV3.ServerObject[],
   routes: Route[],
   schemas: Record<string, Schema>,
-  componentNameMapping?: ComponentNameMapping,
+  allComponentNames?: ComponentNameMapping,
 ): OpenAPIV3.Document {
+  const componentNameMapping =
+    allComponentNames && withoutUndefined(schemas, allComponentNames);
   const paths = routes.reduce(
     (acc, route) => {
       const [path, method, pathItem] = routeToOpenAPI(route, componentNameMapping);
-- 
2.43.0


From e5b96c0cbd9bcb34cb18c17ff87561f1f11afb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 40/59] fix: the order of properties in unions does not depend
 on the locale

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 073f7c4..53a3227 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -149,7 +149,7 @@ function mergeUnions(schema: Schema): Schema {
         : Object.assign(
             {},
             ...Object.entries(obj)
-              .sort(([keyA], [keyB]) => keyA.localeCompare(keyB))
+              .sort(([keyA], [keyB]) => keyA.localeCompare(keyB, 'en'))
               .map(([k, v]) => ({ [k]: sortObj(v) })),
           );
 
-- 
2.43.0


From 0bf342e6545070c7ac82b06b3c8a7139214fcf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 41/59] fix: functions with local declarations or several
 returns are not described by something else

---
 packages/openapi-generator/src/codec.ts | 56 +++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 199bedf..3ed2563 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -465,6 +465,32 @@ export function parsePlainInitializer(
   }
 }
 
+// Calls visit for every node of a function body that is not part of another function
+function walk(node: unknown, visit: (node: swc.Node) => void): void {
+  if (Array.isArray(node)) {
+    node.forEach((child) => walk(child, visit));
+  } else if (typeof node === 'object' && node !== null) {
+    const { type } = node as swc.Node;
+    if (typeof type === 'string') {
+      visit(node as swc.Node);
+      if (/Function|Class/.test(type)) {
+        return;
+      }
+    }
+    for (const [key, child] of Object.entries(node)) {
+      // Names of properties do not refer to anything
+      const isName =
+        (((type === 'KeyValueProperty' || type === 'KeyValuePatternProperty') &&
+          key === 'key') ||
+          (type === 'MemberExpression' && key === 'property')) &&
+        child.type === 'Identifier';
+      if (!isName && !/^type(Annotation|Arguments|Params)$/.test(key)) {
+        walk(child, visit);
+      }
+    }
+  }
+}
+
 function parseFunctionBody(
   project: Project,
   source: SourceFile,
@@ -481,6 +507,36 @@ function parseFunctionBody(
     if (!returnStmt.argument) {
       return errorLeft('Return statement must have an argument');
     }
+    let returns = 0;
+    const locals: Set<string> = new Set();
+    walk(func.body.stmts, (node) => {
+      if (node.type === 'ReturnStatement') {
+        returns++;
+      } else if (node.type === 'VariableDeclarator') {
+        walk((node as swc.VariableDeclarator).id, (id) => {
+          if (id.type === 'Identifier') {
+            locals.add((id as swc.Identifier).value);
+          }
+        });
+      } else if (
+        node.type === 'FunctionDeclaration' ||
+        node.type === 'ClassDeclaration'
+      ) {
+        locals.add((node as swc.FunctionDeclaration).identifier.value);
+      }
+    });
+    if (returns > 1) {
+      return errorLeft('Functions with several return statements are not supported');
+    }
+    let local: string | undefined;
+    walk(returnStmt.argument, (node) => {
+      if (node.type === 'Identifier' && locals.has((node as swc.Identifier).value)) {
+        local = (node as swc.Identifier).value;
+      }
+    });
+    if (local !== undefined) {
+      return errorLeft(`Local declarations are not supported: ${local}`);
+    }
     return parseCodecInitializer(project, source, returnStmt.argument);
   }
   return parseCodecInitializer(project, source, func.body);
-- 
2.43.0


From 12f3a96c1e07ec9fce0bb75508fa3ffb3c9096a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 42/59] fix: properties, headers and operations named
 hasOwnProperty, and objects without a prototype

---
 packages/io-ts-http/src/combinators.ts     | 12 ++++++++----
 packages/superagent-wrapper/src/request.ts |  5 ++++-
 packages/superagent-wrapper/src/routes.ts  |  7 +++++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 7030766..5af6ac4 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -14,6 +14,10 @@ import {
   Simplify,
 } from './utils';
 
+// Not called on the value itself, which may declare a property of that name or have no prototype
+const hasOwn = (value: object, key: PropertyKey): boolean =>
+  Object.prototype.hasOwnProperty.call(value, key);
+
 // Returns `value` without its explicit `undefined` properties. The input may belong to the caller
 // (io-ts returns it as-is when nothing changes), so it must not be modified.
 const withoutUndefined = <T>(value: T): T => {
@@ -108,7 +112,7 @@ export const flattened = <Props extends NestedProps>(
 > => {
   let flatProps: t.Props = {};
   for (const key in props) {
-    if (!props.hasOwnProperty(key)) {
+    if (!hasOwn(props, key)) {
       continue;
     }
     const innerProps = props[key];
@@ -130,7 +134,7 @@ export const flattened = <Props extends NestedProps>(
         E.map((nested) => {
           let flattened = {};
           for (const key in nested) {
-            if (!nested.hasOwnProperty(key)) {
+            if (!hasOwn(nested, key)) {
               continue;
             }
             flattened = { ...flattened, ...nested[key] };
@@ -141,12 +145,12 @@ export const flattened = <Props extends NestedProps>(
     (input: any) => {
       const nested: Record<string, any> = {};
       for (const o in props) {
-        if (!props.hasOwnProperty(o)) {
+        if (!hasOwn(props, o)) {
           continue;
         }
         nested[o] = {};
         for (const i in props[o]) {
-          if ((input as {}).hasOwnProperty(i)) {
+          if (hasOwn(input, i)) {
             const codec = props[o]![i]!;
             nested[o]![i] = codec.encode(input[i]);
           }
diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 6767e77..c875799 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -205,7 +205,10 @@ export const requestForRoute =
     for (const key in headers) {
       const value: string | undefined = headers[key];
       // An optional header may also be present as an explicit undefined property
-      if (headers.hasOwnProperty(key) && value !== undefined) {
+      if (
+        Object.prototype.hasOwnProperty.call(headers, key) &&
+        value !== undefined
+      ) {
         request = request.set(key, value);
       }
     }
diff --git a/packages/superagent-wrapper/src/routes.ts b/packages/superagent-wrapper/src/routes.ts
index 852e102..8206440 100644
--- a/packages/superagent-wrapper/src/routes.ts
+++ b/packages/superagent-wrapper/src/routes.ts
@@ -21,12 +21,15 @@ export const buildApiClient = <
 ): ApiClient<Req, Spec> => {
   const result: any = {};
   for (const apiName in spec) {
-    if (!spec.hasOwnProperty(apiName)) {
+    if (!Object.prototype.hasOwnProperty.call(spec, apiName)) {
       continue;
     }
     const subSpec: any = {};
     for (const method in spec[apiName]) {
-      if (!spec[apiName].hasOwnProperty(method) || !h.Method.is(method)) {
+      if (
+        !Object.prototype.hasOwnProperty.call(spec[apiName], method) ||
+        !h.Method.is(method)
+      ) {
         continue;
       }
       const route = spec[apiName][method];
-- 
2.43.0


From 625c7efcffb4a3fe631174a281f26d1978f00722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 43/59] fix: recording an error that has no text does not fail
 the request

---
 packages/typed-express-router/src/telemetry.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/typed-express-router/src/telemetry.ts b/packages/typed-express-router/src/telemetry.ts
index 1340c67..cc62da3 100644
--- a/packages/typed-express-router/src/telemetry.ts
+++ b/packages/typed-express-router/src/telemetry.ts
@@ -131,6 +131,15 @@ export function createSendEncodedSpan(metadata: SpanMetadata): Span | undefined
   return span;
 }
 
+// Not every value has a text (e.g. circular objects), but that must not change how the request is handled
+const describe = (value: unknown, toText: (value: unknown) => string): string => {
+  try {
+    return toText(value);
+  } catch {
+    return 'unknown error';
+  }
+};
+
 /**
  * Records an error on an encode span
  * @param span The span to record the error on
@@ -147,7 +156,9 @@ export function recordSpanEncodeError(
   setSpanAttributes(span, {
     [ApiTsAttributes.API_TS_STATUS_CODE]: statusCode,
   });
-  span.recordException(error instanceof Error ? error : new Error(String(error)));
+  span.recordException(
+    error instanceof Error ? error : new Error(describe(error, String)),
+  );
   span.setStatus({ code: otelApi.SpanStatusCode.ERROR });
 }
 
@@ -168,7 +179,7 @@ export function recordSpanDecodeError(
   setSpanAttributes(span, {
     [ApiTsAttributes.API_TS_STATUS_CODE]: statusCode,
   });
-  span.recordException(JSON.stringify(error, null, 2));
+  span.recordException(describe(error, (value) => JSON.stringify(value, null, 2)));
   span.setStatus({ code: otelApi.SpanStatusCode.ERROR });
 }
 
-- 
2.43.0


From 49388016cdf58402e4e3047f940270cfcc81ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 44/59] fix: actions replaced under a computed name, and
 spreads of calls that are not apiSpec, are not described

---
 packages/openapi-generator/src/apiSpec.ts | 55 ++++++++++++++++++++---
 packages/openapi-generator/src/cli.ts     | 31 +------------
 packages/openapi-generator/src/codec.ts   |  2 +-
 3 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index 5b38ae4..2059971 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -3,7 +3,8 @@ import * as E from 'fp-ts/Either';
 import { pipe } from 'fp-ts/lib/function';
 import type { Block } from 'comment-parser';
 
-import { parsePlainInitializer } from './codec';
+import { parsePlainInitializer, resolveReferences } from './codec';
+import { isPrimitive } from './ir';
 import type { Project } from './project';
 import { resolveLiteralOrIdentifier } from './resolveInit';
 import { parseRoute, type Route } from './route';
@@ -26,10 +27,18 @@ export function parseApiSpec(
   );
 }
 
-function actionName(key: swc.PropertyName): string | symbol {
+function actionName(
+  project: Project,
+  sourceFile: SourceFile,
+  key: swc.PropertyName,
+): string | symbol {
   if (key.type === 'Computed') {
-    return key.expression.type === 'StringLiteral'
-      ? key.expression.value
+    const nameE = pipe(
+      parsePlainInitializer(project, sourceFile, key.expression),
+      E.chain((schema) => resolveReferences(project, schema)),
+    );
+    return E.isRight(nameE) && isPrimitive(nameE.right) && nameE.right.enum !== undefined
+      ? String(nameE.right.enum[0])
       : Symbol('computed');
   }
   return String(key.value);
@@ -66,8 +75,10 @@ function parseActions(
         return spreadExprE;
       }
       let [spreadSourceFile, spreadExpr] = spreadExprE.right;
-      // TODO: This is just assuming that a `CallExpression` here is to `h.apiSpec`
       if (spreadExpr.type === 'CallExpression') {
+        if (!isApiSpec(spreadSourceFile, spreadExpr.callee)) {
+          return errorLeft('spread of a call to something else than apiSpec');
+        }
         const arg = spreadExpr.arguments[0];
         if (arg === undefined) {
           return errorLeft(`unimplemented spread argument type ${arg}`);
@@ -118,7 +129,7 @@ function parseActions(
       }
       actionRoutes.push(routeResultE.right);
     }
-    result.set(actionName(apiAction.key), actionRoutes);
+    result.set(actionName(project, sourceFile, apiAction.key), actionRoutes);
   }
 
   return E.right(result);
@@ -134,3 +145,35 @@ export function parseApiSpecComment(
   const url = comment.tags.find((tag) => tag.tag === 'url')?.name;
   return url !== undefined ? { url, description } : undefined;
 }
+
+/** Whether `init` is the `apiSpec` function of `@api-ts/io-ts-http` in `source` */
+export function isApiSpec(
+  source: SourceFile,
+  init: swc.Expression | swc.Super | swc.Import,
+): boolean {
+  if (init.type === 'Identifier') {
+    return (
+      source.symbols.imports.find(
+        (imp) =>
+          imp.type === 'named' &&
+          imp.from === '@api-ts/io-ts-http' &&
+          imp.importedName === 'apiSpec' &&
+          imp.localName === init.value,
+      ) !== undefined
+    );
+  } else if (init.type === 'MemberExpression') {
+    return (
+      source.symbols.imports.find(
+        (imp) =>
+          imp.type === 'star' &&
+          imp.from === '@api-ts/io-ts-http' &&
+          init.object.type === 'Identifier' &&
+          init.object.value === imp.localName &&
+          init.property.type === 'Identifier' &&
+          init.property.value === 'apiSpec',
+      ) !== undefined
+    );
+  } else {
+    return false;
+  }
+}
diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index bb731f6..5dd0b42 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -7,7 +7,7 @@ import * as p from 'node:path';
 import type { Expression } from '@swc/core';
 import type { OpenAPIV3 } from 'openapi-types';
 
-import { parseApiSpec, parseApiSpecComment } from './apiSpec';
+import { isApiSpec, parseApiSpec, parseApiSpecComment } from './apiSpec';
 import { getRefs } from './ref';
 import { convertRoutesToOpenAPI } from './openapi';
 import type { Route } from './route';
@@ -17,7 +17,6 @@ import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
 import { findReferencedInitializer } from './resolveInit';
 import { parseCodecInitializer, withoutTypes } from './codec';
-import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
 
 const app = command({
@@ -262,33 +261,5 @@ const app = command({
   },
 });
 
-function isApiSpec(entryPoint: SourceFile, init: Expression): boolean {
-  if (init.type === 'Identifier') {
-    return (
-      entryPoint.symbols.imports.find(
-        (imp) =>
-          imp.type === 'named' &&
-          imp.from === '@api-ts/io-ts-http' &&
-          imp.importedName === 'apiSpec' &&
-          imp.localName === init.value,
-      ) !== undefined
-    );
-  } else if (init.type === 'MemberExpression') {
-    return (
-      entryPoint.symbols.imports.find(
-        (imp) =>
-          imp.type === 'star' &&
-          imp.from === '@api-ts/io-ts-http' &&
-          init.object.type === 'Identifier' &&
-          init.object.value === imp.localName &&
-          init.property.type === 'Identifier' &&
-          init.property.value === 'apiSpec',
-      ) !== undefined
-    );
-  } else {
-    return false;
-  }
-}
-
 // parse arguments
 run(app, process.argv.slice(2));
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 3ed2563..3adef6c 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -32,7 +32,7 @@ function reference(
 }
 
 // Follows references until something that is not a reference is found
-function resolveReferences(
+export function resolveReferences(
   project: Project,
   schema: Schema,
 ): E.Either<string, Schema> {
-- 
2.43.0


From 982497cf1b0fd819e63d5ca76aa75d5cc4fbcd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 45/59] fix: bodies that are falsy JSON values are sent

---
 packages/superagent-wrapper/src/request.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index c875799..281f867 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -213,7 +213,8 @@ export const requestForRoute =
       }
     }
 
-    if (reqProps.body) {
+    // Falsy values such as `0`, `false` and the empty string are bodies as well
+    if (reqProps.body !== undefined) {
       request.set('content-type', 'application/json');
       request = request.send(stringify(reqProps.body));
     }
-- 
2.43.0


From 067b24a65f38d23a5fb9baa53ef8e51536c26a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 46/59] fix: a plain middleware that is an async function and
 rejects fails the request

---
 packages/express-wrapper/src/middleware.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 94c2a05..ea283d9 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -177,7 +177,9 @@ export async function runMiddlewareChain<
       };
 
       try {
-        middleware(req, res, next);
+        const returned: unknown = middleware(req, res, next);
+        // an async function reports its errors by rejecting
+        Promise.resolve(returned).catch(reject);
       } catch (err) {
         reject(err);
       }
@@ -219,7 +221,9 @@ export async function runMiddlewareChainIgnoringResults<
       };
 
       try {
-        middleware(req, res, next);
+        const returned: unknown = middleware(req, res, next);
+        // an async function reports its errors by rejecting
+        Promise.resolve(returned).catch(reject);
       } catch (err) {
         reject(err);
       }
-- 
2.43.0


From 99e0b7b4d40ac8aab6f40cd0439ff3d167f62f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 47/59] fix: the keys of a record that are named twice, or are
 a union of named ones, are described

---
 .../openapi-generator/src/knownImports.ts     | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 008b976..db84c84 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -28,6 +28,21 @@ function isOptional(deref: DerefFn, schema: Schema): boolean {
   }
 }
 
+// The keys of a record are the names of its properties, which have to be known here
+function derefKeys(deref: DerefFn, domain: Schema, within: string[] = []): Schema {
+  if (domain.type === 'union') {
+    const schemas = domain.schemas.map((s) => derefKeys(deref, s, within));
+    return { ...domain, schemas };
+  } else if (domain.type === 'ref') {
+    const name = `${domain.location}:${domain.name}`;
+    const derefedE = within.includes(name) ? errorLeft('circular') : deref(domain);
+    return E.isRight(derefedE)
+      ? derefKeys(deref, derefedE.right, [...within, name])
+      : domain;
+  }
+  return domain;
+}
+
 function requiredKeys(deref: DerefFn, properties: Record<string, Schema>): string[] {
   return Object.keys(properties).filter((key) => !isOptional(deref, properties[key]!));
 }
@@ -104,11 +119,11 @@ export const KNOWN_IMPORTS: KnownImports = {
         required: requiredKeys(deref, props),
       });
     },
-    record: (_, domain, codomain) => {
+    record: (deref, domain, codomain) => {
       if (!codomain) {
         return errorLeft('Codomain of record must be specified');
       } else {
-        return E.right({ type: 'record', domain, codomain });
+        return E.right({ type: 'record', domain: derefKeys(deref, domain), codomain });
       }
     },
     union: (_, schema) => {
-- 
2.43.0


From c0b0647a15b6ef8191499404a6ae5c1aefe37935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 48/59] fix: a record whose codomain is named optional does not
 require its keys

---
 packages/openapi-generator/src/knownImports.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index db84c84..af67918 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -123,7 +123,16 @@ export const KNOWN_IMPORTS: KnownImports = {
       if (!codomain) {
         return errorLeft('Codomain of record must be specified');
       } else {
-        return E.right({ type: 'record', domain: derefKeys(deref, domain), codomain });
+        // A codomain that accepts undefined says so itself, not only the codec it names
+        const isNamedOptional =
+          isOptional(deref, codomain) && !isOptional(() => errorLeft(''), codomain);
+        return E.right({
+          type: 'record',
+          domain: derefKeys(deref, domain),
+          codomain: isNamedOptional
+            ? { type: 'union', schemas: [codomain, { type: 'undefined' }] }
+            : codomain,
+        });
       }
     },
     union: (_, schema) => {
-- 
2.43.0


From 5c21dc2083c0e92746c9d7209b2e1718cb003ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 49/59] fix: the comment of a union within a union is kept

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 53a3227..c07755e 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -158,7 +158,7 @@ function mergeUnions(schema: Schema): Schema {
 
   schema.schemas.forEach((innerSchema) => {
     if (innerSchema.type === 'union') {
-      const merged = mergeUnions(innerSchema);
+      const merged = withComment(mergeUnions(innerSchema), innerSchema);
       resultingSchemas.add(deterministicStringify(merged));
     } else {
       resultingSchemas.add(deterministicStringify(innerSchema));
-- 
2.43.0


From 91361760520ec62b071e4078003dfb400ee0502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 50/59] fix: a path parameter directly before text keeps its
 name

---
 packages/typed-express-router/src/path.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/typed-express-router/src/path.ts b/packages/typed-express-router/src/path.ts
index 21752d1..8516d81 100644
--- a/packages/typed-express-router/src/path.ts
+++ b/packages/typed-express-router/src/path.ts
@@ -5,4 +5,7 @@
 const PATH_PARAM = /{(\w+)}/g;
 
 export const apiTsPathToExpress = (inputPath: string) =>
-  inputPath.replace(PATH_PARAM, ':$1');
+  inputPath.replace(PATH_PARAM, (param, name, offset: number) =>
+    // Text that could be a part of the name has to be kept apart from it
+    /\w/.test(inputPath.charAt(offset + param.length)) ? `:${name}([^/]+?)` : `:${name}`,
+  );
-- 
2.43.0


From aacfa3ee90d66ede8bfbb788b508aadba39fd3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 51/59] fix: enum members without an initializer are numbers

---
 packages/openapi-generator/src/symbol.ts | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 61dd37e..f7a1f48 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -164,6 +164,18 @@ function parseDeclaration(
     });
   } else if (subDeclaration.type === 'TsEnumDeclaration') {
     const comment = declarationComment(src, srcSpanStart, prev, decl.span.start);
+    // Members without an initializer count up from the number before them
+    let next: number | undefined = 0;
+    const memberInit = (member: swc.TsEnumMember): swc.Expression => {
+      const { span } = member.id;
+      const init =
+        member.init ??
+        (next !== undefined
+          ? ({ type: 'NumericLiteral', value: next, span } as swc.NumericLiteral)
+          : ({ type: 'Identifier', value: 'undefined', span } as swc.Identifier));
+      next = init.type === 'NumericLiteral' ? init.value + 1 : undefined;
+      return init;
+    };
     // Construct a synthetic object declaration
     const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
       return {
@@ -174,11 +186,7 @@ function parseDeclaration(
           span: member.id.span,
           optional: false,
         },
-        value: member.init ?? {
-          type: 'StringLiteral',
-          value: member.id.value,
-          span: member.id.span,
-        },
+        value: memberInit(member),
       };
     });
     const syntheticObject: swc.ObjectExpression = {
-- 
2.43.0


From 52e1694d9559aa60a49702192aca72d610b10370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 52/59] fix: members of the keys of a codec have their own
 values

---
 packages/openapi-generator/src/codec.ts | 54 +++++++++++++++++--------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 3adef6c..0be5bcc 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -6,7 +6,11 @@ import { leadingComment } from './comments';
 import type { Object, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findReferencedInitializer, findSymbolInitializer } from './resolveInit';
+import {
+  findReferencedInitializer,
+  findSymbolInitializer,
+  resolveLiteralOrIdentifier,
+} from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -46,6 +50,30 @@ export function resolveReferences(
   );
 }
 
+// The `keys` of `t.keyof(object)` are `object` itself
+function keyofMember(
+  project: Project,
+  source: SourceFile,
+  id: swc.Identifier,
+  name: string,
+): E.Either<string, Schema> {
+  const initE = resolveLiteralOrIdentifier(project, source, id);
+  const init = E.isRight(initE) ? withoutTypes(initE.right[1]) : undefined;
+  const argument = init?.type === 'CallExpression' ? init.arguments[0] : undefined;
+  if (E.isLeft(initE) || argument === undefined) {
+    return E.isLeft(initE) ? initE : errorLeft(`'${id.value}' has no keys`);
+  }
+  return pipe(
+    parsePlainInitializer(project, initE.right[0], argument.expression),
+    E.chain((schema) => resolveReferences(project, schema)),
+    E.chain((schema) =>
+      schema.type === 'object' && schema.properties[name] !== undefined
+        ? E.right(schema.properties[name]!)
+        : errorLeft(`Unknown property '${name}' in the keys of '${id.value}'`),
+    ),
+  );
+}
+
 function codecIdentifier(
   project: Project,
   source: SourceFile,
@@ -89,22 +117,16 @@ function codecIdentifier(
           object.property.type === 'Identifier' &&
           object.property.value === 'keys'
         ) {
-          // Handle `Type.keys.propertyName` format
-          if (id.property.type === 'Identifier') {
-            return E.right({
-              type: 'string',
-              enum: [id.property.value],
-            });
-          }
-          // Handle `Type.keys["Property Name"]` format (computed property)
-          else if (
-            id.property.type === 'Computed' &&
-            id.property.expression.type === 'StringLiteral'
+          // Handle the `Type.keys.propertyName` and `Type.keys["Property Name"]` formats
+          const { property } = id;
+          if (property.type === 'Identifier') {
+            return keyofMember(project, source, object.object, property.value);
+          } else if (
+            property.type === 'Computed' &&
+            property.expression.type === 'StringLiteral'
           ) {
-            return E.right({
-              type: 'string',
-              enum: [id.property.expression.value],
-            });
+            const name = property.expression.value;
+            return keyofMember(project, source, object.object, name);
           }
         }
 
-- 
2.43.0


From ff7765aafdeb0c17c3e47274a944005f5efe0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 53/59] fix: keep packages of one name apart

---
 packages/openapi-generator/src/codec.ts   |  7 ++++---
 packages/openapi-generator/src/project.ts | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 0be5bcc..ab22e6c 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -96,7 +96,7 @@ function codecIdentifier(
       return E.right({ type: 'codec', schema: knownImport });
     }
 
-    if (!imp.from.startsWith('.')) {
+    if (!imp.from.startsWith('.') && !project.isShadowed(source.path, imp.from)) {
       return E.right({ type: 'ref', name: imp.importedName, location: imp.from });
     }
 
@@ -153,8 +153,9 @@ function codecIdentifier(
         return E.right({ type: 'codec', schema: knownImport });
       }
 
-      if (!starImportSym.from.startsWith('.')) {
-        return E.right({ type: 'ref', name, location: starImportSym.from });
+      const { from } = starImportSym;
+      if (!from.startsWith('.') && !project.isShadowed(source.path, from)) {
+        return E.right({ type: 'ref', name, location: from });
       }
 
       const newInitE = findSymbolInitializer(project, source, [
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index bea3c76..a5648dc 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -73,6 +73,21 @@ export class Project {
     );
   }
 
+  /** Whether a package is another one for this file, such as another version of it */
+  isShadowed(path: string, library: string): boolean {
+    const known = this.packageEntryPoints.get(library);
+    if (known === undefined) {
+      return false;
+    }
+    const entryPoint = this.resolveEntryPoint(p.dirname(path), library);
+    // One file may be reached by several symbolic links
+    const real = (file: string) => (fs.existsSync(file) ? fs.realpathSync(file) : file);
+    return (
+      E.isLeft(entryPoint) ||
+      (entryPoint.right !== known && real(entryPoint.right) !== real(known))
+    );
+  }
+
   has(path: string): boolean {
     return this.processedFiles.hasOwnProperty(path);
   }
-- 
2.43.0


From 8658b79baf3525eb389ff8b49942b1fccfe78bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 54/59] fix: do not look for the codecs of unresolved packages
 in other files

---
 packages/openapi-generator/src/project.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index a5648dc..08e64fb 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -68,9 +68,7 @@ export class Project {
       return ref.location;
     }
     // The location is a package
-    return (
-      this.packageEntryPoints.get(ref.location) ?? this.types[ref.name] ?? ref.location
-    );
+    return this.packageEntryPoints.get(ref.location) ?? ref.location;
   }
 
   /** Whether a package is another one for this file, such as another version of it */
-- 
2.43.0


From 6ed0bc2684d72c866b5a1b49a8b4c66d02271b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 55/59] fix: tags of a use take precedence over those of the
 codec

---
 packages/openapi-generator/src/comments.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index 9bbebcc..0e588f7 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -106,7 +106,8 @@ export function combineComments(schema: Schema): Block | undefined {
     }
 
     result.problems.push(...comment.problems);
-    result.source.push(...comment.source);
+    // Of the tags written here the last one counts
+    result.source.unshift(...comment.source);
   }
 
   return result;
-- 
2.43.0


From b325dc1c99769bfed365511bd291d5f84db66a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:19 +0000
Subject: [PATCH 56/59] fix: Object.assign does not leave out sources behind
 several names

---
 .../openapi-generator/src/knownImports.ts     | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index af67918..b3d4b08 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -28,6 +28,25 @@ function isOptional(deref: DerefFn, schema: Schema): boolean {
   }
 }
 
+// Follows a name until something that is not a name is found
+function derefAll(
+  deref: DerefFn,
+  schema: Schema,
+  within: string[] = [],
+): E.Either<string, Schema> {
+  if (schema.type !== 'ref') {
+    return E.right(schema);
+  }
+  const name = `${schema.location}:${schema.name}`;
+  if (within.includes(name)) {
+    return errorLeft(`'${schema.name}' from '${schema.location}' refers to itself`);
+  }
+  const derefedE = deref(schema);
+  return E.isLeft(derefedE)
+    ? derefedE
+    : derefAll(deref, derefedE.right, [...within, name]);
+}
+
 // The keys of a record are the names of its properties, which have to be known here
 function derefKeys(deref: DerefFn, domain: Schema, within: string[] = []): Schema {
   if (domain.type === 'union') {
@@ -51,16 +70,26 @@ function requiredKeys(deref: DerefFn, properties: Record<string, Schema>): strin
 
 export const KNOWN_IMPORTS: KnownImports = {
   global: {
-    'Object.assign': (_, ...schemas) => {
+    'Object.assign': (deref, ...schemas) => {
       if (schemas.length < 2) {
         return errorLeft('assign must have at least 2 arguments');
       }
-      const [target, ...sources] = schemas;
+      const [target, ...args] = schemas;
       if (target === undefined) {
         return errorLeft('assign target must be object');
       } else if (target.type !== 'object') {
         return errorLeft('assign target must be object');
       }
+      const sources: Schema[] = [];
+      for (const arg of args) {
+        const sourceE = derefAll(deref, arg);
+        if (E.isLeft(sourceE)) {
+          return sourceE;
+        } else if (!['object', 'undefined', 'null'].includes(sourceE.right.type)) {
+          return errorLeft('assign source must be object');
+        }
+        sources.push(sourceE.right);
+      }
       const properties = sources.reduce((acc, source) => {
         if (source.type !== 'object') {
           return acc;
-- 
2.43.0


From 9b2f176fdcbed5650c201e78b5510fe7aa17487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:54 +0000
Subject: [PATCH 57/59] fix: explicit exports take precedence over star exports

---
 packages/openapi-generator/src/symbol.ts | 68 +++++++++++++++++++-----
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index f7a1f48..49e9f5e 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -107,12 +107,61 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
           localName: specifier.exported.value,
         });
         break;
+      case 'ExportNamespaceSpecifier':
+        // Not followed, but it takes precedence over the star exports of this file
+        result.exports.push({
+          type: 'named',
+          exportedName: specifier.name.value,
+          localName: `${decl.source?.value}#*`,
+        });
+        break;
     }
   });
 
   return result;
 }
 
+// The names that a declaration declares
+function declaredNames(decl: swc.Declaration): string[] {
+  const patternNames = (pattern: swc.Pattern): string[] => {
+    switch (pattern.type) {
+      case 'Identifier':
+        return [pattern.value];
+      case 'ObjectPattern':
+        return pattern.properties.flatMap((property) =>
+          property.type === 'AssignmentPatternProperty'
+            ? [property.key.value]
+            : property.type === 'KeyValuePatternProperty'
+              ? patternNames(property.value)
+              : patternNames(property.argument),
+        );
+      case 'ArrayPattern':
+        return pattern.elements.flatMap((element) =>
+          element ? patternNames(element) : [],
+        );
+      case 'AssignmentPattern':
+        return patternNames(pattern.left);
+      case 'RestElement':
+        return patternNames(pattern.argument);
+      default:
+        return [];
+    }
+  };
+
+  switch (decl.type) {
+    case 'VariableDeclaration':
+      return decl.declarations.flatMap((d) => patternNames(d.id));
+    case 'FunctionDeclaration':
+    case 'ClassDeclaration':
+      return [decl.identifier.value];
+    case 'TsEnumDeclaration':
+    case 'TsModuleDeclaration':
+      return [decl.id.value];
+    default:
+      return [];
+  }
+}
+
 // The documentation of a declaration is the last one before it
 function declarationComment(
   src: string,
@@ -153,13 +202,6 @@ function parseDeclaration(
           init: d.init,
           comment,
         });
-        if (decl.type === 'ExportDeclaration') {
-          result.exports.push({
-            type: 'named',
-            exportedName: name,
-            localName: name,
-          });
-        }
       }
     });
   } else if (subDeclaration.type === 'TsEnumDeclaration') {
@@ -199,12 +241,12 @@ function parseDeclaration(
       init: syntheticObject,
       comment,
     });
-    if (decl.type === 'ExportDeclaration') {
-      result.exports.push({
-        type: 'named',
-        exportedName: subDeclaration.id.value,
-        localName: subDeclaration.id.value,
-      });
+  }
+  if (decl.type === 'ExportDeclaration') {
+    // Names that are not followed are exports as well: they take precedence over the
+    // star exports of this file
+    for (const name of declaredNames(subDeclaration)) {
+      result.exports.push({ type: 'named', exportedName: name, localName: name });
     }
   }
   return result;
-- 
2.43.0


From a31fc4ba671da6c21ad336425b5258449c6db681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 58/59] fix: the comment of a statement belongs to its first
 declarator

---
 packages/openapi-generator/src/symbol.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 49e9f5e..dc03e85 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -190,17 +190,20 @@ function parseDeclaration(
 
   if (subDeclaration.type === 'VariableDeclaration') {
     const comment = declarationComment(src, srcSpanStart, prev, decl.span.start);
-    subDeclaration.declarations.forEach((d) => {
+    subDeclaration.declarations.forEach((d, idx, ds) => {
       if (
         d.type === 'VariableDeclarator' &&
         d.id.type === 'Identifier' &&
         d.init !== undefined
       ) {
         const name = d.id.value;
+        // The comment of the statement is that of its first declarator
+        const before = ds[idx - 1]?.span.end ?? decl.span.start;
+        const ownComment = leadingComment(src, srcSpanStart, before, d.span.start).pop();
         result.declarations.push({
           name,
           init: d.init,
-          comment,
+          comment: ownComment ?? (idx === 0 ? comment : undefined),
         });
       }
     });
-- 
2.43.0


From 2b2ada3329b93256eaddb098dd76a6ea0e7a8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:51 +0000
Subject: [PATCH 59/59] fix: an exported import takes precedence over star
 exports

---
 packages/openapi-generator/src/symbol.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index dc03e85..1aeedcf 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -288,6 +288,9 @@ export function parseTopLevelSymbols(
     } else if (item.type === 'ExportNamedDeclaration') {
       const newSyms = parseExportNamedDeclaration(item);
       addTable(newSyms);
+    } else if (item.type === 'TsImportEqualsDeclaration' && item.isExport) {
+      const name = item.id.value;
+      symbols.exports.push({ type: 'named', exportedName: name, localName: name });
     } else if (item.type === 'ExportAllDeclaration') {
       symbols.exportStarFiles.push(item.source.value);
     } else if (item.type === 'ExportDefaultExpression') {
-- 
2.43.0

