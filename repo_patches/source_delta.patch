From 3534a50de3e7b3b9dd11663ad5532ce3cf653ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:15 +0000
Subject: [PATCH 01/69] fix: use an entity tag, not the decoded body, for
 base64 encoded proxy responses

---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 85fac99..ce03c55 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -1,6 +1,6 @@
 import type { APIGatewayProxyEvent, APIGatewayProxyResult } from "aws-lambda";
 import etag from "etag";
-import { compressBuffer, decodeBase64ToUtf8 } from "../../utils/base64.js";
+import { compressBuffer } from "../../utils/base64.js";
 import { truncateMiddle } from "../../utils/logging.js";
 import { StopWatch } from "../../utils/stop-watch.js";
 import { logger } from "../runtime/dt-logger-default.js";
@@ -54,7 +54,7 @@ export class LambdaProxyResponseBuilder {
     this.isBase64Encoded = isBase64Encoded;
     // create strong etag by default from original body
     this.etag = this.isBase64Encoded
-      ? decodeBase64ToUtf8(this.body)
+      ? etag(Buffer.from(this.body, "base64"))
       : etag(this.body);
     return this;
   }
-- 
2.43.0


From 30bcd986099254f40013962a7d3ae1f8d9a2969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:41 +0000
Subject: [PATCH 02/69] fix: refuse a base64 encoded body when compression was
 requested before it

---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index ce03c55..0b8abc5 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -49,6 +49,11 @@ export class LambdaProxyResponseBuilder {
         "Body must be a base64 encoded string when isBase64Encoded is true",
       );
     }
+    if (isBase64Encoded && this.compressBody) {
+      throw new Error(
+        "Body is already base64 encoded, it can't be compressed. Use with non encoded body with compression.",
+      );
+    }
     // Either body as is or stringify object
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
-- 
2.43.0


From dac3412502f96cc26c058e72cfdeec776deac894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 03/69] fix: log bigint fields instead of throwing

---
 lib/digitraffic-common/src/aws/runtime/dt-logger.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 46304f6..0ed01eb 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -198,7 +198,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${JSON.stringify(logMessage, bigintToString)}\n`);
   }
 
   private appendMessageFieldsToMessage(message: LoggableType): string {
@@ -229,8 +229,17 @@ function removePrefix(prefix: string, loggable: LoggableType): LoggableType {
   ) as unknown as LoggableType;
 }
 
+/**
+ * JSON has no bigints, so they are written as strings.
+ */
+function bigintToString(_key: string, value: unknown): unknown {
+  return typeof value === "bigint" ? value.toString() : value;
+}
+
 function valueToString(value: unknown): string {
-  if (value === undefined) {
+  if (typeof value === "bigint") {
+    return value.toString();
+  } else if (value === undefined) {
     return "undefined";
   } else if (value === null) {
     return "null";
-- 
2.43.0


From b65b11fbb13ffad8dab7e782b52025d15f3a9108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 04/69] fix: measure distances from positions on the equator
 and the prime meridian

A coordinate of 0 is a valid longitude or latitude; it was refused as if missing.
---
 lib/digitraffic-common/src/utils/geometry.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index f82ec3a..b089045 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -142,10 +142,10 @@ export function distanceBetweenPositionsInKm(
   if (
     pos1.length > 3 ||
     pos2.length > 3 ||
-    !pos10 ||
-    !pos11 ||
-    !pos20 ||
-    !pos21
+    pos10 === undefined ||
+    pos11 === undefined ||
+    pos20 === undefined ||
+    pos21 === undefined
   ) {
     throw Error(
       `Illegal Positions ${pos1.toString()} and ${pos2.toString()}. Both must have length between 2 or 3.`,
-- 
2.43.0


From e9bf182550f3f721634f392ad3a2fe12aa53e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:42 +0000
Subject: [PATCH 05/69] fix: keep polygon rings apart in well-known text

The rings of a polygon were joined into one ring, and the polygons of a
multi-polygon into the rings of one polygon.
---
 lib/digitraffic-common/src/utils/geometry.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index b089045..c548078 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -49,13 +49,11 @@ function linestring(coordinates: Position[]): string {
 }
 
 function polygon(coordinates: Position[][]): string {
-  const list = coordinates.map((c: Position[]) => linestring(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[]) => `(${linestring(c)})`).join(",");
 }
 
 function multiPolygon(coordinates: Position[][][]): string {
-  const list = coordinates.map((c: Position[][]) => polygon(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[][]) => `(${polygon(c)})`).join(",");
 }
 
 function coordinatePair(coordinate: Position): string {
-- 
2.43.0


From 403f8c3c2096184b03659ded927f1e3064ca2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 06/69] fix: a failing checker fails the positive URL canary
 check

---
 .../src/aws/infra/canaries/url-checker.ts                | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f5c060d..fa30030 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -96,7 +96,14 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
-      await Promise.allSettled(callbacks.map((c) => c(json, body, res)));
+      const results = await Promise.allSettled(
+        callbacks.map((c) => c(json, body, res)),
+      );
+      const failed = results.find((result) => result.status === "rejected");
+
+      if (failed) {
+        throw failed.reason;
+      }
     };
 
     return this.expectStatus(200, url, callback);
-- 
2.43.0


From f3373367ff6137d471aaf8756803d3e49d09827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 07/69] fix: URL canaries decompress the bytes of a gzipped
 body

---
 .../src/aws/infra/canaries/url-checker.ts                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index fa30030..a364154 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -188,8 +188,8 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
   return body.toString();
 }
 
-function getBodyFromResponse(response: IncomingMessage): Promise<string> {
-  return new Promise((resolve: (value: string) => void) => {
+function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
+  return new Promise((resolve: (value: Buffer) => void) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -197,7 +197,7 @@ function getBodyFromResponse(response: IncomingMessage): Promise<string> {
     });
 
     response.on("end", () => {
-      resolve(Buffer.concat(buffers).toString());
+      resolve(Buffer.concat(buffers));
     });
   });
 }
-- 
2.43.0


From 1110076e6c1cf4a596fe38e7357ff6f12dddb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 08/69] fix: a database canary expecting zero rows fails when
 there are rows

---
 .../src/aws/infra/canaries/database-checker.ts       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index dd70df0..828fc8b 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -52,13 +52,21 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
 
   check(value: Countable): void {
     if ("count" in value) {
-      if (this.minCount && value.count < this.minCount) {
+      if (
+        this.minCount !== null &&
+        this.minCount !== undefined &&
+        value.count < this.minCount
+      ) {
         this.failed = true;
         throw new Error(
           `count was ${value.count}, minimum is ${this.minCount}`,
         );
       }
-      if (this.maxCount && value.count > this.maxCount) {
+      if (
+        this.maxCount !== null &&
+        this.maxCount !== undefined &&
+        value.count > this.maxCount
+      ) {
         this.failed = true;
         throw new Error(`count was ${value.count}, max is ${this.maxCount}`);
       }
-- 
2.43.0


From 69d92ada271ce04b749170336658f421054ca0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 09/69] fix: wait for the database canary steps before deciding

---
 lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts   | 2 +-
 .../src/aws/infra/canaries/database-checker.ts                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
index 67046ad..d1aa098 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
@@ -22,5 +22,5 @@ declare module "Synthetics" {
     s: string,
     f: () => void,
     c: Record<string, boolean>,
-  ): void;
+  ): Promise<void>;
 }
diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index 828fc8b..4a20f30 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -154,7 +154,7 @@ export class DatabaseCountChecker {
           check.check(value);
         };
 
-        synthetics.executeStep(check.name, checkFunction, stepConfig);
+        await synthetics.executeStep(check.name, checkFunction, stepConfig);
       }
     });
 
-- 
2.43.0


From be72b7318e71419dfb397b7b7dfe4e1d06eddbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 10/69] fix: the positive URL canary check verifies the status

---
 .../src/aws/infra/canaries/url-checker.ts                | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index a364154..9e8c617 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -96,6 +96,15 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
+      // synthetics gives the response as the first argument
+      const response = json as IncomingMessage;
+
+      if (response.statusCode !== 200) {
+        throw new Error(
+          `${response.statusCode ?? undefined} ${response.statusMessage ?? undefined}`,
+        );
+      }
+
       const results = await Promise.allSettled(
         callbacks.map((c) => c(json, body, res)),
       );
-- 
2.43.0


From e6209e24b1885ae73ad924ea3bce6de618ecceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 11/69] fix: the passenger information canary compares creation
 times as dates

---
 rail/rami/src/canaries/public-api.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rail/rami/src/canaries/public-api.ts b/rail/rami/src/canaries/public-api.ts
index 67aa793..f11e2d0 100644
--- a/rail/rami/src/canaries/public-api.ts
+++ b/rail/rami/src/canaries/public-api.ts
@@ -30,7 +30,8 @@ export const handler = async (): Promise<string> => {
       Asserter.assertLengthGreaterThan(json, 0);
       Asserter.assertLengthGreaterThan(
         json.filter(
-          (message) => message.creationDateTime >= subHours(Date.now(), 24),
+          (message) =>
+            new Date(message.creationDateTime) >= subHours(Date.now(), 24),
         ),
         0,
       );
-- 
2.43.0


From 42908084e7d00c3a19e83ef65bddeded5f18b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 12/69] fix: throttle callers with an empty Digitraffic-User
 header as anonymous

---
 lib/digitraffic-common/src/aws/infra/acl-builder.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/acl-builder.ts b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
index 6852410..b6fff01 100644
--- a/lib/digitraffic-common/src/aws/infra/acl-builder.ts
+++ b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
@@ -452,10 +452,10 @@ function createThrottleStatement(
   isBasedOnIpAndUriPath: boolean,
   path?: RegExp,
 ): CfnWebACL.StatementProperty {
-  // this statement matches empty digitraffic-user -header
+  // this statement matches non-empty digitraffic-user -header
   const matchStatement: CfnWebACL.StatementProperty = {
     sizeConstraintStatement: {
-      comparisonOperator: isHeaderRequired ? "GT" : "GE",
+      comparisonOperator: "GT",
       fieldToMatch: {
         singleHeader: {
           Name: "digitraffic-user",
@@ -466,8 +466,8 @@ function createThrottleStatement(
     } as CfnWebACL.SizeConstraintStatementProperty,
   };
 
-  // header present       -> size > 0
-  // header not present   -> NOT(size >= 0)
+  // header present               -> size > 0
+  // header not present or empty  -> NOT(size > 0)
 
   let scopeDownStatement = isHeaderRequired
     ? matchStatement
-- 
2.43.0


From 0b41d03f279f69f8ad41cf2312c9b19e6c80a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 13/69] fix: pass the body also when there are no other
 parameters

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 2f07cb5..d2aa3bd 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -146,7 +146,9 @@ export class DigitrafficIntegration<T extends string> {
       integrationResponses,
       requestParameters: undefined,
       requestTemplates:
-        this.parameters.length === 0 && !this._passAllQueryParameters
+        this.parameters.length === 0 &&
+        !this._passAllQueryParameters &&
+        !this._passBody
           ? undefined
           : this.createRequestTemplates(),
       passthroughBehavior: PassthroughBehavior.WHEN_NO_MATCH,
-- 
2.43.0


From ae54bd550ee73e76b09817b8d2a6edfed4b99775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 14/69] fix: apostrophes in request parameters broke the JSON
 of the request template

---
 .../src/aws/infra/api/integration.ts            | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index d2aa3bd..9ee712b 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -25,6 +25,13 @@ const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
     #end
 #end`;
 
+/**
+ * Escapes the value for JSON.  escapeJavaScript escapes single quotes too, but JSON does not allow that.
+ */
+function escapeForJson(reference: string): string {
+  return `$util.escapeJavaScript(${reference}).replaceAll("\\\\'", "'")`;
+}
+
 const VELOCITY_PASS_BODY = `#set($tmp = $paramMap.put('payload', $util.base64Encode($input.body)))`;
 
 export class DigitrafficIntegration<T extends string> {
@@ -179,7 +186,7 @@ export class DigitrafficIntegration<T extends string> {
     this.parameters.forEach((parameter: ApiParameter) => {
       if (parameter.type === "context") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($context.${parameter.name})))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$context.${parameter.name}`)}))`,
         );
       } else if (parameter.type === "multivaluequerystring") {
         // make multivaluequerystring values to array
@@ -188,15 +195,15 @@ export class DigitrafficIntegration<T extends string> {
         );
       } else if (parameter.type === "path") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().path['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().path['${parameter.name}']`)}))`,
         );
       } else if (parameter.type === "header") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().header['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().header['${parameter.name}']`)}))`,
         );
       } else {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($params['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$params['${parameter.name}']`)}))`,
         );
       }
     });
@@ -215,7 +222,7 @@ ${this._passBody ? VELOCITY_PASS_BODY : ""}
 #if( $paramName.substring(0, 1) != '_')
     "$paramName":"$paramMap.get($paramName)" #if($foreach.hasNext),\n#end
 #else
-    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"$util.escapeJavaScript($val)"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
+    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"${escapeForJson("$val")}"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
 #end
 #end
 }`,
-- 
2.43.0


From da08d7c67614a8b9ce529dc60e41c9d9a1795961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 15/69] fix: passed query parameters were not escaped and could
 replace configured parameters

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 9ee712b..0dfa8ba 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -19,9 +19,10 @@ interface ApiParameter {
   name: string;
 }
 
+// configured parameters take precedence, names starting with _ are reserved for multivalue parameters
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
-    #if( ! $paramMap.containsKey("_$paramName"))
-        #set($tmp = $paramMap.put($paramName, $params[$paramName]))
+    #if( ! $paramName.startsWith("_") && ! $paramMap.containsKey($paramName) && ! $paramMap.containsKey("_$paramName"))
+        #set($tmp = $paramMap.put(${escapeForJson("$paramName")}, ${escapeForJson("$params[$paramName]")}))
     #end
 #end`;
 
-- 
2.43.0


From 7a73fdb380dc5a7254178ac7c0cab911edd0c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:26 +0000
Subject: [PATCH 16/69] fix: custom missing authentication answers were not
 valid JSON

---
 lib/digitraffic-common/src/aws/infra/stack/rest-api.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts b/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
index f3c3cf4..aaa832f 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
@@ -319,7 +319,7 @@ export function setReturnCodeForMissingAuthenticationToken(
       type: ResponseType.MISSING_AUTHENTICATION_TOKEN,
       statusCode: `${returnCode}`,
       templates: {
-        [MediaType.APPLICATION_JSON]: `{"message": ${message}}`,
+        [MediaType.APPLICATION_JSON]: JSON.stringify({ message }),
       },
     },
   );
-- 
2.43.0


From 4082cb2c74363afa7a419604e1fd69a71ba6653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 17/69] fix: any exception excepted all resources from the
 stack checks

---
 .../src/aws/infra/stack/stack-checking-aspect.ts                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 01269d5..4032936 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -54,7 +54,7 @@ export class StackCheckingAspect implements IAspect {
 
   private isWhitelisted(key: string): boolean | undefined {
     return this.whitelistedResources?.some((wl) => {
-      return key.matchAll(new RegExp(wl, "g"));
+      return new RegExp(wl).test(key);
     });
   }
 
-- 
2.43.0


From f8393245a9f7691c81b2e89ac361efe39d6ec29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:26 +0000
Subject: [PATCH 18/69] fix: dead letter queue messages were lost when writing
 them failed

---
 lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
index b216e4f..6fabbe3 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
@@ -93,11 +93,13 @@ async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    // fail the batch, otherwise the message would be deleted from the queue
+    throw error;
   }
 }
 
-- 
2.43.0


From 314424fb4df56493b4085db74d3eab5895aea2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 19/69] fix: one unreadable message failed a whole batch of
 port call timestamps

---
 .../src/lambda/process-queue/process-queue.ts         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marine/portactivity/src/lambda/process-queue/process-queue.ts b/marine/portactivity/src/lambda/process-queue/process-queue.ts
index 309c4d1..8b89ae1 100644
--- a/marine/portactivity/src/lambda/process-queue/process-queue.ts
+++ b/marine/portactivity/src/lambda/process-queue/process-queue.ts
@@ -26,14 +26,15 @@ export function handlerFn(): (
           [];
 
         for (const r of event.Records) {
-          const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
           const start = Date.now();
-          logger.debug({
-            method: "ProcessQueue.handler",
-            message: `processing timestamp ${JSON.stringify(partial)}`,
-          });
 
           try {
+            const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
+            logger.debug({
+              method: "ProcessQueue.handler",
+              message: `processing timestamp ${JSON.stringify(partial)}`,
+            });
+
             const timestamp = await validateTimestamp(partial, db);
 
             if (!timestamp) {
-- 
2.43.0


From 9088000ec9ba50eb78dbf6ab40a7361143b5e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 20/69] fix: a confidence interval starting or ending at the
 event time was dropped

---
 marine/portactivity/src/dao/timestamps.ts               | 4 ++--
 marine/portactivity/src/service/timestamp-validation.ts | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marine/portactivity/src/dao/timestamps.ts b/marine/portactivity/src/dao/timestamps.ts
index d302609..cef7731 100644
--- a/marine/portactivity/src/dao/timestamps.ts
+++ b/marine/portactivity/src/dao/timestamps.ts
@@ -606,11 +606,11 @@ export function createUpdateValues(e: ApiTimestamp): unknown[] {
     e.eventType, // event_type
     parseISO(e.eventTime), // event_time
     undefined, // event_time_confidence_lower
-    e.eventTimeConfidenceLowerDiff
+    typeof e.eventTimeConfidenceLowerDiff === "number"
       ? Math.floor(e.eventTimeConfidenceLowerDiff)
       : undefined, // event_time_confidence_lower_diff
     undefined, // event_time_confidence_upper
-    e.eventTimeConfidenceUpperDiff
+    typeof e.eventTimeConfidenceUpperDiff === "number"
       ? Math.ceil(e.eventTimeConfidenceUpperDiff)
       : undefined, // event_time_confidence_upper_diff
     e.source, // event_source
diff --git a/marine/portactivity/src/service/timestamp-validation.ts b/marine/portactivity/src/service/timestamp-validation.ts
index a10a95e..189113b 100644
--- a/marine/portactivity/src/service/timestamp-validation.ts
+++ b/marine/portactivity/src/service/timestamp-validation.ts
@@ -172,8 +172,8 @@ export async function validateTimestamp(
 
 function validateConfidenceInterval(timestamp: Partial<ApiTimestamp>): boolean {
   if (
-    !timestamp.eventTimeConfidenceLowerDiff ||
-    !timestamp.eventTimeConfidenceUpperDiff
+    timestamp.eventTimeConfidenceLowerDiff === undefined ||
+    timestamp.eventTimeConfidenceUpperDiff === undefined
   )
     return false;
   if (
-- 
2.43.0


From 7e945761e8a8374d7c1fff9f6b7ea708a7ea897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 21/69] fix: ship list covered 4 hours by default, not the
 documented 4*24

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 09ce833..d3c8602 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -81,7 +81,7 @@ export const handler = (
         event.queryStringParameters,
         secret,
       );
-      const interval = Number.parseInt(parameters.interval ?? "4*24", 10);
+      const interval = Number.parseInt(parameters.interval ?? "96", 10);
 
       return inDatabaseReadonly(
         async (db: DTDatabase): Promise<APIGatewayProxyResult> => {
-- 
2.43.0


From d00d30e7df1725ef568be285319fff9644760f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 22/69] fix: a ship's name could end the script of the ship
 list page

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index d3c8602..a2f1c1f 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -232,7 +232,7 @@ function getPageSource(shiplist: PublicApiTimestamp[]): string {
 
 </body>
 <script>
-    var shiplist = ${JSON.stringify(shiplist)};
+    var shiplist = ${JSON.stringify(shiplist).replaceAll("<", "\\u003c")};
 
     var currentDate = new Date();
 
-- 
2.43.0


From 6430209259df7aaa52b4656b37ef20700f704633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 23/69] fix: ship list showed unmerged times for merged
 estimates

---
 marine/portactivity/src/service/shiplist.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marine/portactivity/src/service/shiplist.ts b/marine/portactivity/src/service/shiplist.ts
index f0d117b..5f7b1ac 100644
--- a/marine/portactivity/src/service/shiplist.ts
+++ b/marine/portactivity/src/service/shiplist.ts
@@ -43,6 +43,8 @@ export async function getShiplist(
     (ts) =>
       ({
         ...ts,
+        // merging changes only eventTime
+        event_time: new Date(ts.eventTime),
         source: getDisplayableNameForEventSource(ts.source),
       }) as ShiplistTimestamp,
   );
-- 
2.43.0


From 458678ca25277fb308a158e489ed73879e756333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:45 +0000
Subject: [PATCH 24/69] fix: municipal tracking: a change of tasks of the same
 number splits the tracking

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 06f2d74..3226fcb 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -181,7 +181,7 @@ function isSameTasks(
   if (ioChannels1.length !== ioChannels2.length) {
     return false;
   }
-  const ioChannel1Strings = ioChannelsToStrings(ioChannels2);
+  const ioChannel1Strings = ioChannelsToStrings(ioChannels1);
   const ioChannel2Strings = ioChannelsToStrings(ioChannels2);
   return CommonUtils.bothArraysHasSameValues(
     ioChannel1Strings,
-- 
2.43.0


From 2b6c1810d74a5e8a4cf758f0733780a32850bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:45 +0000
Subject: [PATCH 25/69] fix: municipal tracking: start direction is the heading
 of the first event

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 3226fcb..bf52d5d 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -498,6 +498,6 @@ export function createDbMaintenanceTracking(
     message_original_id: "none",
     finished: true,
     // This is additional metadata, not saved to db but used to update previous tracking
-    start_direction: lastEvent.heading,
+    start_direction: firstEvent.heading,
   };
 }
-- 
2.43.0


From b0d8c14684963d68d13c6f2b461266fcc804ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:21 +0000
Subject: [PATCH 26/69] fix: keep the time a counting site was first found to
 be removed

---
 road/counting-site/src/service/update-service.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 169704c..47a0e24 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -197,7 +197,9 @@ function compareSites(
   const dbSiteIdSet = new Set(sitesInDb.map((s) => s.id));
 
   const newSites = sitesInApi.filter((s) => !dbSiteIdSet.has(s.id));
-  const removedSites = sitesInDb.filter((s) => !apiSiteIdSet.has(s.id));
+  const removedSites = sitesInDb.filter(
+    (s) => !apiSiteIdSet.has(s.id) && !s.removed_timestamp,
+  );
   const updatedSites = sitesInApi.filter((s) => dbSiteIdSet.has(s.id));
 
   return [newSites, removedSites, updatedSites];
-- 
2.43.0


From bd4b8fcece9d8bea765729d97c331d3e1926254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:11 +0000
Subject: [PATCH 27/69] fix: publish variable sign texts word for word also
 when they contain dollar signs

---
 road/variable-signs/src/service/variable-signs.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/road/variable-signs/src/service/variable-signs.ts b/road/variable-signs/src/service/variable-signs.ts
index 4b6c586..f0c0610 100644
--- a/road/variable-signs/src/service/variable-signs.ts
+++ b/road/variable-signs/src/service/variable-signs.ts
@@ -188,7 +188,7 @@ function createVmsTablePublication35(
   return DATEX2_VMS_TABLE_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication35(
@@ -202,7 +202,7 @@ function createVmsPublication35(
   return DATEX2_VMS_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication35(
@@ -216,7 +216,7 @@ function createSituationPublication35(
   return DATEX2_SITUATION_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 function createD2LogicalModel223(
@@ -228,7 +228,7 @@ function createD2LogicalModel223(
   return DATEX2_223_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 // Extra namespace declarations added in Datex II 3.7
@@ -308,7 +308,7 @@ function createVmsTablePublication37(
   return DATEX2_VMS_TABLE_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication37(
@@ -322,7 +322,7 @@ function createVmsPublication37(
   return DATEX2_VMS_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication37(
@@ -336,5 +336,5 @@ function createSituationPublication37(
   return DATEX2_SITUATION_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
-- 
2.43.0


From 0bee638747b70d1c76d9c54f010b257e063f20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:11 +0000
Subject: [PATCH 28/69] fix: refuse a variable sign message with an unfinished
 situation instead of reading it for ever

---
 road/variable-signs/src/service/datex2-update-service.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/road/variable-signs/src/service/datex2-update-service.ts b/road/variable-signs/src/service/datex2-update-service.ts
index 639ec73..b6b252e 100644
--- a/road/variable-signs/src/service/datex2-update-service.ts
+++ b/road/variable-signs/src/service/datex2-update-service.ts
@@ -65,6 +65,9 @@ export function parseSituations(datex2: string): Situation[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+      if (sitEndIndex === -1) {
+        throw new Error("situation without an end");
+      }
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From 4556ae196a4c6d8df434277e5961a43885c73a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 29/69] fix: release the database connection also when reading
 or starting a transaction fails

---
 rail/rami/src/util/database.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/util/database.ts b/rail/rami/src/util/database.ts
index 6ab3d08..03cd437 100644
--- a/rail/rami/src/util/database.ts
+++ b/rail/rami/src/util/database.ts
@@ -39,8 +39,8 @@ export async function inTransaction(
       customEvent: "transaction_started",
     });
 
-    await conn.beginTransaction();
     try {
+      await conn.beginTransaction();
       await fn(conn);
       await conn.commit();
 
@@ -80,9 +80,11 @@ export async function inDatabase<T>(
   fn: (conn: Connection) => Promise<T>,
 ): Promise<T> {
   const conn = await pool.getConnection();
-  const result = await fn(conn);
-  conn.release();
-  return result;
+  try {
+    return await fn(conn);
+  } finally {
+    conn.release();
+  }
 }
 
 export async function getOpts(): Promise<MysqlOpts> {
-- 
2.43.0


From f12608e7bfed0050ec05b999fb81ce719c3ba21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 30/69] fix: publish the delivery time of audio messages
 delivered at a given time

---
 rail/rami/src/dao/message.ts         | 4 ++--
 rail/rami/src/service/get-message.ts | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 1f02531..8df916f 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -76,7 +76,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
@@ -175,7 +175,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
diff --git a/rail/rami/src/service/get-message.ts b/rail/rami/src/service/get-message.ts
index d5c5ccd..fde056e 100644
--- a/rail/rami/src/service/get-message.ts
+++ b/rail/rami/src/service/get-message.ts
@@ -124,6 +124,7 @@ function dbRamiMessageToPassengerInformationMessage(
               : undefined,
             deliveryType:
               message.audio?.delivery_rules?.delivery_type ?? undefined,
+            deliveryAt: message.audio?.delivery_rules?.delivery_at ?? undefined,
             repetitions:
               message.audio?.delivery_rules?.repetitions ?? undefined,
             repeatEvery:
-- 
2.43.0


From ea825a4706f05d8e69ae635a0b38c516f06ac437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 31/69] fix: a message with recorded audio and no audio texts
 was dropped

---
 rail/rami/src/service/process-rosm-message.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rail/rami/src/service/process-rosm-message.ts b/rail/rami/src/service/process-rosm-message.ts
index f31ebbd..bafbcfd 100644
--- a/rail/rami/src/service/process-rosm-message.ts
+++ b/rail/rami/src/service/process-rosm-message.ts
@@ -144,7 +144,7 @@ function parseMonitoredJourneyScheduledMessageAudio(
 function parseScheduledMessageAudio(
   audioMessage: RamiScheduledMessageAudio,
 ): DtAudioContent {
-  const audioTexts = audioMessage.audioText as TextContent[];
+  const audioTexts = (audioMessage.audioText ?? []) as TextContent[];
   return {
     textFi: getTextInLanguage(audioTexts, LanguageCodes.FI),
     textSv: getTextInLanguage(audioTexts, LanguageCodes.SV),
-- 
2.43.0


From 8994825a7a42fc26716cf86527e93000ab027d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 32/69] fix: rejected messages were written as invalid JSON
 when their errors had quotes

---
 rail/rami/src/lambda/process-dlq/process-dlq.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rail/rami/src/lambda/process-dlq/process-dlq.ts b/rail/rami/src/lambda/process-dlq/process-dlq.ts
index 8caafd5..e5cfe84 100644
--- a/rail/rami/src/lambda/process-dlq/process-dlq.ts
+++ b/rail/rami/src/lambda/process-dlq/process-dlq.ts
@@ -25,9 +25,10 @@ export const handler = async (event: DlqEvent): Promise<void> => {
 
     try {
       const dlqMessage = JSON.parse(e.body) as DlqMessage;
-      const body = `[{"errors":"${dlqMessage.errors}"}, ${JSON.stringify(
+      const body = JSON.stringify([
+        { errors: dlqMessage.errors },
         dlqMessage.message,
-      )}]`;
+      ]);
       const folder = `${dlqMessage.messageType}/${new Date()
         .toISOString()
         .substring(0, 10)}`;
-- 
2.43.0


From a5a8608f36c722b0ed3abe91d77c26c3b8c7f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:03 +0000
Subject: [PATCH 33/69] fix: a changed or restored location of a port
 suspension was left as it was

---
 marine/winter-navigation/src/db/port-suspensions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/port-suspensions.ts b/marine/winter-navigation/src/db/port-suspensions.ts
index 535f8ae..a5d219a 100644
--- a/marine/winter-navigation/src/db/port-suspensions.ts
+++ b/marine/winter-navigation/src/db/port-suspensions.ts
@@ -24,7 +24,11 @@ const SQL_UPDATE_SUSPENSION_LOCATIONS = `
 insert into wn_port_suspension_location(id, suspension_id, location_id, deleted)
 values ($1, $2, $3, false)
 on conflict(id)
-do nothing`;
+do update set
+    suspension_id = $2,
+    location_id = $3,
+    deleted = false
+`;
 
 const PS_UPDATE_SUSPENSIONS = new pgPromise.PreparedStatement({
   name: "update-suspensions",
-- 
2.43.0


From 167f77e71f31c490fefc9be77a0642a06e7685be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:03 +0000
Subject: [PATCH 34/69] fix: vessels without an imo or mmsi number were taken
 for each other

---
 .../src/service/vessel-service.ts             | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/marine/winter-navigation/src/service/vessel-service.ts b/marine/winter-navigation/src/service/vessel-service.ts
index 31a3b10..01da8ae 100644
--- a/marine/winter-navigation/src/service/vessel-service.ts
+++ b/marine/winter-navigation/src/service/vessel-service.ts
@@ -79,10 +79,21 @@ function convertVessel(v: VesselDTO, lastUpdated?: Date): Vessel {
   };
 }
 
+// a missing mmsi or imo does not identify a vessel
+function isSameVessel(
+  v: VesselDTO,
+  mmsi: number | null | undefined,
+  imo: number | null | undefined,
+): boolean {
+  return (
+    (mmsi !== null && mmsi !== undefined && v.mmsi === mmsi) ||
+    (imo !== null && imo !== undefined && v.imo === imo)
+  );
+}
+
 function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
-  const isIcebreaker =
-    v.mmsi === a.icebreaker_mmsi || v.imo === a.icebreaker_imo;
-  const isVessel = v.mmsi === a.vessel_mmsi || v.imo === a.vessel_imo;
+  const isIcebreaker = isSameVessel(v, a.icebreaker_mmsi, a.icebreaker_imo);
+  const isVessel = isSameVessel(v, a.vessel_mmsi, a.vessel_imo);
   const baseActivity = {
     type: a.type,
     reason: a.reason ?? null,
@@ -120,8 +131,7 @@ function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
 }
 
 function convertQueue(q: QueueDTO, v: VesselDTO): PlannedAssistance {
-  const isIcebreaker =
-    v.mmsi === q.icebreaker_mmsi || v.imo === q.icebreaker_imo;
+  const isIcebreaker = isSameVessel(v, q.icebreaker_mmsi, q.icebreaker_imo);
 
   const baseAssistance = {
     queuePosition: q.order_num,
-- 
2.43.0


From 8e7ea3693ce7eb93526850320e29c608f686baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:03 +0000
Subject: [PATCH 35/69] fix: do not give a deleted vessel

---
 marine/winter-navigation/src/db/vessels.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/vessels.ts b/marine/winter-navigation/src/db/vessels.ts
index d24d8c2..22e294c 100644
--- a/marine/winter-navigation/src/db/vessels.ts
+++ b/marine/winter-navigation/src/db/vessels.ts
@@ -21,7 +21,7 @@ do update set
 
 const SQL_GET_VESSEL = `
 WITH target_vessel AS (
-  SELECT id FROM wn_vessel WHERE imo = $3 OR mmsi = $3
+  SELECT id FROM wn_vessel WHERE deleted = false AND (imo = $3 OR mmsi = $3)
 ),
 all_queue_relations AS (
     -- Get queues where the target vessel is the one being assisted
-- 
2.43.0


From 41e2ca99bb9335b7ad90f45914deeef1aa239153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 36/69] fix: escape parameters of camera server commands

---
 marine/marinecam/src/service/command.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marine/marinecam/src/service/command.ts b/marine/marinecam/src/service/command.ts
index 34da818..17e5543 100644
--- a/marine/marinecam/src/service/command.ts
+++ b/marine/marinecam/src/service/command.ts
@@ -43,6 +43,14 @@ export type InputParameter =
   | "VideoId"
   | "Speed";
 
+function escapeXml(value: string): string {
+  return value
+    .replaceAll("&", "&amp;")
+    .replaceAll("<", "&lt;")
+    .replaceAll(">", "&gt;")
+    .replaceAll('"', "&quot;");
+}
+
 export abstract class Command<T> {
   readonly name: string;
   readonly inputParameters: Record<string, string>;
@@ -62,7 +70,7 @@ export abstract class Command<T> {
     let inputs = "";
 
     for (const [key, value] of Object.entries(this.inputParameters)) {
-      inputs += `<Param Name="${key}" Value="${value}"/>`;
+      inputs += `<Param Name="${key}" Value="${escapeXml(value)}"/>`;
     }
 
     return `<InputParams>${inputs}</InputParams>`;
-- 
2.43.0


From 49b0e19719a0d1ecc4163411869761c2a4eea6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 37/69] fix: do not mark a camera as updated when its image
 could not be stored

---
 marine/marinecam/src/service/image-fetcher.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/marine/marinecam/src/service/image-fetcher.ts b/marine/marinecam/src/service/image-fetcher.ts
index 705869e..036f6cb 100644
--- a/marine/marinecam/src/service/image-fetcher.ts
+++ b/marine/marinecam/src/service/image-fetcher.ts
@@ -49,11 +49,9 @@ async function updateAllImages(
             message: `empty picture from camera ${cameraId}`,
           });
         } else {
+          await ImageStore.storeImage(cameraId, image, bucketName);
           updatedCameras.push(cameraId);
-          return ImageStore.storeImage(cameraId, image, bucketName);
         }
-
-        return Promise.resolve();
       }),
     ),
   );
-- 
2.43.0


From 804ac58b56340535497cf1e35aa0290a0d073b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 38/69] fix: close the stream of a camera also when reading it
 fails

---
 marine/marinecam/src/service/image-fetcher.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marine/marinecam/src/service/image-fetcher.ts b/marine/marinecam/src/service/image-fetcher.ts
index 036f6cb..ef29bd7 100644
--- a/marine/marinecam/src/service/image-fetcher.ts
+++ b/marine/marinecam/src/service/image-fetcher.ts
@@ -83,10 +83,10 @@ async function getImageFromCamera(
   // to get image, we need to request stream, rewind stream to current time and then request on frame from the stream
   // of course close stream after
   const videoId = await session.requestStream(cameraId);
-  await session.setStreamTime(videoId);
-  const image = await session.getFrameFromStream(videoId);
-
-  await session.closeStream(videoId);
-
-  return image;
+  try {
+    await session.setStreamTime(videoId);
+    return await session.getFrameFromStream(videoId);
+  } finally {
+    await session.closeStream(videoId);
+  }
 }
-- 
2.43.0


From c156412253ebbac79fc0de112fcdc02363b532c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 39/69] fix: answer also a login that needs a new password or
 fails at once

---
 .../src/lambda/authorizer/cognito_backend.ts       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
index a3c865b..7d39e86 100644
--- a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
+++ b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
@@ -53,7 +53,12 @@ export function loginUser(
         },
 
         newPasswordRequired: (userAttributes: object) => {
-          return changeUserPassword(cognitoUser, password, userAttributes);
+          return changeUserPassword(
+            cognitoUser,
+            password,
+            userAttributes,
+            resolve,
+          );
         },
       });
     } catch (error) {
@@ -62,6 +67,8 @@ export function loginUser(
         message: "authenticateUser failed",
         customDetails: JSON.stringify(error),
       });
+
+      resolve(undefined);
     }
   });
 }
@@ -70,6 +77,7 @@ function changeUserPassword(
   cognitoUser: CognitoUser,
   newPassword: string,
   userAttributes: object,
+  resolve: (session: CognitoUserSession | undefined) => void,
 ): void {
   cognitoUser.completeNewPasswordChallenge(newPassword, userAttributes, {
     onSuccess: (result) => {
@@ -78,6 +86,8 @@ function changeUserPassword(
         message: "success",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(result);
     },
     onFailure: (result) => {
       logger.info({
@@ -85,6 +95,8 @@ function changeUserPassword(
         message: "failure",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(undefined);
     },
   });
 }
-- 
2.43.0


From 42e58f11363c671c6f047076bd92577b24f04fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 40/69] fix: accept passwords with colons

---
 marine/marinecam/src/lambda/authorizer/authorizer.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marine/marinecam/src/lambda/authorizer/authorizer.ts b/marine/marinecam/src/lambda/authorizer/authorizer.ts
index 54a5e79..d64322e 100644
--- a/marine/marinecam/src/lambda/authorizer/authorizer.ts
+++ b/marine/marinecam/src/lambda/authorizer/authorizer.ts
@@ -49,14 +49,16 @@ function parseAuthentication(
     if (!encodedCreds) {
       return undefined;
     }
-    const plainCreds = Buffer.from(encodedCreds, "base64")
-      .toString()
-      .split(":");
+    // the password may contain colons, the username can not
+    const plainCreds = Buffer.from(encodedCreds, "base64").toString();
+    const separator = plainCreds.indexOf(":");
+    const username = plainCreds.substring(0, separator);
+    const password = plainCreds.substring(separator + 1);
 
-    if (plainCreds.length !== 2 || !plainCreds[0] || !plainCreds[1]) {
+    if (separator === -1 || !username || !password) {
       return undefined;
     }
-    return [plainCreds[0], plainCreds[1]];
+    return [username, password];
   }
 }
 
-- 
2.43.0


From 692d5de06e1acde5d709d0ebcf011815f89e396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:12 +0000
Subject: [PATCH 41/69] fix: read only the bytes of the exported description,
 not the whole buffer they lie in

---
 .../src/lambda/update-swagger/lambda-update-swagger.ts        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts b/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts
index bc9894e..559445d 100644
--- a/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts
+++ b/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts
@@ -102,9 +102,9 @@ export const handler = async (): Promise<void> => {
 
   const apis = apiResponses.map((resp) => {
     if (!resp.body) throw new Error("Missing body");
-    // seriously AWS, wtf?
+    // the body may be a view to a part of a larger buffer
     const body: Uint8Array = resp.body;
-    const schema = Buffer.from(body.buffer).toString();
+    const schema = Buffer.from(body).toString();
 
     return openapiSchema.parse(JSON.parse(schema));
   });
-- 
2.43.0


From b25525f6e237375e60e20252f4bcf1240d88c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:12 +0000
Subject: [PATCH 42/69] fix: check the minimum of the limits by path as well

---
 other/cloudfront/src/acl/waf-rules.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/other/cloudfront/src/acl/waf-rules.ts b/other/cloudfront/src/acl/waf-rules.ts
index 6194f5c..0f5b56b 100644
--- a/other/cloudfront/src/acl/waf-rules.ts
+++ b/other/cloudfront/src/acl/waf-rules.ts
@@ -80,6 +80,7 @@ export class WafRules {
       perIpWithoutHeader,
       perIpAndQueryWithHeader,
       perIpAndQueryWithoutHeader,
+      perIpAndQueryWithoutHeaderByPath,
     );
 
     return new WafRules(
-- 
2.43.0


From 8d089a5e7947c64a99c801d5c94791fb6568dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:12 +0000
Subject: [PATCH 43/69] fix: removing the gzip requirement removes only the
 gzip requirement

---
 other/cloudfront/src/distribution/behavior.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/other/cloudfront/src/distribution/behavior.ts b/other/cloudfront/src/distribution/behavior.ts
index b6fe0ab..0bda193 100644
--- a/other/cloudfront/src/distribution/behavior.ts
+++ b/other/cloudfront/src/distribution/behavior.ts
@@ -259,7 +259,11 @@ export class Behavior {
   }
 
   public withoutGzipRequirementLambda(): this {
-    this.lambdaConfig.lambdas.delete(LambdaEdgeEventType.VIEWER_REQUEST);
+    for (const [eventType, lambdaType] of this.lambdaConfig.lambdas) {
+      if (lambdaType === LambdaType.GZIP_REQUIREMENT) {
+        this.lambdaConfig.lambdas.delete(eventType);
+      }
+    }
 
     return this;
   }
-- 
2.43.0


From 00702e12c11719a1b5e34e66a4ca4de95e0b468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:12 +0000
Subject: [PATCH 44/69] fix: do not share an origin between behaviors that have
 different settings for it

---
 other/cloudfront/src/cloudfront-cdk-stack.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/other/cloudfront/src/cloudfront-cdk-stack.ts b/other/cloudfront/src/cloudfront-cdk-stack.ts
index 7af157d..89d2eab 100644
--- a/other/cloudfront/src/cloudfront-cdk-stack.ts
+++ b/other/cloudfront/src/cloudfront-cdk-stack.ts
@@ -218,7 +218,13 @@ export class CloudfrontCdkStack extends Stack {
   }
 
   getOrigin(behavior: Behavior): IOrigin {
-    const cacheKey = behavior.origin._origin;
+    const { _type, _origin, _path } = behavior.origin;
+    // buckets and vpc origins are always created once, others can have different settings for the same host
+    const cacheKey = JSON.stringify(
+      _type === "s3" || _type === "vpc"
+        ? [_type, _origin]
+        : [_type, _origin, _path, behavior.apiKey, behavior.readTimeout],
+    );
 
     if (!this._originCache[cacheKey]) {
       this._originCache[cacheKey] = this.createOrigin(behavior);
-- 
2.43.0


From 87f3db767aa0f4a94374af7cc58bff2bc2e2f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:32 +0000
Subject: [PATCH 45/69] fix: headers of one NodePing check leak into later
 checks

---
 other/status/src/api/nodeping-api.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/other/status/src/api/nodeping-api.ts b/other/status/src/api/nodeping-api.ts
index fc62ce3..c25ff1a 100644
--- a/other/status/src/api/nodeping-api.ts
+++ b/other/status/src/api/nodeping-api.ts
@@ -370,7 +370,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       enabled: true,
       follow: true,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       method: checkMethod,
       notifications: this.createNotificationsPostData(contactIds),
     };
@@ -434,7 +434,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       method: checkMethod,
       interval: this.checkIntervalMinutes,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       notifications: this.createNotificationsPostData(contactIds),
     } as const satisfies NodePingCheckPutData;
 
-- 
2.43.0


From b4e943f258be2d3c0602f9decb4da19f289449e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:32 +0000
Subject: [PATCH 46/69] fix: configured address renamed url is not updated for
 checks labelled with the app name

---
 other/status/src/service/status-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index dbd5778..7c26dbe 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -260,7 +260,8 @@ export async function updateChecks(
     const correspondingExtraEndpoint = extraEndpoints.find(
       (e) =>
         e.url === check.parameters.target ||
-        e.name.toLowerCase() === check.label.toLowerCase(),
+        e.name.toLowerCase() === check.label.toLowerCase() ||
+        `${app} ${e.name}`.toLowerCase() === check.label.toLowerCase(),
     );
 
     const checksContactIds = getContactIds(
-- 
2.43.0


From 0b996c183ce24db1ac3b3c50aa5de85dc4a111e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:32 +0000
Subject: [PATCH 47/69] fix: status comparison mixes components of different
 apps

---
 other/status/src/service/status-service.ts | 36 ++++++++++++----------
 other/status/src/service/utils.ts          | 11 +++++++
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index 7c26dbe..3756e6f 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -14,7 +14,7 @@ import type {
 import type { MonitoredApp, MonitoredEndpoint } from "../app-props.js";
 import type { AppWithEndpoints } from "../model/app-with-endpoints.js";
 import type { UpdateStatusSecret } from "../secret.js";
-import { removeAppAndTrim, removeTrailingSlash } from "./utils.js";
+import { findApp, removeAppAndTrim, removeTrailingSlash } from "./utils.js";
 
 const SERVICE = "StatusService" as const;
 const BETA = "beta" as const;
@@ -27,34 +27,24 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
   const cStateStatus = await cStateStatuspageApi.getStatus();
   const cStateMaintenanceOn = await cStateStatuspageApi.isActiveMaintenances();
 
-  const nodePingCheckMap: Record<string, NodePingCheck> = {};
-  for (const npc of nodePingChecks) {
-    nodePingCheckMap[convertToCstateNameWithoutApp(npc.label).toLowerCase()] =
-      npc;
-  }
-
-  const cStateSystemsMap: Record<string, CStateSystem> = {};
-  for (const system of cStateStatus.systems) {
-    cStateSystemsMap[convertToCstateNameWithoutApp(system.name)] = system;
-  }
-
   const missingCStateSystems = nodePingChecks
     .filter((npc) => !isBeta(npc.label))
     .filter(
-      (npc) => !(convertToCstateNameWithoutApp(npc.label) in cStateSystemsMap),
+      (npc) => !cStateStatus.systems.some((sc) => isSameComponent(npc, sc)),
     )
     .map((npc) => `${npc.label}: cState Statuspage system missing`);
 
   const missingNodePingChecksVsCState = cStateStatus.systems
-    .filter((sc) => !(removeAppAndTrim(sc.name) in nodePingCheckMap))
+    .filter((sc) => !nodePingChecks.some((npc) => isSameComponent(npc, sc)))
     .map((sc) => `${sc.name}: NodePing check missing`);
 
   const outOfSyncWithCStateStatusPage = cStateMaintenanceOn
     ? []
     : cStateStatus.systems
         .map((cStateSystem) => {
-          const nodePingCheck =
-            nodePingCheckMap[convertToCstateNameWithoutApp(cStateSystem.name)];
+          const nodePingCheck = nodePingChecks.find((npc) =>
+            isSameComponent(npc, cStateSystem),
+          );
           if (!nodePingCheck) {
             return null;
           }
@@ -75,6 +65,20 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
     .concat(outOfSyncWithCStateStatusPage);
 }
 
+/**
+ * Different apps can have components with the same name, so the app has to match
+ * too when it is part of both names.
+ */
+function isSameComponent(check: NodePingCheck, system: CStateSystem): boolean {
+  const checkApp = findApp(check.label);
+  const systemApp = findApp(system.name);
+  return (
+    (!checkApp || !systemApp || checkApp === systemApp) &&
+    convertToCstateNameWithoutApp(check.label) ===
+      convertToCstateNameWithoutApp(system.name)
+  );
+}
+
 /**
  * Statuspage labels:
  * Rail Swagger -> /swagger
diff --git a/other/status/src/service/utils.ts b/other/status/src/service/utils.ts
index 6d39233..2929650 100644
--- a/other/status/src/service/utils.ts
+++ b/other/status/src/service/utils.ts
@@ -1,5 +1,16 @@
 import { TrafficType } from "@digitraffic/common/dist/types/traffictype";
 
+/**
+ * Finds the app whose name the given string starts with
+ * @param text to find app from
+ */
+export function findApp(text: string): TrafficType | undefined {
+  const name = text.toLowerCase().replace(/^\//, "");
+  return Object.values(TrafficType).find((app) =>
+    name.startsWith(app.toLowerCase()),
+  );
+}
+
 /**
  * Removes app name from the given string and strips trailing slash
  * @param text to remove app name
-- 
2.43.0


From 0889cf03901dd49c0b30dc995e7999b30421178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:32 +0000
Subject: [PATCH 48/69] fix: a prediction without a time loses all predictions
 of the port

---
 marine/portactivity/src/service/awake-ai-eta-port.ts | 1 +
 marine/portactivity/src/service/awake-ai-etd-port.ts | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/service/awake-ai-eta-port.ts b/marine/portactivity/src/service/awake-ai-eta-port.ts
index d86c855..056d7d3 100644
--- a/marine/portactivity/src/service/awake-ai-eta-port.ts
+++ b/marine/portactivity/src/service/awake-ai-eta-port.ts
@@ -32,6 +32,7 @@ export class AwakeAiETAPortService {
     etaPrediction: AwakeAiVoyageEtaPrediction,
   ): boolean {
     if (
+      etaPrediction.arrivalTime &&
       isBefore(parseISO(etaPrediction.arrivalTime), addHours(Date.now(), 24))
     ) {
       logger.warn({
diff --git a/marine/portactivity/src/service/awake-ai-etd-port.ts b/marine/portactivity/src/service/awake-ai-etd-port.ts
index 9cd8407..59e09c2 100644
--- a/marine/portactivity/src/service/awake-ai-etd-port.ts
+++ b/marine/portactivity/src/service/awake-ai-etd-port.ts
@@ -50,7 +50,10 @@ export class AwakeAiETDPortService {
           const etdPredictions = schedule.voyage.predictions
             .filter(isAwakeEtdPrediction)
             .filter((etdPrediction) => {
-              if (this.departureTimeInThePast(etdPrediction.departureTime)) {
+              if (
+                etdPrediction.departureTime &&
+                this.departureTimeInThePast(etdPrediction.departureTime)
+              ) {
                 logger.warn({
                   method: "AwakeAiETDPortService.getAwakeAiTimestamps",
                   message: `ETD prediction event time in the past, IMO: ${schedule.ship.imo}, MMSI: ${schedule.ship.mmsi}, prediction: ${JSON.stringify(
-- 
2.43.0


From f9a6466dfd7a69d42a4d1f68a2cd3f2086519f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:32 +0000
Subject: [PATCH 49/69] fix: an empty list of schedules loses the schedules of
 the other direction

---
 marine/portactivity/src/api/schedules.ts     | 2 +-
 marine/portactivity/src/service/schedules.ts | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/marine/portactivity/src/api/schedules.ts b/marine/portactivity/src/api/schedules.ts
index 7ecbe85..2b12f98 100644
--- a/marine/portactivity/src/api/schedules.ts
+++ b/marine/portactivity/src/api/schedules.ts
@@ -84,6 +84,6 @@ export interface Schedule {
 
 export interface SchedulesResponse {
   readonly schedules: {
-    readonly schedule: Schedule[];
+    readonly schedule?: Schedule[];
   };
 }
diff --git a/marine/portactivity/src/service/schedules.ts b/marine/portactivity/src/service/schedules.ts
index 92b2866..1aeb629 100644
--- a/marine/portactivity/src/service/schedules.ts
+++ b/marine/portactivity/src/service/schedules.ts
@@ -65,7 +65,8 @@ export class SchedulesService {
     resp: SchedulesResponse,
     calculated: boolean,
   ): ApiTimestamp[] {
-    return resp.schedules.schedule.flatMap((s) => {
+    // an empty list of schedules has no schedule elements at all
+    return (resp.schedules.schedule ?? []).flatMap((s) => {
       const timestamps: ApiTimestamp[] = [];
       const tt = s.timetable[0];
       if (!tt?.destination) {
-- 
2.43.0


From ce80c158ff79f474d251dc70d29b2adb2cecff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:32 +0000
Subject: [PATCH 50/69] fix: a failing connection to Pilotweb is not handled

---
 marine/portactivity/src/api/pilotweb.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marine/portactivity/src/api/pilotweb.ts b/marine/portactivity/src/api/pilotweb.ts
index 484a8c3..3a08abe 100644
--- a/marine/portactivity/src/api/pilotweb.ts
+++ b/marine/portactivity/src/api/pilotweb.ts
@@ -33,6 +33,9 @@ export function getMessages(host: string, authHeader: string): Promise<string> {
           });
         },
       )
+      .on("error", (error) => {
+        reject(error);
+      })
       .end();
   });
 }
-- 
2.43.0


From d5c53dba349bcd01e8fc9a9e7ce0361d75d29183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:32 +0000
Subject: [PATCH 51/69] fix: a failure after storing pilotages loses their
 timestamps

---
 marine/portactivity/src/service/pilotweb.ts | 29 +++++++++------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/marine/portactivity/src/service/pilotweb.ts b/marine/portactivity/src/service/pilotweb.ts
index ecbb70d..88ba0f2 100644
--- a/marine/portactivity/src/service/pilotweb.ts
+++ b/marine/portactivity/src/service/pilotweb.ts
@@ -27,8 +27,8 @@ export async function getMessagesFromPilotweb(
 
   return inDatabase(async (db: DTDatabase) => {
     const idMap = await PilotagesDAO.getTimestamps(db);
-    const pilotageIds = await removeMissingPilotages(db, idMap, pilotages);
-    const updated = await updateAllPilotages(db, idMap, pilotages);
+    const pilotageIds = findRemoved(idMap, pilotages);
+    const updated = findNewAndUpdated(idMap, pilotages);
 
     logger.debug({
       method: "PilotwebService.getMessagesFromPilotweb",
@@ -39,9 +39,14 @@ export async function getMessagesFromPilotweb(
       message: `timestamps to remove: ${JSON.stringify(pilotageIds)}`,
     });
 
+    // The stored pilotages tell what has already been handled, so they are
+    // changed last: a failure before that is made up for by the next run.
+    const timestamps = await convertUpdatedTimestamps(db, updated);
     await removeTimestamps(db, pilotageIds);
+    await removeMissingPilotages(db, pilotageIds);
+    await updateAllPilotages(db, updated);
 
-    return convertUpdatedTimestamps(db, updated);
+    return timestamps;
   });
 }
 
@@ -66,36 +71,26 @@ async function removeTimestamps(
 
 async function updateAllPilotages(
   db: DTDatabase,
-  idMap: PilotagesDAO.TimestampMap,
-  pilotages: Pilotage[],
-): Promise<Pilotage[]> {
-  const newAndUpdated = findNewAndUpdated(idMap, pilotages);
-
+  newAndUpdated: Pilotage[],
+): Promise<void> {
   logger.info({
     method: "PilotwebService.updateAllPilotages",
     customPilotagesUpdatedCount: newAndUpdated.length,
   });
 
   await PilotagesDAO.updatePilotages(db, newAndUpdated);
-
-  return newAndUpdated;
 }
 
 async function removeMissingPilotages(
   db: DTDatabase,
-  idMap: PilotagesDAO.TimestampMap,
-  pilotages: Pilotage[],
-): Promise<number[]> {
-  const removedIds = findRemoved(idMap, pilotages);
-
+  removedIds: number[],
+): Promise<void> {
   logger.info({
     method: "PilotwebService.removeMissingPilotages",
     customDeletedPilotagesCount: removedIds.length,
   });
 
   await PilotagesDAO.deletePilotages(db, removedIds);
-
-  return removedIds;
 }
 
 async function convertUpdatedTimestamps(
-- 
2.43.0


From f18812aed3b39d770e27a56738171e648e310e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:06 +0000
Subject: [PATCH 52/69] fix: an unfinished variable sign situation is read for
 ever

---
 road/data-upload/src/service/vs-datex2-223-parser.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/road/data-upload/src/service/vs-datex2-223-parser.ts b/road/data-upload/src/service/vs-datex2-223-parser.ts
index ce21b37..196c512 100644
--- a/road/data-upload/src/service/vs-datex2-223-parser.ts
+++ b/road/data-upload/src/service/vs-datex2-223-parser.ts
@@ -24,6 +24,9 @@ export function parseSituations223(datex2: string): DatexFile[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+      if (sitEndIndex === -1) {
+        throw new Error("situation without an end");
+      }
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From 26de9e38ce114f5267aa8b9737d645cffaed82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:06 +0000
Subject: [PATCH 53/69] fix: an upload that could not be stored is answered
 with 200

---
 road/data-upload/src/lambda/upload-datex2/upload-datex2.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
index 42b17ff..2e1eb7e 100644
--- a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
+++ b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
@@ -14,6 +14,7 @@ export const ERRORS = {
   MISSING_BODY: "Missing body",
   INVALID_PAYLOAD: "Invalid payload",
   EMPTY_PAYLOAD: "Empty payload",
+  NOT_STORED: "Payload could not be stored",
 } as const;
 
 export const StatusCodes = {
@@ -63,6 +64,11 @@ export const handler = async (
         method,
         error,
       });
+
+      return {
+        statusCode: 500,
+        body: ERRORS.NOT_STORED,
+      };
     } finally {
       logger.info({
         method,
-- 
2.43.0


From 7a98da28b129170a9bc44c402f9bbe26cd1cf31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:06 +0000
Subject: [PATCH 54/69] fix: one unreadable traffic message leaves the others
 of its batch unfinished

---
 .../src/lambda/handle-rtti/handle-rtti.ts     | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts b/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
index f80f3df..a742a2e 100644
--- a/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
+++ b/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
@@ -15,25 +15,28 @@ export const handler = async (event: SQSEvent): Promise<void> => {
   await proxyHolder.setCredentials();
 
   try {
+    // a message that fails must not leave the others of the batch unfinished
     await Promise.all(
       event.Records.map(async (record) => {
         const { messageId, body } = record;
 
-        const parsedMessage = parsePayload(body);
-
-        logger.debug(
-          `Parsed message ${messageId}: ${JSON.stringify(parsedMessage)}`,
-        );
-
-        await updateRtti(parsedMessage);
+        try {
+          const parsedMessage = parsePayload(body);
+
+          logger.debug(
+            `Parsed message ${messageId}: ${JSON.stringify(parsedMessage)}`,
+          );
+
+          await updateRtti(parsedMessage);
+        } catch (error) {
+          logger.debug(`Error handling message: ${JSON.stringify(record)}`);
+          logger.error({
+            method,
+            error,
+          });
+        }
       }),
     );
-  } catch (error) {
-    logger.debug(`Error handling message: ${JSON.stringify(event)}`);
-    logger.error({
-      method,
-      error,
-    });
   } finally {
     logger.info({
       method,
-- 
2.43.0


From f88c2947a66b9c290119f3d66cfedc4e2c938934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:06 +0000
Subject: [PATCH 55/69] fix: dollar signs of a traffic message are altered when
 it is published

---
 road/data-upload/src/service/mqtt-sending-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/road/data-upload/src/service/mqtt-sending-service.ts b/road/data-upload/src/service/mqtt-sending-service.ts
index 3178329..593f253 100644
--- a/road/data-upload/src/service/mqtt-sending-service.ts
+++ b/road/data-upload/src/service/mqtt-sending-service.ts
@@ -79,8 +79,9 @@ export async function sendMqttUpdates(
 }
 
 function createMessage(datexSituation: string): string {
+  // replacer function, as dollar signs are special in a replacement text
   return PAYLOAD_TEMPLATE.replace(
     "PUBLICATION_TIME",
     new Date().toISOString(),
-  ).replace("SITUATION", datexSituation);
+  ).replace("SITUATION", () => datexSituation);
 }
-- 
2.43.0


From 52dc7a05ffb25aef45f6edf4ac7788098a162f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:06 +0000
Subject: [PATCH 56/69] fix: the MQTT connection stays open when publishing
 fails

---
 .../src/service/mqtt-sending-service.ts          | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/road/data-upload/src/service/mqtt-sending-service.ts b/road/data-upload/src/service/mqtt-sending-service.ts
index 593f253..b199b44 100644
--- a/road/data-upload/src/service/mqtt-sending-service.ts
+++ b/road/data-upload/src/service/mqtt-sending-service.ts
@@ -61,15 +61,17 @@ export async function sendMqttUpdates(
       clientId,
     });
 
-    for (const rtti of rttiData) {
-      // first zip and then base64 encode the message
-      //            const mqttMessage = Buffer.from(gzipSync(rtti.message)).toString("base64");
-      const topic = `traffic-message-v3/traffic-data/datex2-3.5/${rtti.is_srti ? "SRTI" : "RTTI"}`;
+    try {
+      for (const rtti of rttiData) {
+        // first zip and then base64 encode the message
+        //            const mqttMessage = Buffer.from(gzipSync(rtti.message)).toString("base64");
+        const topic = `traffic-message-v3/traffic-data/datex2-3.5/${rtti.is_srti ? "SRTI" : "RTTI"}`;
 
-      await client.publishAsync(topic, createMessage(rtti.message));
+        await client.publishAsync(topic, createMessage(rtti.message));
+      }
+    } finally {
+      await client.endAsync();
     }
-
-    await client.endAsync();
   } else {
     logger.error({
       method: "MqttSendingService.sendMqttUpdate",
-- 
2.43.0


From 39971ccd52eebdd1676eba87bf770e7e9ec054ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:06 +0000
Subject: [PATCH 57/69] fix: the start time of a traffic message without an end
 time is lost

---
 road/data-upload/src/service/rtti-35-parser.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/data-upload/src/service/rtti-35-parser.ts b/road/data-upload/src/service/rtti-35-parser.ts
index 18fce38..ab8446a 100644
--- a/road/data-upload/src/service/rtti-35-parser.ts
+++ b/road/data-upload/src/service/rtti-35-parser.ts
@@ -70,7 +70,7 @@ function getValidityPeriod(situation: Situation): {
       if (timeSpec) {
         const overallStartTime = timeSpec["com:overallStartTime"][0];
         const overallEndTime = timeSpec["com:overallEndTime"]?.[0];
-        if (overallStartTime && overallEndTime) {
+        if (overallStartTime) {
           return { startTime: overallStartTime, endTime: overallEndTime };
         }
       }
-- 
2.43.0


From 6e72c91e64ea869daf2e2cd6523d7f609ffbf82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:56 +0000
Subject: [PATCH 58/69] fix: fault updates run outside their transaction

---
 marine/aton-faults/src/db/faults.ts             | 7 +++++--
 marine/aton-faults/src/service/update-faults.ts | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/marine/aton-faults/src/db/faults.ts b/marine/aton-faults/src/db/faults.ts
index 1492c93..a975891 100644
--- a/marine/aton-faults/src/db/faults.ts
+++ b/marine/aton-faults/src/db/faults.ts
@@ -1,5 +1,8 @@
 import { TZDate } from "@date-fns/tz";
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { Language } from "@digitraffic/common/dist/types/language";
 import { createGeometry } from "@digitraffic/common/dist/utils/geometry";
 import { subHours } from "date-fns";
@@ -132,7 +135,7 @@ export function findFaultIdsByRoute(
 }
 
 export function updateFaults(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   domain: string,
   faults: FaultFeature[],
 ): Promise<unknown>[] {
diff --git a/marine/aton-faults/src/service/update-faults.ts b/marine/aton-faults/src/service/update-faults.ts
index b1e6e4e..d33b261 100644
--- a/marine/aton-faults/src/service/update-faults.ts
+++ b/marine/aton-faults/src/service/update-faults.ts
@@ -19,9 +19,9 @@ export async function updateFaults(url: string, domain: string): Promise<void> {
   await inDatabase((db: DTDatabase) => {
     return db.tx((t: DTTransaction) => {
       return t.batch([
-        ...FaultsDB.updateFaults(db, domain, validated),
+        ...FaultsDB.updateFaults(t, domain, validated),
         LastUpdatedDB.updateUpdatedTimestamp(
-          db,
+          t,
           ATON_FAULTS_CHECK,
           new Date(start),
         ),
-- 
2.43.0


From ed9f25ea762fbf34df7a6e43c3efd508f58ad4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:56 +0000
Subject: [PATCH 59/69] fix: a failing fault query is not answered

---
 marine/aton-faults/src/lambda/get-faults/get-faults.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/aton-faults/src/lambda/get-faults/get-faults.ts b/marine/aton-faults/src/lambda/get-faults/get-faults.ts
index d41800a..b98eaaa 100644
--- a/marine/aton-faults/src/lambda/get-faults/get-faults.ts
+++ b/marine/aton-faults/src/lambda/get-faults/get-faults.ts
@@ -41,7 +41,7 @@ export const handler = async (
   try {
     const getFaultsEvent = GetFaultsSchema.parse(event);
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() =>
         findAllFaults(getFaultsEvent.language, getFaultsEvent.fixed_in_hours),
-- 
2.43.0


From 26de1a2ed06f40c69dfcb6b2b48492808edec90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:56 +0000
Subject: [PATCH 60/69] fix: a failing visit query is not answered

---
 marine/port-call/src/lambda/get-visits/get-visits.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/port-call/src/lambda/get-visits/get-visits.ts b/marine/port-call/src/lambda/get-visits/get-visits.ts
index b9361a6..a49e38f 100644
--- a/marine/port-call/src/lambda/get-visits/get-visits.ts
+++ b/marine/port-call/src/lambda/get-visits/get-visits.ts
@@ -25,7 +25,7 @@ export const handler = async (
       portOfCall: parsed.portOfCall?.toUpperCase(),
     };
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() => getAllVisits(getVisitsEvent))
       .then(([visits, lastUpdated]) => {
-- 
2.43.0


From 7de391a072e78e1cb7e9d840ff61e34de84f7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:56 +0000
Subject: [PATCH 61/69] fix: parameters of a schedule request are not encoded

---
 .../src/lambda/get-schedules/lambda-get-schedules.ts         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts b/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
index bccc7fd..a1d9364 100644
--- a/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
+++ b/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
@@ -70,7 +70,8 @@ function handleQueryParam(
   queryParams: Record<string, string | undefined>,
   params: string[],
 ): void {
-  if (queryParams[param] !== undefined) {
-    params.push(`${param}=${queryParams[param]}`);
+  const value = queryParams[param];
+  if (value !== undefined) {
+    params.push(`${param}=${encodeURIComponent(value)}`);
   }
 }
-- 
2.43.0


From 5443f793edbe4b52395b08c2115510373597d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:37 +0000
Subject: [PATCH 62/69] fix: a query that cannot be sent to OpenSearch is never
 finished

---
 other/os-key-figures/src/api/opensearch.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index 9ebf4f2..f214c70 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -55,9 +55,8 @@ export class OpenSearch {
     const client = new NodeHttpHandler();
 
     const makeRequest = async (): Promise<OpenSearchResponse> => {
-      // biome-ignore lint/suspicious/noAsyncPromiseExecutor: fix later
-      return new Promise(async (resolve, reject) => {
-        const { response } = await client.handle(signedRequest);
+      const { response } = await client.handle(signedRequest);
+      return new Promise((resolve, reject) => {
         this.handleResponseFromOs(
           response,
           (result) => {
-- 
2.43.0


From 34722e9607b25d1ef2efe99ed27cf696b269987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:37 +0000
Subject: [PATCH 63/69] fix: an answer of OpenSearch that cannot be read is
 never finished

---
 other/os-key-figures/src/api/opensearch.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index f214c70..8c90962 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -101,6 +101,12 @@ export class OpenSearch {
     response.body.on("data", (chunk: string) => {
       responseBody += chunk;
     });
+    response.body.on("error", (error: Error) => {
+      failedCallback(
+        statusCode,
+        `Failed to read response body: ${error.message}`,
+      );
+    });
     response.body.on("end", () => {
       try {
         successCallback(JSON.parse(responseBody));
@@ -109,6 +115,7 @@ export class OpenSearch {
           message: `Failed to parse response body: ${responseBody}`,
           method: "os-query.handleResponseFromOs",
         });
+        failedCallback(statusCode, "Failed to parse response body");
       }
     });
   }
-- 
2.43.0


From 93a73043c0f453a33a68198171a61a1a45495718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:37 +0000
Subject: [PATCH 64/69] fix: counts of keys that differ only in quotes
 overwrite each other

---
 .../src/adapters/driven/opensearch/metric-query.ts            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
index 060a83b..8552555 100644
--- a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
+++ b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
@@ -273,7 +273,9 @@ export class TermsMetricQuery extends AccessLogQuery {
     const buckets = response.aggregations.agg.buckets ?? [];
     const result: Record<string, number> = {};
     for (const bucket of buckets) {
-      result[sanitizeKey(bucket.key)] = bucket.doc_count;
+      const key = sanitizeKey(bucket.key);
+      // keys that differ only in removed characters are counted together
+      result[key] = (result[key] ?? 0) + bucket.doc_count;
     }
     return result;
   }
-- 
2.43.0


From 2adeced881c3070a63f3bd04def76cb348bd48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:37 +0000
Subject: [PATCH 65/69] fix: an answer about monitors that breaks off is never
 finished

---
 other/opensearch-monitors/src/api/opensearch.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 45d58e0..2d3904d 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -112,11 +112,13 @@ export class OpenSearch {
     }
 
     let responseBody = "";
-    await new Promise((resolve) => {
+    await new Promise((resolve, reject) => {
       response.body.on("data", (chunk: string) => {
         responseBody += chunk;
       });
 
+      response.body.on("error", reject);
+
       response.body.on("end", () => {
         resolve(responseBody);
       });
-- 
2.43.0


From ed757092a3490321c02583fdee44e1dfeb723640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:37 +0000
Subject: [PATCH 66/69] fix: an outdated monitor beside its replacement counts
 as up to date

---
 other/opensearch-monitors/src/api/opensearch.ts | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 2d3904d..3ca14c2 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -210,18 +210,20 @@ export class OpenSearch {
 
   async checkMonitorsUptodate(expectedMonitors: OSMonitor[]): Promise<void> {
     const currentMonitors = await this.getAllMonitors();
-    // Build a Set of names from currentMonitors
-    const currentNames = new Set(currentMonitors.map((m) => m.name));
-    const expectedNames = new Set(expectedMonitors.map((m) => m.name));
+    const currentNames = currentMonitors.map((m) => m.name);
+    const expectedNames = expectedMonitors.map((m) => m.name);
+    // An old monitor that could not be deleted has the same name as its replacement
+    const countOf = (names: string[], name: string): number =>
+      names.filter((n) => n === name).length;
 
     // Find monitors that are missing in monitorsAfterUpdate
     // Check for monitors that are in currentMap but missing in updatedMap
-    const unexpectedMonitors = [...currentNames.keys()].filter(
-      (name) => !expectedNames.has(name),
+    const unexpectedMonitors = [...new Set(currentNames)].filter(
+      (name) => countOf(currentNames, name) > countOf(expectedNames, name),
     );
 
-    const missingMonitors = [...expectedNames.keys()].filter(
-      (name) => !currentNames.has(name),
+    const missingMonitors = [...new Set(expectedNames)].filter(
+      (name) => countOf(currentNames, name) < countOf(expectedNames, name),
     );
 
     if (missingMonitors.length > 0) {
-- 
2.43.0


From dea2bbfe10cff6242dd48bf299afa3a1a8ef6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:47 +0000
Subject: [PATCH 67/69] fix: failed timestamps are not taken off their queue

---
 marine/portactivity/src/internal-lambdas-stack.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/internal-lambdas-stack.ts b/marine/portactivity/src/internal-lambdas-stack.ts
index ac38b0d..46f8713 100644
--- a/marine/portactivity/src/internal-lambdas-stack.ts
+++ b/marine/portactivity/src/internal-lambdas-stack.ts
@@ -274,7 +274,9 @@ function createProcessQueueLambda(
     },
   );
 
-  processQueueLambda.addEventSource(new SqsEventSource(queue));
+  processQueueLambda.addEventSource(
+    new SqsEventSource(queue, { reportBatchItemFailures: true }),
+  );
 
   return processQueueLambda;
 }
-- 
2.43.0


From f7924fc527efd8ce89f4d969d00ddd89c680f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:47 +0000
Subject: [PATCH 68/69] fix: the code of the only function is where its bundle
 is

---
 marine/voyage-plan-gateway/src/public-api.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/voyage-plan-gateway/src/public-api.ts b/marine/voyage-plan-gateway/src/public-api.ts
index 0421c96..f6d9754 100644
--- a/marine/voyage-plan-gateway/src/public-api.ts
+++ b/marine/voyage-plan-gateway/src/public-api.ts
@@ -68,7 +68,7 @@ function createVtsProxyHandler(
     functionName,
     defaultLambdaConfiguration({
       functionName,
-      code: new AssetCode("dist/lambda"),
+      code: new AssetCode("dist/lambda/lambda-get-schedules"),
       handler: "lambda-get-schedules.handler",
       logGroup: logGroup,
       environment: env,
-- 
2.43.0


From 2c74d522658b4dfc917aa8b13009cf394307093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:47 +0000
Subject: [PATCH 69/69] fix: several readers and writers of aviation data have
 names of their own

---
 .../aviation-data/src/aviation-data-stack.ts     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aviation/aviation-data/src/aviation-data-stack.ts b/aviation/aviation-data/src/aviation-data-stack.ts
index e05558a..0adcce4 100644
--- a/aviation/aviation-data/src/aviation-data-stack.ts
+++ b/aviation/aviation-data/src/aviation-data-stack.ts
@@ -26,8 +26,12 @@ export class AviationDataStack extends DigitrafficStack {
     configuration: AviationDataProps,
     bucket: Bucket,
   ): void {
-    configuration.bucketWriterArns.forEach((writerUserArn) => {
-      const user = User.fromUserArn(this, "bucket-writer-user", writerUserArn);
+    configuration.bucketWriterArns.forEach((writerUserArn, index) => {
+      const user = User.fromUserArn(
+        this,
+        `bucket-writer-user-${index}`,
+        writerUserArn,
+      );
 
       bucket.addToResourcePolicy(
         new PolicyStatement({
@@ -46,8 +50,12 @@ export class AviationDataStack extends DigitrafficStack {
       );
     });
 
-    configuration.bucketReaderArns.forEach((readerUserArn) => {
-      const user = User.fromUserArn(this, "bucket-reader-user", readerUserArn);
+    configuration.bucketReaderArns.forEach((readerUserArn, index) => {
+      const user = User.fromUserArn(
+        this,
+        `bucket-reader-user-${index}`,
+        readerUserArn,
+      );
 
       bucket.addToResourcePolicy(
         new PolicyStatement({
-- 
2.43.0

