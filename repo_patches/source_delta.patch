From 12897d3963776cbac0ac4bd62b337a08b3468719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:09 +0000
Subject: [PATCH 01/30] fix: serialize and escape lists inside struct values

Lists of strings nested in a struct were joined with the top-level list
separator and not escaped, so ExifTool stored one mangled element or dropped
the rest of the struct.
---
 src/WriteTask.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 10aa6b2..a12e2ae 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -63,10 +63,13 @@ function enc(
   } else if (isDateOrTime(o)) {
     return toExifString(o);
   } else if (Array.isArray(o)) {
-    const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
+    // `sep` only splits top-level list values: within a struct (or a list that
+    // contains structs), lists need struct serialization and escaping.
+    const primitiveArray =
+      !structValue && o.every((ea) => isString(ea) || isNumber(ea));
     return primitiveArray
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-      : `[${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(",")}]`;
+      : `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`;
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-- 
2.43.0


From 80b0cc7c7a0c1fb9b8d4ffb39980286c5ddd7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:52 +0000
Subject: [PATCH 02/30] fix: preserve leading whitespace of values passed to
 write()

ExifTool drops one space after the assignment operator and all leading
whitespace of struct fields, so such values were silently altered.
---
 src/WriteTask.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index a12e2ae..56006a8 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -45,18 +45,15 @@ function enc(
     // Structs need their own escaping here.
     // See https://exiftool.org/struct.html#Serialize
     const structurallyEscaped = structValue
-      ? (htmlDecodeLayers > 0 && /^\s/.test(o) ? "|" : "") +
+      ? (/^\s/.test(o) ? "|" : "") +
         o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
       : o;
     let entityProtected = structurallyEscaped;
     for (let i = 0; i < htmlDecodeLayers; i++) {
       entityProtected = entityProtected.replace(/&/g, "&#38;");
     }
-    if (
-      !structValue &&
-      htmlDecodeLayers > 0 &&
-      entityProtected.startsWith(" ")
-    ) {
+    // ExifTool drops a space that directly follows the assignment operator:
+    if (!structValue && entityProtected.startsWith(" ")) {
       entityProtected = "&#32;" + entityProtected.slice(1);
     }
     return htmlEncode(entityProtected);
-- 
2.43.0


From 493427c3aec32bf2c357511d57d85a1648d27c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:22 +0000
Subject: [PATCH 03/30] fix: don't modify the tags object passed to write()

---
 src/WriteTask.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 56006a8..87b7dba 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -166,6 +166,10 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
 
     // See https://exiftool.org/TagNames/GPS.html
 
+    // don't modify the caller's tags: a reference we add here would be taken
+    // as given if the object was used for a later write.
+    tags = { ...tags };
+
     if (isNumber(tags.GPSLatitude)) {
       // ExifTool will also accept a number when writing GPSLatitudeRef,
       // positive for north latitudes or negative for south, or a string
-- 
2.43.0


From 63c9d025805334c2d11c58b83520cedda100b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:41 +0000
Subject: [PATCH 04/30] fix: keep the digits of ExifToolVersion in grouped
 output

---
 src/ReadTask.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index c8d7dbf..897dd70 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -169,8 +169,8 @@ export class ReadTask extends ExifToolTask<Tags> {
     try {
       // Fix ExifToolVersion to be a string to preserve version distinctions like 12.3 vs 12.30
       const versionFixedData = data.replace(
-        /"ExifToolVersion"\s*:\s*(\d+(?:\.\d+)?)/,
-        '"ExifToolVersion":"$1"',
+        /"((?:\w+:)*ExifToolVersion)"\s*:\s*(\d+(?:\.\d+)?)/,
+        '"$1":"$2"',
       );
       const parsed = JSON.parse(versionFixedData)[0] as Record<string, unknown>;
       const decoded = this.#unwrapInvalidUtf8
-- 
2.43.0


From 8c52369c2e0cb7c83e7561113e124ff2f5390598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:04 +0000
Subject: [PATCH 05/30] =?UTF-8?q?fix:=20keep=20the=20sign=20of=20coordinat?=
 =?UTF-8?q?es=20like=20-0=C2=B0=2030'=200"?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/CoordinateParser.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index 945897f..ca619b4 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -275,13 +275,14 @@ export function parseCoordinate(
 
 function toDecimalDegrees(coord: Omit<Coordinate, "decimal">): number {
   const degrees = toFloat(coord.degrees) ?? 0;
-  const sign = Math.sign(degrees);
+  // "-0° 30' 0\"" is south/west, too:
+  const negative = degrees < 0 || Object.is(degrees, -0);
   let decimal = Math.abs(degrees);
 
   decimal += Math.abs(toFloat(coord.minutes) ?? 0) / 60.0;
   decimal += Math.abs(toFloat(coord.seconds) ?? 0) / 3600.0;
 
-  if (coord.direction === "S" || coord.direction === "W" || sign < 0) {
+  if (coord.direction === "S" || coord.direction === "W" || negative) {
     decimal = -decimal;
   }
 
-- 
2.43.0


From 32760a5f4947d238bc771f12dc5f13087a77d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:04 +0000
Subject: [PATCH 06/30] fix: don't flip coordinates that are already close to
 GeolocationPosition

---
 src/CoordinateParser.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index ca619b4..c3f910b 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -366,10 +366,13 @@ export function processCoordinate(
     value = -Math.abs(value);
   }
 
-  // Check for mismatched signs with GeolocationPosition
+  // Check for mismatched signs with GeolocationPosition. Near the equator and
+  // the prime meridian, both signs are "close enough": leave the value alone.
   if (
     geoValue != null &&
-    Math.abs(Math.abs(geoValue) - Math.abs(value)) < MAX_LAT_LON_DIFF
+    Math.abs(Math.abs(geoValue) - Math.abs(value)) < MAX_LAT_LON_DIFF &&
+    (Math.sign(geoValue) === Math.sign(value) ||
+      Math.abs(geoValue - value) >= MAX_LAT_LON_DIFF)
   ) {
     if (Math.sign(geoValue) !== Math.sign(value)) {
       value = -value;
-- 
2.43.0


From 46fd602eebc5ba9554978460c83ee638e77cbc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:25 +0000
Subject: [PATCH 07/30] fix: extractZone took any "Z" in a text, and offsets
 with impossible minutes, for a zone

The Z alternative was not anchored to the end of the text, so "Zurich" was
read as UTC; "+04:90" was read as UTC+5:30.
---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 7180b4a..37fa0d3 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -809,7 +809,7 @@ function tzHourToOffset(n: unknown): Maybe<string> {
 // "+02:00", and "+0200" (ISO 8601 basic format). Also accepts seconds like
 // "-00:25:21" for archaic offsets. Handles Unicode minus (−, U+2212).
 const tzRe =
-  /(?<Z>Z)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?)$/;
+  /(?:(?<Z>Z)|(?:UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>[0-5]\d)(?::(?<seconds>[0-5]\d))?)?)$/;
 
 export interface TzSrc {
   /**
-- 
2.43.0


From d898cfe1e4c186a87caa08eebb11d03c15ab4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:25 +0000
Subject: [PATCH 08/30] fix: IANA zone names with hyphens or plus signs were
 refused

Africa/Porto-Novo, America/Port-au-Prince, W-SU and Etc/GMT+3 are valid names.
---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 37fa0d3..52b7f08 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -432,7 +432,7 @@ export const defaultVideosToUTC = "defaultVideosToUTC";
 // https://en.wikipedia.org/wiki/List_of_tz_database_time_zones -- note that
 // "WET" and "W-SU" are full TZs (!!!), and "America/Indiana/Indianapolis" is
 // also a thing.
-const IanaFormatRE = /^\w{2,15}(?:\/\w{3,15}){0,2}$/;
+const IanaFormatRE = /^[a-z][\w-]{1,14}(?:\/[\w+-]{3,15}){0,2}$/i;
 
 /**
  * Regex for parsing timezone offset strings.
-- 
2.43.0


From 36a604882bf5b16f90d93e0fd3bb54d93727a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:25 +0000
Subject: [PATCH 09/30] fix: TimeZoneOffset with two values was read as a wrong
 zone

ExifTool renders two values as "-8 -7"; the second one, for ModifyDate, was used.
---
 src/Timezones.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 52b7f08..b9efe4f 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1118,7 +1118,14 @@ export function extractTzOffsetFromTags(
     opts?.adjustTimeZoneIfDaylightSavings ??
     defaultAdjustTimeZoneIfDaylightSavings;
   for (const tagName of TimezoneOffsetTagnames) {
-    const offset = extractZone(t[tagName]);
+    const value: unknown = t[tagName];
+    const offset = extractZone(
+      // ExifTool renders two TimeZoneOffset values as "-8 -7": as with arrays,
+      // we only want the first.
+      tagName === "TimeZoneOffset" && isString(value)
+        ? (toInt(/^([+-]?\d{1,2})\s+\S/.exec(value.trim())?.[1]) ?? value)
+        : value,
+    );
     if (offset == null) continue;
 
     // UGH. See https://github.com/photostructure/exiftool-vendored.js/issues/215
-- 
2.43.0


From 51eaecf08d8fecbd990a02bc3aaae169c3a90cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:25 +0000
Subject: [PATCH 10/30] fix: ExifDate was parsed in the system timezone, which
 may skip that date

With TZ=Pacific/Apia, "2011:12:30" was read as 2011-12-31.
---
 src/ExifDate.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 05a284b..80cf73c 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -54,7 +54,7 @@ export class ExifDate {
   }
   static fromISO(text: string): Maybe<ExifDate> {
     return StrictExifRE.test(toS(text).trim())
-      ? this.fromDateTime(DateTime.fromISO(text), text)
+      ? this.fromDateTime(DateTime.fromISO(text, { zone: "UTC" }), text)
       : undefined;
   }
 
@@ -62,7 +62,8 @@ export class ExifDate {
     if (blank(text)) return;
     text = toS(text).trim();
     for (const fmt of fmts) {
-      const dt = DateTime.fromFormat(text, fmt);
+      // The system timezone may have skipped this date:
+      const dt = DateTime.fromFormat(text, fmt, { zone: "UTC" });
       if (validDateTime(dt)) {
         return this.fromDateTime(dt, text);
       }
-- 
2.43.0


From 3064dd84c610436b82ec6656364d749c01408fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:25 +0000
Subject: [PATCH 11/30] fix: parseJSON looked up _ctor on the prototype of the
 reviver table

_ctor values such as "__proto__" or "toString" threw or replaced the value.
---
 src/JSON.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/JSON.ts b/src/JSON.ts
index 695fd3a..2c2a76a 100644
--- a/src/JSON.ts
+++ b/src/JSON.ts
@@ -44,7 +44,9 @@ export function parseJSON(s: string) {
       "_ctor" in value &&
       typeof value._ctor === "string"
     ) {
-      return Revivers[value._ctor]?.(value as JsonObject) ?? value;
+      return Object.hasOwn(Revivers, value._ctor)
+        ? (Revivers[value._ctor]?.(value as JsonObject) ?? value)
+        : value;
     }
     if (key === "invalidUtf8Bytes") {
       return reviveInvalidUtf8Bytes(value);
-- 
2.43.0


From 657b9fe01817efe4e135c1e91a551c4d9eacf90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:58 +0000
Subject: [PATCH 12/30] fix: ExifTime.setZone kept the label of the old zone

---
 src/ExifTime.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 491e734..9094b01 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -120,7 +120,7 @@ export class ExifTime {
     return ExifTime.fromDateTime(
       dt,
       this.rawValue,
-      this.zone,
+      getZoneName({ zone: dt.zone }),
       this.inferredZone,
       this.millisecond == null,
     );
-- 
2.43.0


From 8e8812f09ac247698cf3e730874be89ff9dde0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:58 +0000
Subject: [PATCH 13/30] fix: ExifTime depended on today's clock changes

On the day clocks change, a time the system or default zone skips was read,
or given a zone, as another time.
---
 src/ExifTime.ts | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 9094b01..986e33a 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -3,7 +3,7 @@ import { validDateTime } from "./DateTime";
 import { Maybe } from "./Maybe";
 import { pad2, pad3, toS } from "./String";
 import { parseDateTime, setZone, timeFormats } from "./TimeParsing";
-import { getZoneName, zoneToShortOffset } from "./Timezones";
+import { UnsetZone, getZoneName, zoneToShortOffset } from "./Timezones";
 
 /**
  * Encodes an ExifTime (which may not have a timezone offset)
@@ -12,13 +12,18 @@ export class ExifTime {
   static fromEXIF(text: string, defaultZone?: Maybe<string>): Maybe<ExifTime> {
     const s = toS(text).trim();
     if (s.length === 0) return;
-    const result = parseDateTime(text, timeFormats({ defaultZone }));
+    // Don't parse in the default zone: if its clocks change today, that would
+    // change the time.
+    const result = parseDateTime(text, timeFormats({ defaultZone: undefined }));
     if (result != null) {
+      const zone = result.unsetZone
+        ? getZoneName({ zoneName: defaultZone })
+        : getZoneName({ zone: result.dt.zone });
       return this.fromDateTime(
         result.dt,
         text,
-        result.unsetZone ? undefined : getZoneName({ zone: result.dt.zone }),
-        result.inferredZone,
+        zone,
+        result.unsetZone && zone != null,
         result.unsetMilliseconds,
       );
     }
@@ -61,18 +66,19 @@ export class ExifTime {
     this.zone = getZoneName({ zoneName });
   }
 
+  #toDateTimeObject() {
+    return {
+      hour: this.hour,
+      minute: this.minute,
+      second: this.second,
+      millisecond: this.millisecond,
+    };
+  }
+
   toDateTime(): DateTime {
-    return (this.#dt ??= DateTime.fromObject(
-      {
-        hour: this.hour,
-        minute: this.minute,
-        second: this.second,
-        millisecond: this.millisecond,
-      },
-      {
-        zone: this.zone,
-      },
-    ));
+    return (this.#dt ??= DateTime.fromObject(this.#toDateTimeObject(), {
+      zone: this.zone,
+    }));
   }
 
   /**
@@ -113,7 +119,11 @@ export class ExifTime {
   setZone(zone: string | Zone, opts?: ZoneOptions): Maybe<ExifTime> {
     const dt = setZone({
       zone,
-      src: this.toDateTime(),
+      // The system timezone may skip this time today:
+      src:
+        this.hasZone || opts?.keepLocalTime === false
+          ? this.toDateTime()
+          : DateTime.fromObject(this.#toDateTimeObject(), { zone: UnsetZone }),
       srcHasZone: this.hasZone,
       opts,
     });
-- 
2.43.0


From af00f94a916527000212c68fd5c45cee1e8f5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:58 +0000
Subject: [PATCH 14/30] fix: ExifDateTime.fromMillis deleted the caller's
 options.zone

---
 src/ExifDateTime.ts | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index e7d2fd7..02329a6 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -212,16 +212,15 @@ export class ExifDateTime {
     millis: number,
     options: DateTimeJSOptions & { rawValue?: string } = {},
   ) {
-    if (
-      options.zone == null ||
-      [UnsetZoneName, UnsetZone].includes(options.zone)
-    ) {
-      delete options.zone;
-    }
+    const zone =
+      options.zone == null || [UnsetZoneName, UnsetZone].includes(options.zone)
+        ? undefined
+        : options.zone;
     let dt = DateTime.fromMillis(millis, {
       ...omit(options, "rawValue"),
+      zone,
     });
-    if (options.zone == null) {
+    if (zone == null) {
       dt = dt.setZone(UnsetZone, { keepLocalTime: true });
     }
     // TODO: is there a way to provide an invalid millisecond value?
-- 
2.43.0


From 52744b7cce0ecf023bacdaec2dee6f2852ef61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:58 +0000
Subject: [PATCH 15/30] fix: an ExifDateTime without a zone was rendered in the
 system timezone

Local times the system timezone skips were rendered, given a zone, or moved as
if they were an hour later.
---
 src/ExifDateTime.ts | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 02329a6..2614cae 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -274,7 +274,10 @@ export class ExifDateTime {
   ): Maybe<ExifDateTime> {
     const dt = setZone({
       zone,
-      src: this.toDateTime(),
+      src:
+        opts?.keepLocalTime === false
+          ? this.toDateTime()
+          : this.#toLocalDateTime(),
       srcHasZone: this.hasZone,
       opts,
     });
@@ -316,6 +319,16 @@ export class ExifDateTime {
     }));
   }
 
+  /**
+   * Like toDateTime(), but doesn't inherit the system timezone if this instance
+   * has an unset zone: the system timezone may skip this local time.
+   */
+  #toLocalDateTime(): DateTime {
+    return this.hasZone
+      ? this.toDateTime()
+      : DateTime.fromObject(this.toDateTimeObject(), { zone: UnsetZone });
+  }
+
   toEpochSeconds(overrideZone?: Maybe<string>) {
     return this.toDateTime(overrideZone).toUnixInteger();
   }
@@ -326,7 +339,7 @@ export class ExifDateTime {
 
   toISOString(options: ToISOTimeOptions = {}): Maybe<string> {
     return denull(
-      this.toDateTime().toISO({
+      this.#toLocalDateTime().toISO({
         suppressMilliseconds:
           options.suppressMilliseconds ?? this.millisecond == null,
         includeOffset: this.hasZone && options.includeOffset !== false,
@@ -335,7 +348,7 @@ export class ExifDateTime {
   }
 
   toExifString() {
-    return dateTimeToExif(this.toDateTime(), {
+    return dateTimeToExif(this.#toLocalDateTime(), {
       includeOffset: this.hasZone,
       includeMilliseconds: this.millisecond != null,
     });
@@ -422,10 +435,7 @@ export class ExifDateTime {
   }
 
   plus(duration: DurationLike) {
-    let dt = this.toDateTime().plus(duration);
-    if (!this.hasZone) {
-      dt = dt.setZone(UnsetZone, { keepLocalTime: true });
-    }
+    const dt = this.#toLocalDateTime().plus(duration);
     return ExifDateTime.fromDateTime(dt, this);
   }
 }
-- 
2.43.0


From d6479ba6eb3a91d39ee235cb9d6613c7a68f00b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:24 +0000
Subject: [PATCH 16/30] fix: resolve a trailing "UTC" in date-time text like
 any other abbreviation

"2023:01:15 10:30:00 UTC" was refused while "... utc" and "... GMT" were read as UTC.
---
 src/Timezones.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index b9efe4f..dfb1551 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -961,9 +961,9 @@ export function extractZone(
   let strippedTza: string | undefined;
   if (
     opts?.stripTZA !== false &&
-    // We only want to strip off the TZA if the input _doesn't_ end with "UTC"
-    // or "Z"
-    !/[.\d\s](?:UTC|Z)$/.test(str)
+    // We only want to strip off the TZA if the input _doesn't_ end with "Z"
+    // ("UTC" is one of the abbreviations resolved below)
+    !/[.\d\s]Z$/.test(str)
   ) {
     const tzaMatch = str.match(/\s([a-z]{2,5})$/i);
     if (tzaMatch != null) {
-- 
2.43.0


From b3ef95f94362d47246403e0cadb309ad5f53efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:16 +0000
Subject: [PATCH 17/30] fix: honour the deprecated includeImageDataMD5 option

The default imageHashType (false) was merged in first, so the alias was never consulted.
---
 src/ExifTool.ts | 10 ++++++----
 src/ReadTask.ts |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4eb6ea3..a48a749 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -249,10 +249,10 @@ export class ExifTool {
         "Please update caller to the new ExifTool constructor API",
       );
     }
-    const o = handleDeprecatedOptions({
+    const o = {
       ...DefaultExifToolOptions,
-      ...options,
-    });
+      ...handleDeprecatedOptions({ ...options }),
+    };
 
     // Backward compatibility: if options.logger is provided, set it as the global logger
     const options_logger = options.logger;
@@ -381,7 +381,9 @@ export class ExifTool {
   ): Promise<T> {
     const opts = {
       ...pick(this.options, ...ReadTaskOptionFields),
-      ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      ...handleDeprecatedOptions({
+        ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      }),
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index 897dd70..fe3641d 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -112,10 +112,10 @@ export class ReadTask extends ExifToolTask<Tags> {
   }
 
   static for(filename: string, options: ReadTaskOptions): ReadTask {
-    const opts: Required<ReadTaskOptions> = handleDeprecatedOptions({
+    const opts: Required<ReadTaskOptions> = {
       ...DefaultReadTaskOptions,
-      ...options,
-    });
+      ...handleDeprecatedOptions({ ...options }),
+    };
     const sourceFile = _path.resolve(filename);
     const readArgs = toArray(opts.readArgs);
     const args = [
-- 
2.43.0


From dc8f03ac930cfeb35e0abd3b3ba83500c93dbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:16 +0000
Subject: [PATCH 18/30] fix: decode &#39; in tag descriptions

ExifTool escapes apostrophes as &#39;, so French and Italian descriptions showed the entity.
---
 src/TagDescriptions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index cc12083..b49d6f1 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -583,7 +583,7 @@ export class TagDescriptions {
       .replace(/&lt;/g, "<")
       .replace(/&gt;/g, ">")
       .replace(/&quot;/g, '"')
-      .replace(/&apos;/g, "'")
+      .replace(/&(?:apos|#39);/g, "'") // < ExifTool escapes ' as &#39;
       .replace(/&amp;/g, "&");
   }
 }
-- 
2.43.0


From 42fcbc9b63195c0cd84479dfa7585c743bd3e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:16 +0000
Subject: [PATCH 19/30] fix: tag descriptions were looked up on
 Object.prototype

TagDescriptions.get("constructor") returned a function.
---
 src/TagDescriptions.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index b49d6f1..6f6c98d 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -404,6 +404,11 @@ export class TagDescriptions {
     return this.#options.language === "en" ? CuratedDescriptions : {};
   }
 
+  #getCurated(tagName: string): Maybe<TagDescription> {
+    const curated = this.#curated;
+    return Object.hasOwn(curated, tagName) ? curated[tagName] : undefined;
+  }
+
   /**
    * Synchronous lookup of a tag description.
    * Returns undefined if descriptions haven't been loaded or tag is unknown.
@@ -414,7 +419,7 @@ export class TagDescriptions {
    * @returns Tag description or undefined
    */
   get(tagName: string): TagDescription | undefined {
-    return this.#curated[tagName] ?? this.#cacheSync?.get(tagName);
+    return this.#getCurated(tagName) ?? this.#cacheSync?.get(tagName);
   }
 
   /**
@@ -425,7 +430,7 @@ export class TagDescriptions {
    * @returns Promise resolving to tag description or undefined
    */
   async getAsync(tagName: string): Promise<TagDescription | undefined> {
-    return this.#curated[tagName] ?? (await this.#cache()).get(tagName);
+    return this.#getCurated(tagName) ?? (await this.#cache()).get(tagName);
   }
 
   /**
-- 
2.43.0


From 50095abd37911b4190260ba48674c71cbbf75ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 20/30] fix: extractBinaryTag honours the instance's forceWrite
 option

---
 src/ExifTool.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index a48a749..2cf581d 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -709,6 +709,7 @@ export class ExifTool {
     const maybeError = await this.enqueueTask(() =>
       BinaryExtractionTask.for(tagname, src, dest, {
         ...this.#taskOptions(),
+        ...pick(this.options, "forceWrite"),
         ...opts,
       }),
     );
-- 
2.43.0


From 2e020a42a60ca4bb4aa93919a2d3dc550386618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 21/30] fix: only a {ready} line ends a response, not {ready}
 within metadata or file names

---
 src/DefaultExifToolOptions.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DefaultExifToolOptions.ts b/src/DefaultExifToolOptions.ts
index a330767..35f13df 100644
--- a/src/DefaultExifToolOptions.ts
+++ b/src/DefaultExifToolOptions.ts
@@ -60,8 +60,12 @@ export const DefaultExifToolOptions: Omit<
   exiftoolArgs: DefaultExiftoolArgs,
   exiftoolEnv: {},
   checkPerl: !isWin32(),
-  pass: "{ready}",
-  fail: "{ready}",
+  // ExifTool ends every response with a "{ready}" line. Metadata may include
+  // the text "{ready}", but JSON values never hold a raw line break.
+  pass: /\{ready\}\r?\n/,
+  // ExifTool never emits "{ready}" to stderr, but its messages quote filenames
+  // and metadata: match nothing.
+  fail: /(?!)/,
   exitCommand: "-stay_open\nFalse\n",
   versionCommand: new VersionTask().command,
   healthCheckIntervalMillis: 30000,
-- 
2.43.0


From 05e37b0394930237bf37af228af29c0c1f105a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 22/30] fix: decode multibyte characters that are split across
 chunks

---
 src/ExifToolTask.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index c3557d6..dbbd12e 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -1,4 +1,5 @@
 import * as bc from "batch-cluster";
+import { StringDecoder } from "node:string_decoder";
 import { ExifToolOptions } from "./ExifToolOptions";
 import { isWarning } from "./IsWarning";
 import { Maybe } from "./Maybe";
@@ -35,6 +36,10 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
   readonly errors: string[] = [];
   readonly warnings: string[] = [];
 
+  // Multibyte characters may be split across chunks:
+  readonly #stdoutDecoder = new StringDecoder("utf8");
+  readonly #stderrDecoder = new StringDecoder("utf8");
+
   constructor(
     readonly args: string[],
     readonly options?: ExifToolTaskOptions,
@@ -44,15 +49,20 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
     );
   }
 
+  override onStdout(buf: string | Buffer): void {
+    super.onStdout(this.#stdoutDecoder.write(buf));
+  }
+
   override onStderr(buf: string | Buffer): void {
-    if (BadPerlInstallationRE.test(buf.toString())) {
+    const str = this.#stderrDecoder.write(buf);
+    if (BadPerlInstallationRE.test(str)) {
       // This isn't an error we can recover from: there's a Perl module that
       // needs to be installed. See
       // https://github.com/photostructure/exiftool-vendored.js/issues/168 for
       // details.
-      throw new Error(buf.toString());
+      throw new Error(str);
     }
-    super.onStderr(buf);
+    super.onStderr(str);
   }
 
   #parser(stdout: string, stderr: string | undefined, passed: boolean): T {
-- 
2.43.0


From c7f760da2b2471e0eac7f338826d59df6cc673ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 23/30] fix: don't mistake a quoted file name for a broken perl
 installation

---
 src/ExifToolTask.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index dbbd12e..c3052d3 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -5,7 +5,8 @@ import { isWarning } from "./IsWarning";
 import { Maybe } from "./Maybe";
 import { blank, notBlank, splitLines } from "./String";
 
-const BadPerlInstallationRE = /Can't locate \S+ in @INC/i;
+// Only at the start of a line: ExifTool's own messages may quote filenames.
+const BadPerlInstallationRE = /(?:^|\n)Can't locate \S+ in @INC/i;
 
 export type ExifToolTaskOptions = Pick<ExifToolOptions, "ignoreMinorErrors">;
 
@@ -39,6 +40,7 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
   // Multibyte characters may be split across chunks:
   readonly #stdoutDecoder = new StringDecoder("utf8");
   readonly #stderrDecoder = new StringDecoder("utf8");
+  #stderr = "";
 
   constructor(
     readonly args: string[],
@@ -55,12 +57,13 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
 
   override onStderr(buf: string | Buffer): void {
     const str = this.#stderrDecoder.write(buf);
-    if (BadPerlInstallationRE.test(str)) {
+    this.#stderr += str;
+    if (BadPerlInstallationRE.test(this.#stderr)) {
       // This isn't an error we can recover from: there's a Perl module that
       // needs to be installed. See
       // https://github.com/photostructure/exiftool-vendored.js/issues/168 for
       // details.
-      throw new Error(str);
+      throw new Error(this.#stderr);
     }
     super.onStderr(str);
   }
-- 
2.43.0


From ee33023ced91a81206a9557d58a49ae631550a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 24/30] fix: honour Settings.logger, and loggers given as
 objects or without every level

---
 src/DefaultExifToolOptions.ts |  6 +++++-
 src/ExifTool.ts               |  5 ++++-
 src/Settings.ts               | 25 +++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/DefaultExifToolOptions.ts b/src/DefaultExifToolOptions.ts
index 35f13df..bdffaa7 100644
--- a/src/DefaultExifToolOptions.ts
+++ b/src/DefaultExifToolOptions.ts
@@ -9,6 +9,7 @@ import { exiftoolPath } from "./ExiftoolPath";
 import { geoTz } from "./GeoTz";
 import { isWin32 } from "./IsWin32";
 import { Omit } from "./Omit";
+import { completeLogger, Settings } from "./Settings";
 import { Tags } from "./Tags";
 import { VersionTask } from "./VersionTask";
 
@@ -23,8 +24,11 @@ export const ConsoleLogger: bc.Logger = {
   error: console.error,
 };
 
+// Follow changes to Settings.logger:
+const settingsLogger = completeLogger(() => Settings.logger.value());
+
 function logger(): bc.Logger {
-  return debuglog("exiftool-vendored").enabled ? ConsoleLogger : bc.NoLogger;
+  return settingsLogger;
 }
 
 /**
diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 2cf581d..5f1e312 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -27,7 +27,7 @@ import {
 } from "./ReadRawTask";
 import { ReadTask, ReadTaskOptionFields, ReadTaskOptions } from "./ReadTask";
 import { RewriteAllTagsTask } from "./RewriteAllTagsTask";
-import { Settings } from "./Settings";
+import { completeLogger, Settings } from "./Settings";
 import { blank, isString, notBlank } from "./String";
 import { TagEdit } from "./TagEdit";
 import { validateTagName } from "./TagNameValidation";
@@ -261,6 +261,9 @@ export class ExifTool {
         ? options_logger
         : () => options_logger;
       Settings.logger.value = providedLogger;
+      // batch-cluster requires a thunk that returns a complete Logger:
+      const logger = completeLogger(providedLogger);
+      o.logger = () => logger;
     }
 
     const ignoreShebang = o.ignoreShebang ?? _ignoreShebang();
diff --git a/src/Settings.ts b/src/Settings.ts
index 7b572ab..6f21ff9 100644
--- a/src/Settings.ts
+++ b/src/Settings.ts
@@ -73,6 +73,26 @@ const ConsoleLogger: bc.Logger = {
   error: console.error,
 };
 
+/**
+ * Users may provide loggers that don't implement every log level.
+ *
+ * @returns a logger that forwards to the logger currently returned by `thunk`,
+ * and ignores messages for levels that logger doesn't implement.
+ */
+export function completeLogger(thunk: () => Partial<bc.Logger>): bc.Logger {
+  const at =
+    (level: keyof bc.Logger): bc.Logger["info"] =>
+    (...args) =>
+      thunk()[level]?.(...args);
+  return {
+    trace: at("trace"),
+    debug: at("debug"),
+    info: at("info"),
+    warn: at("warn"),
+    error: at("error"),
+  };
+}
+
 const defaultLogger = () => (_debuglog.enabled ? ConsoleLogger : bc.NoLogger);
 
 /**
@@ -181,3 +201,8 @@ export const Settings = {
     }
   },
 };
+
+// Tasks log to the batch-cluster global logger:
+Settings.logger.onChange(() =>
+  bc.setLogger(completeLogger(() => Settings.logger.value())),
+);
-- 
2.43.0


From 8e029583ab58e261f9bf80c394f09fdad32439d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:17 +0000
Subject: [PATCH 25/30] fix: return tags and fields that are named like members
 of Object.prototype

---
 src/ReadTask.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index fe3641d..8f8c8c7 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -240,7 +240,7 @@ export class ReadTask extends ExifToolTask<Tags> {
     for (const [key, value] of Object.entries(this.#raw)) {
       const k = this.#tagName(key);
       // Did something already set this? (like GPS tags)
-      if (key in tags) continue;
+      if (Object.hasOwn(tags, key)) continue;
       const v = this.#parseTag(k, value);
       // Note that we set `key` (which may include a group prefix):
       if (v == null) {
@@ -384,11 +384,13 @@ export class ReadTask extends ExifToolTask<Tags> {
         return value.map((ea) => this.#parseTag(tagName, ea));
       }
       if (isObject(value)) {
-        const result: Record<string, unknown> = {};
-        for (const [k, v] of Object.entries(value)) {
-          result[k] = this.#parseTag(tagName + "." + k, v);
-        }
-        return result;
+        // Assignment would invoke Object.prototype.__proto__'s setter.
+        return Object.fromEntries(
+          Object.entries(value).map(([k, v]) => [
+            k,
+            this.#parseTag(tagName + "." + k, v),
+          ]),
+        );
       }
       if (typeof value === "string") {
         const b = BinaryField.fromRawValue(value);
-- 
2.43.0


From 3538fc06b1b385e1eb658c50d43c5e7ed34ef81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 26/30] fix: compare file paths of case-insensitive platforms
 by letter case only

localeCompare with base sensitivity also ignores accents and ignorable
characters, so the tags of another file were accepted.
---
 src/File.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/File.ts b/src/File.ts
index 1df91eb..93dbd08 100644
--- a/src/File.ts
+++ b/src/File.ts
@@ -47,5 +47,7 @@ export function compareFilePaths(a: string, b: string): boolean {
   const bNorm = normalize(b);
   return isPlatformCaseSensitive()
     ? aNorm === bNorm
-    : aNorm.localeCompare(bNorm, undefined, { sensitivity: "base" }) === 0;
+    : // localeCompare() would ignore accents and ignorable characters, too:
+      aNorm.normalize("NFC").toLowerCase() ===
+        bNorm.normalize("NFC").toLowerCase();
 }
-- 
2.43.0


From a99e0f759e68890cd7054b46aeaf698224ddd65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 27/30] fix: look for exiftool.exe in the PATH on Windows

---
 src/ExiftoolPath.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExiftoolPath.ts b/src/ExiftoolPath.ts
index 49c5eea..24a9355 100644
--- a/src/ExiftoolPath.ts
+++ b/src/ExiftoolPath.ts
@@ -91,7 +91,7 @@ export async function exiftoolPath(logger?: Logger): Promise<string> {
   }
 
   // Last ditch: is there a globally installed exiftool in the PATH?
-  const fromPath = await which("exiftool");
+  const fromPath = await which("exiftool" + (isWin32() ? ".exe" : ""));
   if (fromPath != null) {
     return fromPath;
   }
-- 
2.43.0


From 0c141682ff1a62d4151d9b4825b836c0b2167190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 28/30] fix: don't invent milliseconds for loosely formatted
 date-times

---
 src/ExifDateTime.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 2614cae..7e5f193 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -153,7 +153,7 @@ export class ExifDateTime {
     ];
     const zone = notBlank(defaultZone) ? defaultZone : UnsetZone;
     for (const fmt of formats) {
-      yield { fmt: fmt, zone, inferredZone: true };
+      yield { fmt: fmt, zone, unsetMilliseconds: true, inferredZone: true };
     }
   }
 
-- 
2.43.0


From e8dc780eb315fac0192ad4e2db9bd47f3b8d7be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 29/30] fix: render years before 1000 with four digits

---
 src/DateTime.ts | 2 +-
 src/ExifDate.ts | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/DateTime.ts b/src/DateTime.ts
index 1bb34ad..0964bc6 100644
--- a/src/DateTime.ts
+++ b/src/DateTime.ts
@@ -30,7 +30,7 @@ export function dateTimeToExif(
   opts?: { includeOffset?: boolean; includeMilliseconds?: boolean },
 ): string {
   return d.toFormat(
-    "y:MM:dd HH:mm:ss" +
+    "yyyy:MM:dd HH:mm:ss" +
       (opts?.includeMilliseconds === true ? ".u" : "") +
       (opts?.includeOffset === false ? "" : "ZZ"),
   );
diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 80cf73c..20e0640 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -2,7 +2,7 @@ import { DateTime } from "luxon";
 
 import { HourMs, validDateTime } from "./DateTime";
 import { Maybe, firstDefinedThunk } from "./Maybe";
-import { blank, pad2, toS } from "./String";
+import { blank, leftPad, pad2, toS } from "./String";
 
 /**
  * Base type for year-only date
@@ -157,13 +157,14 @@ export class ExifDate {
   }
 
   toString(sep = "-"): string {
+    const year = leftPad(this.year, 4, "0");
     if (this.month == null) {
-      return `${this.year}`;
+      return year;
     }
     if (this.day == null) {
-      return `${this.year}${sep}${pad2(this.month).join("")}`;
+      return `${year}${sep}${pad2(this.month).join("")}`;
     }
-    return `${this.year}${sep}${pad2(this.month, this.day).join(sep)}`;
+    return `${year}${sep}${pad2(this.month, this.day).join(sep)}`;
   }
 
   toJSON() {
-- 
2.43.0


From 67518a3651cdc4af2d9119b8e0aa1ed184305b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 30/30] fix: don't read a time without a date as today's date

---
 src/ExifDate.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 20e0640..bd77f3f 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -31,6 +31,7 @@ export interface ExifDateFull extends ExifDateYearMonth {
 export type ExifDatePartial = ExifDateYearOnly | ExifDateYearMonth;
 
 const StrictExifRE = /^\d{1,4}:\d{1,2}:\d{1,2}|\d{1,4}-\d{1,2}-\d{1,2}$/;
+const IsoDateRE = /\d{1,4}-\d{1,2}-\d{1,2}$/;
 const YearMonthRE = /^\d{1,4}[:-]\d{1,2}$/;
 const YearOnlyRE = /^\d{1,4}$/;
 const LooseExifRE = /^\S+\s+\S+\s+\S+$/;
@@ -53,7 +54,8 @@ export class ExifDate {
     );
   }
   static fromISO(text: string): Maybe<ExifDate> {
-    return StrictExifRE.test(toS(text).trim())
+    // Luxon reads a time without a date as _today_.
+    return IsoDateRE.test(toS(text).trim())
       ? this.fromDateTime(DateTime.fromISO(text, { zone: "UTC" }), text)
       : undefined;
   }
-- 
2.43.0

