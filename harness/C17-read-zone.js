"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["ExifTool's JSON reaches the task's parser unchanged", "luxon is executed as shipped; Intl and Date are modelled (engine/intlmodel.js, engine/datemodel.js)"];
const two = (n) => (n < 10 ? "0" + n : "" + n);
function nameOf(o) {
  if (o === 0) return "UTC";
  const a = o < 0 ? -o : o;
  return (o < 0 ? "UTC-" : "UTC+") + Math.floor(a / 60) + (a % 60 === 0 ? "" : ":" + two(a % 60));
}
function reader(h, options) {
  let out = "";
  const { et } = fakeExifTool(h, { geoTz: () => undefined, ...options }, (t) => Promise.resolve().then(() => t.parser(out, "", true)));
  return (tags, perCall) => {
    out = h.jsonText([{ SourceFile: "/f.jpg", ...tags }]);
    return outcome(() => et.read("/f.jpg", perCall));
  };
}
// a zone tag's value: absent, unusable, or a whole-hour offset spelled with symbolic digits
function offsetTag(h, name, states) {
  const st = h.choice(name, states ?? ["absent", "bad", "set"]);
  if (st === "absent") return {};
  if (st === "bad") return { v: "n/a" };
  const t = h.str(name + "H", { min: 1, max: 1, ranges: [[49, 57]] });
  const neg = h.bool(name + "Neg");
  const hrs = t.charCodeAt(0) - 48;
  return { v: (neg ? "-" : "+") + "0" + t + ":00", neg, hrs, d: t };
}
const zoneOf = (x) => "UTC" + (x.neg ? "-" : "+") + x.d;
const harnesses = {};
harnesses.order = {
  claim: "the zone read() reports is the first usable of: (GPS location, when preferred), TimeZone, OffsetTimeOriginal, OffsetTimeDigitized, TimeZoneOffset, GPS location, a capture time's own non-UTC offset (unless switched off), the UTC default for videos (unless switched off); tzSource names where it came from, and there is no zone when none is usable",
  bounds: "each source absent, unusable or any whole-hour offset of 1..9 hours either way; photo or video; preferring GPS, inferring from datestamps, videos as UTC and (without explicit tags) backfilling on or off",
  reach: ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset", "gps", "datestamp", "video", "none"],
  witnessMax: 120,
  async run(h) {
    const prefer = h.bool("prefer");
    const full = h.tier === "thorough" || !prefer;
    const names = ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset"];
    const tags = {};
    const first = h.choice("first", 5); // index of the first usable explicit tag, 4: none
    let src;
    for (let i = 0; i < 4; i++) {
      const x = offsetTag(h, names[i], i < first ? ["absent", "bad"] : i === first ? ["set"] : ["absent", "set"]);
      if (x.v !== undefined) tags[names[i]] = x.v;
      if (i === first) src = { src: names[i], zone: zoneOf(x) };
    }
    const gps = full ? h.choice("gps", ["absent", "geoloc", "geotz", "invalid"]) : h.choice("gps", ["absent", "geoloc"]);
    let fromGps;
    if (gps !== "absent") {
      tags.GPSLatitude = gps === "invalid" ? 95 : 37.5;
      tags.GPSLongitude = -122.5;
      if (gps === "geoloc" || gps === "invalid") tags.GeolocationTimeZone = "America/Los_Angeles";
      if (gps === "geoloc") fromGps = { src: "GeolocationTimeZone", zone: "America/Los_Angeles" };
      if (gps === "geotz") fromGps = { src: "GPSLatitude/GPSLongitude", zone: "Asia/Kolkata" };
    }
    const ds = h.choice("ds", ["absent", "unzoned", "utc", "zoned"]);
    let stamp;
    if (ds !== "absent") {
      tags.CreateDate = "2024:06:15 10:20:30" + (ds === "utc" ? "+00:00" : ds === "zoned" ? "-03:30" : "");
      if (ds === "zoned") stamp = { src: "CreateDate", zone: "UTC-3:30" };
    }
    const infer = ds === "zoned" ? h.bool("infer") : true;
    const video = h.bool("video");
    tags.MIMEType = video ? "video/mp4" : "image/jpeg";
    const vutc = video ? h.bool("vutc") : true;
    // backfilling decides what gets the zone, not which zone the file has
    const backfill = first < 4 ? true : h.bool("backfill");
    const read = reader(h, { backfillTimezones: backfill, preferTimezoneInferenceFromGps: prefer, inferTimezoneFromDatestamps: infer, defaultVideosToUTC: vutc, geoTz: () => "Asia/Kolkata" });
    const r = await read(tags);
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    const want = (prefer ? fromGps : undefined) ?? src ?? fromGps ?? (infer ? stamp : undefined) ?? (video && vutc ? { src: "defaultVideosToUTC", zone: "UTC" } : undefined);
    h.reach(want === undefined ? "none" : want === fromGps ? "gps" : want === stamp ? "datestamp" : want === src ? src.src : "video");
    const t = r.value;
    if (want === undefined) {
      h.assert(t.zone === undefined && t.tz === undefined && t.tzSource === undefined, "a zone was invented");
      return;
    }
    h.assert(t.tzSource === want.src, "the zone comes from another source, or names another");
    h.assert(t.zone === want.zone && t.tz === want.zone, "the zone differs from its source");
  },
};
harnesses.backfill = {
  claim: "date-times without an offset get the file's zone and keep their local time, only when backfilling is on, and are marked inferred; date-times with an offset keep their own; GPS and UTC tags are UTC; in videos read as UTC the instant is kept and shown in the file's zone",
  bounds: "file zone none or any offset of 1..9 hours either way; a time at any minute of 14..16 June 2024; photo or video, backfillTimezones and defaultVideosToUTC on or off, per instance or per call",
  reach: ["kept", "own", "video", "unset"],
  witnessMax: 120,
  async run(h) {
    const backfill = h.bool("backfill");
    const video = h.bool("video");
    const vutc = video ? h.bool("vutc") : true;
    const x = offsetTag(h, "OffsetTimeOriginal", ["absent", "set"]);
    const tag = h.choice("tag", ["CreateDate", "ModifyDate", "DateTimeOriginal", "GPSDateTime", "DateTimeUTC"]);
    const own = h.bool("own");
    const dd = (name, lo, hi) => {
      const t = h.str(name, { min: 2, max: 2, ranges: [[48, 57]] });
      const v = (t.charCodeAt(0) - 48) * 10 + (t.charCodeAt(1) - 48);
      h.assume(h.and(v >= lo, v <= hi));
      return [t, v];
    };
    const [dt, d] = dd("d", 14, 16);
    const [ht, hh] = dd("hh", 0, 23);
    const [mt, mi] = dd("mi", 0, 59);
    const text = "2024:06:" + dt + " " + ht + ":" + mt + ":07" + (own ? "+04:00" : "");
    const tags = { MIMEType: video ? "video/mp4" : "image/jpeg", [tag]: text };
    if (x.v !== undefined) tags.OffsetTimeOriginal = x.v;
    const opts = { backfillTimezones: backfill, defaultVideosToUTC: vutc, inferTimezoneFromDatestamps: false };
    const perCall = h.bool("perCall");
    const read = reader(h, perCall ? { backfillTimezones: !backfill, defaultVideosToUTC: !vutc, inferTimezoneFromDatestamps: true } : opts);
    const r = await read(tags, perCall ? opts : undefined);
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    const e = r.value[tag];
    const { ExifDateTime } = h.R("ExifDateTime");
    h.assert(e instanceof ExifDateTime, "not a date-time");
    if (!(e instanceof ExifDateTime)) return;
    h.assert(e.rawValue === text, "the text ExifTool printed is lost");
    const same = h.and(e.year === 2024, e.month === 6, e.day === d, e.hour === hh, e.minute === mi, e.second === 7);
    const utcTag = tag === "GPSDateTime" || tag === "DateTimeUTC";
    const asUTC = video && vutc;
    if (own) {
      h.reach("own");
      h.assert(same, "a zoned time changed");
      h.assert(e.zone === "UTC+4" && e.tzoffsetMinutes === 240, "a time's own offset was overridden");
      h.assert(e.inferredZone === false, "a time's own offset is marked inferred");
    } else if (utcTag) {
      h.assert(same && e.zone === "UTC", "a UTC tag is not UTC");
    } else if (asUTC) {
      h.reach("video");
      const shown = backfill ? (x.v === undefined ? 0 : (x.neg ? -1 : 1) * x.hrs * 60) : 0;
      h.assert(e.tzoffsetMinutes === shown, "the video's time is shown in another zone");
      h.assert(Date.UTC(e.year, e.month - 1, e.day, e.hour, e.minute, e.second) === Date.UTC(2024, 5, d, hh, mi, 7) + shown * 60000, "the video's instant changed");
      h.assert(e.inferredZone === true, "the zone is not marked inferred");
    } else if (backfill && x.v !== undefined) {
      h.reach("kept");
      h.assert(same, "giving the zone changed the local time");
      h.assert(e.zone === zoneOf(x), "the file's zone was not used");
      h.assert(e.inferredZone === true, "the zone is not marked inferred");
    } else {
      h.reach("unset");
      h.assert(same, "the local time changed");
      h.assert(e.zone === undefined && e.tzoffsetMinutes === undefined && !e.hasZone, "a zone was invented");
    }
  },
};
harnesses.shapes = {
  claim: "the file's zone reaches date-times in lists and structures and under group-prefixed names alike; GPS and UTC times of day are UTC, whatever the file's zone; other times of day get the file's zone when backfilling is on",
  bounds: "file zone none or any offset of 1..9 hours either way, read from a plain or group-prefixed tag; a time at any minute of a day; date-times plain, in a list, a field, a list in a field or with -G; six names of times of day; backfillTimezones on or off; with an offset of their own or without",
  reach: ["dateTime", "time", "utc"],
  witnessMax: 120,
  async run(h) {
    const backfill = h.bool("backfill");
    const shape = h.choice("shape", ["plain", "list", "field", "listInField", "grouped"]);
    const x = offsetTag(h, "OffsetTimeOriginal", ["absent", "set"]);
    const tag = h.choice("tag", ["CreateDate", "DateTimeUTC", "GPSTimeStamp", "GPSDateTime", "TimeUTC", "TimeCreated", "DigitalCreationTime", "FlashTime"]);
    const dateTime = /Date/.test(tag);
    const own = h.bool("own");
    const dd = (name, hi) => {
      const t = h.str(name, { min: 2, max: 2, ranges: [[48, 57]] });
      const v = (t.charCodeAt(0) - 48) * 10 + (t.charCodeAt(1) - 48);
      h.assume(v <= hi);
      return [t, v];
    };
    const [ht, hh] = dd("hh", 23);
    const [mt, mi] = dd("mi", 59);
    const text = (dateTime ? "2024:06:15 " : "") + ht + ":" + mt + ":07" + (own ? "+04:00" : "");
    const g = shape === "grouped" ? "EXIF:" : "";
    const tags = { MIMEType: "image/jpeg", [g + tag]: shape === "list" ? ["x", text] : shape === "field" ? { F: text } : shape === "listInField" ? { F: [text] } : text };
    if (x.v !== undefined) tags[g + "OffsetTimeOriginal"] = x.v;
    const read = reader(h, { backfillTimezones: backfill, inferTimezoneFromDatestamps: false });
    const r = await read(tags, g === "" ? undefined : { readArgs: ["-fast", "-G"] });
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    const v = r.value[g + tag];
    const e = shape === "list" ? v?.[1] : shape === "field" ? v?.F : shape === "listInField" ? v?.F?.[0] : v;
    const { ExifDateTime } = h.R("ExifDateTime");
    const { ExifTime } = h.R("ExifTime");
    h.assert(e instanceof (dateTime ? ExifDateTime : ExifTime), "the date-time or time is not read as one");
    if (!(e instanceof (dateTime ? ExifDateTime : ExifTime))) return;
    const utc = /UTC|^GPS/.test(tag);
    h.reach(utc ? "utc" : dateTime ? "dateTime" : "time");
    h.assert(h.and(e.hour === hh, e.minute === mi, e.second === 7), "the local time changed");
    h.assert(e.rawValue === text, "the text ExifTool printed is lost");
    const want = own ? "UTC+4" : utc ? "UTC" : backfill && x.v !== undefined ? zoneOf(x) : undefined;
    h.assert(e.zone === want, "another zone than its own, UTC for GPS and UTC tags, or the file's when backfilling");
    if (want !== undefined) h.assert((e.inferredZone === true) === !own, "the inferred mark is wrong");
  },
};
harnesses.datestamps = {
  claim: "a capture time's own offset is that of the first of the configured tags that has one other than UTC; unzoned, UTC and unreadable ones are passed over",
  bounds: "up to three of the capture tags, each absent, unreadable, unzoned, UTC (Z or +00:00) or with any offset of 1..9 hours either way, in any order in the output; with the default and with configured tags",
  reach: ["none", "first", "later"],
  async run(h) {
    const order = ["SubSecDateTimeOriginal", "DateTimeOriginal", "CreateDate"];
    const custom = h.bool("custom") ? ["CreateDate", "DateTimeOriginal"] : undefined;
    const asked = custom ?? order;
    const vals = {};
    let want;
    for (const n of asked) {
      const st = h.choice(n, want === undefined ? ["absent", "bad", "unzoned", "z", "zero", "set"] : ["absent", "zero", "set"]);
      if (st === "absent") continue;
      const t = "2024:06:15 10:20:30" + (n.startsWith("SubSec") ? ".12" : "");
      if (st !== "set") vals[n] = st === "bad" ? "0000:00:00 00:00:00" : t + (st === "z" ? "Z" : st === "zero" ? "+00:00" : "");
      else {
        const d = h.str(n + "H", { min: 1, max: 1, ranges: [[49, 57]] });
        const neg = h.bool(n + "Neg");
        vals[n] = t + (neg ? "-0" : "+0") + d + ":00";
        want ??= { src: n, zone: "UTC" + (neg ? "-" : "+") + d };
      }
    }
    // a tag that is not asked for
    if (custom !== undefined) vals.SubSecDateTimeOriginal = "2024:06:15 10:20:30.12+08:00";
    const ks = Object.keys(vals);
    if (h.bool("reversed")) ks.reverse();
    const tags = { MIMEType: "image/jpeg" };
    for (const k of ks) tags[k] = vals[k];
    const r = await reader(h, { inferTimezoneFromDatestamps: true, inferTimezoneFromTimeStamp: false, ...(custom === undefined ? {} : { inferTimezoneFromDatestampTags: custom }) })(tags);
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    h.reach(want === undefined ? "none" : want.src === asked[0] ? "first" : "later");
    h.assert(r.value.tzSource === want?.src && r.value.zone === want?.zone && r.value.tz === want?.zone, "the zone is not the first capture time's own");
  },
};
harnesses.values = {
  claim: "zone tags are understood in each form ExifTool prints: text offsets, IANA names, numbers of hours, one or two hours in TimeZoneOffset (the first is the capture time's); Nikon's DaylightSavings adds its hour to TimeZone",
  bounds: "TimeZoneOffset any whole hours -13..16, as number, text, list or two-value text; TimeZone any of 1..9 hours either way with DaylightSavings Yes, No, true or absent and 4 makes",
  reach: ["zone", "none", "dst"],
  async run(h) {
    const form = h.choice("form", ["number", "text", "list", "two", "dst"]);
    const tags = {};
    const read = reader(h, {});
    if (form === "dst") {
      const x = offsetTag(h, "TimeZone", ["set"]);
      tags.TimeZone = x.v;
      const dst = h.choice("dst", [undefined, "Yes", "No", true, false]);
      const make = h.choice("make", [undefined, "NIKON CORPORATION", "Nikon", "Canon"]);
      if (dst !== undefined) tags.DaylightSavings = dst;
      if (make !== undefined) tags.Make = make;
      const r = await read(tags);
      h.assert(r.ok, "read rejected readable output");
      if (!r.ok) return;
      const adj = (dst === "Yes" || dst === true) && make !== undefined && make !== "Canon";
      if (adj) h.reach("dst");
      const o = (x.neg ? -1 : 1) * x.hrs * 60 + (adj ? 60 : 0);
      h.assert(h.R("Timezones").parseTimezoneOffsetToMinutes(r.value.zone) === o, "daylight saving was not applied, or applied to another camera");
      h.assert(r.value.tzSource === "TimeZone" + (adj ? " (adjusted for DaylightSavings)" : ""), "the source does not say how the zone was found");
      return;
    }
    const n = h.int("n", -13, 16);
    tags.TimeZoneOffset = form === "number" ? n : form === "list" ? [n, 5] : (n < 0 ? "-" + -n : "" + n) + (form === "two" ? " 5" : "");
    if (form === "text") h.assume(n < 0);
    const r = await read(tags);
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    const good = h.and(n >= -11, n <= 14);
    h.reach(r.value.zone === undefined ? "none" : "zone");
    h.assert(h.eq(r.value.zone !== undefined, good), "an offset in use was refused or another accepted");
    if (r.value.zone === undefined) return;
    h.assert(r.value.zone === nameOf(n * 60), "the offset was read as another zone");
    h.assert(r.value.tzSource === "TimeZoneOffset", "the source names another tag");
  },
};
exports.harnesses = harnesses;
