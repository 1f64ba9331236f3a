"use strict";
exports.assumptions = ["luxon is executed as shipped; Intl and Date are modelled (engine/intlmodel.js, engine/datemodel.js)"];
const V = "-1100 -1000 -0930 -0900 -0830 -0800 -0700 -0600 -0500 -0400 -0330 -0300 -0230 -0200 -0100 +0000 +0100 +0200 +0300 +0330 +0400 +0430 +0500 +0530 +0545 +0600 +0630 +0700 +0800 +0830 +0845 +0900 +0930 +0945 +1000 +1030 +1100 +1200 +1245 +1300 +1345 +1400".split(" ");
const ARCHAIC = "-1030 -0430 -0044 +0020 +0030 +0124 +0130 +0230 +0451 +0540 +0720 +0730".split(" ");
const mins = (s) => (s[0] === "-" ? -1 : 1) * (Number(s.slice(1, 3)) * 60 + Number(s.slice(3)));
const VALID = V.map(mins);
const ARCH = ARCHAIC.map(mins).concat([-(25 + 21 / 60)]);
const two = (n) => (n < 10 ? "0" + n : "" + n);
function nameOf(o) {
  if (o === 0) return "UTC";
  const a = o < 0 ? -o : o;
  return (o < 0 ? "UTC-" : "UTC+") + Math.floor(a / 60) + (a % 60 === 0 ? "" : ":" + two(a % 60));
}
// r is one of the nearest of list to x, at most lim away; undefined iff none is
function nearest(h, list, x, lim, r, what) {
  let any = false;
  for (const v of list) any = h.or(any, h.and(x - v <= lim, v - x <= lim));
  h.assert(h.eq(r !== undefined, any), what + ": an offset was inferred from a difference too far from any, or a near one was missed");
  if (r === undefined) return;
  let member = false;
  let best = true;
  const d = h.abs(x - r);
  for (const v of list) {
    member = h.or(member, r === v);
    best = h.and(best, d <= h.abs(x - v));
  }
  h.assert(member, what + ": the inferred offset is not one in use");
  h.assert(best, what + ": a nearer offset in use exists");
}
function dd(h, name, lo, hi) {
  const t = h.str(name, { min: 2, max: 2, ranges: [[48, 57]] });
  const v = (t.charCodeAt(0) - 48) * 10 + (t.charCodeAt(1) - 48);
  h.assume(h.and(v >= lo, v <= hi));
  return [t, v];
}
// a moment in June 2024, as text
function moment(h, k) {
  const [d, dv] = dd(h, "d" + k, 14, 16);
  const [H, Hv] = dd(h, "h" + k, 0, 23);
  const [m, mv] = dd(h, "m" + k, 0, 59);
  const [s, sv] = dd(h, "s" + k, 0, 59);
  return { date: "2024:06:" + d, time: H + ":" + m + ":" + s, secs: dv * 86400 + Hv * 3600 + mv * 60 + sv };
}
const harnesses = {};
harnesses.nearest = {
  claim: "inferLikelyOffsetMinutes answers a nearest offset in use, no farther than the limit, and nothing when there is none",
  bounds: "differences any whole second within +-1100 minutes; limit default, set through Settings or given, 0..90 minutes; archaic and Baker Island offsets on or off",
  reach: ["found", "none"],
  async run(h) {
    const { Settings } = h.R("Settings");
    const TZ = h.R("Timezones");
    const archaic = h.bool("archaic");
    const baker = h.bool("baker");
    TZ.inferLikelyOffsetMinutes(60);
    Settings.allowArchaicTimezoneOffsets.value = archaic;
    Settings.allowBakerIslandTime.value = baker;
    const how = h.choice("how", ["default", "settings", "given"]);
    const lim = how === "default" ? 30 : h.choice("lim", h.tier === "thorough" ? [0, 5, 15, 45, 90] : [0, 15, 45]);
    if (how === "settings") Settings.maxValidOffsetMinutes.value = lim;
    else Settings.maxValidOffsetMinutes.value = 30;
    const x = h.int("x", -66000, 66000) / 60;
    const r = how === "given" ? TZ.inferLikelyOffsetMinutes(x, lim) : TZ.inferLikelyOffsetMinutes(x);
    h.reach(r === undefined ? "none" : "found");
    const list = VALID.concat(archaic ? ARCH : [], baker ? [-720] : []);
    nearest(h, list, x, lim, r, "inferLikelyOffsetMinutes");
    h.assert(TZ.inferLikelyOffsetMinutes(undefined) === undefined, "an offset was invented");
  },
};
const LOCAL = ["SubSecDateTimeOriginal", "SubSecCreateDate", "DateTimeOriginal", "CreateDate", "MediaCreateDate", "CreationDate", "DateTimeCreated"];
harnesses.fromUTC = {
  claim: "the zone inferred from a local capture time and a UTC time is the nearest offset in use to local minus UTC, within 30 minutes, named with the two tags it came from; no zone is inferred without both",
  bounds: "any two seconds of 14..16 June 2024; capture time in one of 7 tags, UTC time in GPSDateTime, DateTimeUTC, SonyDateTime2 or GPSDateStamp with GPSTimeStamp, with or without a UTC suffix",
  reach: ["found", "none"],
  async run(h) {
    const TZ = h.R("Timezones");
    const tag = h.choice("tag", LOCAL);
    const src = tag === "DateTimeOriginal" ? h.choice("src", ["GPSDateTime", "DateTimeUTC", "SonyDateTime2", "stamps"]) : "GPSDateTime";
    const a = moment(h, "a");
    const b = moment(h, "b");
    const tags = { Make: "x" };
    tags[tag] = a.date + " " + a.time;
    const suffix = src === "stamps" ? "" : h.choice("suffix", ["", "Z", "+00:00"]);
    if (src === "stamps") {
      tags.GPSDateStamp = b.date;
      tags.GPSTimeStamp = b.time;
    } else tags[src] = b.date + " " + b.time + suffix;
    const r = TZ.extractTzOffsetFromUTCOffset(tags);
    const x = (a.secs - b.secs) / 60;
    h.reach(r === undefined ? "none" : "found");
    nearest(h, VALID, x, 30, r === undefined ? undefined : TZ.parseTimezoneOffsetToMinutes(r.zone), "extractTzOffsetFromUTCOffset");
    if (r === undefined) return;
    h.assert(r.tz === r.zone, "tz and zone differ");
    h.assert(r.src === "offset between " + tag + " and " + (src === "stamps" ? "GPSDateTimeStamp" : src), "the source names other tags");
  },
};
harnesses.which = {
  claim: "of several capture and UTC times the documented first usable one of each decides; one that carries another zone, or is no date-time, is passed over",
  bounds: "each of 3 capture tags and 3 UTC tags absent, usable, zoned or unreadable; differences by whole hours",
  reach: ["found", "none"],
  async run(h) {
    const TZ = h.R("Timezones");
    const tags = {};
    let local;
    let utc;
    const cap = ["DateTimeOriginal", "CreateDate", "DateTimeCreated"];
    const hrs = [3, 5, 8];
    for (let i = 0; i < 3; i++) {
      const st = h.choice("c" + i, ["absent", "usable", "zoned", "bad"]);
      if (st === "absent") continue;
      tags[cap[i]] = st === "bad" ? "nope" : "2024:06:15 1" + hrs[i] + ":00:00" + (st === "zoned" ? "+02:00" : "");
      if (st === "usable" && local === undefined) local = i;
    }
    const us = ["GPSDateTime", "DateTimeUTC", "SonyDateTime2"];
    for (let i = 0; i < 3; i++) {
      const st = h.choice("u" + i, ["absent", "usable", "zoned", "bad"]);
      if (st === "absent") continue;
      tags[us[i]] = st === "bad" ? "nope" : "2024:06:15 1" + i + ":00:00" + (st === "zoned" ? "+02:00" : "");
      if (st === "usable" && utc === undefined) utc = i;
    }
    const r = TZ.extractTzOffsetFromUTCOffset(tags);
    h.reach(r === undefined ? "none" : "found");
    if (local === undefined || utc === undefined) {
      h.assert(r === undefined, "a zone was inferred without a usable pair");
      return;
    }
    h.assert(r !== undefined && r.zone === nameOf((hrs[local] - utc) * 60), "the zone is not from the first usable pair");
    h.assert(r !== undefined && r.src === "offset between " + cap[local] + " and " + us[utc], "the source names other tags");
  },
};
exports.harnesses = harnesses;
