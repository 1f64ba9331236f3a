"use strict";
exports.assumptions = ["ICU's list of time zone names is the one in engine/zones.json (names outside the list's alphabet do not occur in the bounds)"];

// the offsets in use, transcribed from the documentation: hours and minutes
const V = "-1100 -1000 -0930 -0900 -0830 -0800 -0700 -0600 -0500 -0400 -0330 -0300 -0230 -0200 -0100 +0000 +0100 +0200 +0300 +0330 +0400 +0430 +0500 +0530 +0545 +0600 +0630 +0700 +0800 +0830 +0845 +0900 +0930 +0945 +1000 +1030 +1100 +1200 +1245 +1300 +1345 +1400".split(" ");
const ARCHAIC = "-1030 -0430 -0044 +0020 +0030 +0124 +0130 +0230 +0451 +0540 +0720 +0730".split(" ");
const mins = (s) => (s[0] === "-" ? -1 : 1) * (Number(s.slice(1, 3)) * 60 + Number(s.slice(3)));
const VALID = V.map(mins);
const ARCH = ARCHAIC.map(mins);
function isValid(h, o, archaic, baker) {
  let r = false;
  for (const v of VALID) r = h.or(r, o === v);
  if (archaic) for (const v of ARCH) r = h.or(r, o === v);
  if (baker) r = h.or(r, o === -720);
  return r;
}
// the name the library documents for an offset
function nameOf(o) {
  if (o === 0) return "UTC";
  const a = o < 0 ? -o : o;
  const hh = Math.floor(a / 60);
  const mm = a % 60;
  return (o < 0 ? "UTC-" : "UTC+") + hh + (mm === 0 ? "" : ":" + (mm < 10 ? "0" : "") + mm);
}
const two = (n) => (n < 10 ? "0" + n : "" + n);
function settings(h) {
  const archaic = h.bool("archaic");
  const baker = h.bool("baker");
  const { Settings } = h.R("Settings");
  Settings.allowArchaicTimezoneOffsets.value = archaic;
  Settings.allowBakerIslandTime.value = baker;
  return { archaic, baker };
}
const harnesses = {};
harnesses.offsets = {
  claim: "every spelling of a UTC offset is recognised exactly when the offset is in use (or enabled by Settings), as the same zone by normalizeZone, extractZone and a date-time suffix; impossible hours, minutes and other offsets are not a zone",
  bounds: "sign +, - or U+2212; hours 0..19, minutes absent or 00..99, one- or two-digit hours, with and without colon, with prefix UTC, GMT or none, both archaic and Baker Island settings",
  reach: ["zone", "none"],
  witnessMax: 60,
  async run(h) {
    const TZ = h.R("Timezones");
    const { archaic, baker } = settings(h);
    const sign = h.choice("sign", ["+", "-", "\u2212"]);
    const form = h.choice("form", ["H", "HH", "H:MM", "HH:MM", "HHMM"]);
    const prefix = h.choice("prefix", ["", "UTC", "GMT"]);
    const hh = h.int("hh", 0, form.startsWith("HH") ? 19 : 9);
    const mm = form.endsWith("MM") ? h.int("mm", 0, 99) : 0;
    const text = prefix + sign + (form.startsWith("HH") ? two(hh) : hh) + (form.includes(":") ? ":" : "") + (form.endsWith("MM") ? two(mm) : "");
    const o = (sign === "+" ? 1 : -1) * (hh * 60 + mm);
    const good = h.and(mm < 60, isValid(h, o, archaic, baker));
    const z = TZ.normalizeZone(text);
    const x = TZ.extractZone(text);
    h.reach(z === undefined ? "none" : "zone");
    h.assert(h.eq(z !== undefined, good), "normalizeZone accepts an impossible offset or refuses one in use");
    h.assert(h.eq(x !== undefined, good), "extractZone accepts an impossible offset or refuses one in use");
    if (z === undefined || x === undefined) return;
    h.assert(z.offset(0) === o, "normalizeZone reads another offset");
    h.assert(z.name === nameOf(o), "the zone's name is not the documented one");
    h.assert(h.and(x.zone === z.name, x.tz === z.name), "extractZone and normalizeZone disagree");
    h.assert(x.leftovers === undefined, "a bare offset has leftovers");
    h.assert(TZ.isUTC(z) === (o === 0), "isUTC disagrees with the offset");
  },
};
harnesses.minutes = {
  claim: "an offset in minutes is a zone exactly when it is in use (or enabled by Settings); name, zone and validity check agree and read back as the same offset",
  bounds: "every integer -2000..2000, both settings, changed between calls",
  reach: ["zone", "none"],
  async run(h) {
    const TZ = h.R("Timezones");
    if (h.bool("before")) {
      settings(h);
      TZ.normalizeZone("+05:00");
      TZ.validTzOffsetMinutes(60);
      TZ.inferLikelyOffsetMinutes(1);
    }
    const { Settings } = h.R("Settings");
    const archaic = h.bool("archaic2");
    const baker = h.bool("baker2");
    Settings.allowArchaicTimezoneOffsets.value = archaic;
    Settings.allowBakerIslandTime.value = baker;
    const o = h.int("o", -2000, 2000);
    const good = isValid(h, o, archaic, baker);
    const z = TZ.normalizeZone(o);
    h.reach(z === undefined ? "none" : "zone");
    h.assert(h.eq(z !== undefined, good), "normalizeZone accepts an offset not in use or refuses one that is");
    h.assert(h.eq(TZ.validTzOffsetMinutes(o), good), "validTzOffsetMinutes disagrees");
    const n = TZ.offsetMinutesToZoneName(o);
    h.assert(h.eq(n !== undefined, good), "offsetMinutesToZoneName disagrees");
    if (z === undefined || n === undefined) return;
    h.assert(h.and(z.offset(0) === o, z.name === n, n === nameOf(o)), "the zone's name or offset differs");
    h.assert(TZ.parseTimezoneOffsetToMinutes(n) === o, "the name does not read back as the offset");
    const back = TZ.normalizeZone(n);
    h.assert(back !== undefined && back.offset(0) === o, "the name is not accepted back");
    h.assert(TZ.equivalentZones(n, o), "a zone is not equivalent to itself");
    const short = TZ.zoneToShortOffset(n);
    const a = o < 0 ? -o : o;
    h.assert(short === (o < 0 ? "-" : "+") + two(Math.floor(a / 60)) + ":" + two(a % 60), "zoneToShortOffset differs");
  },
};
harnesses.hours = {
  claim: "a numeric TimeZone-style value is hours east of UTC: a zone exactly when that offset is in use; lists use their first value",
  bounds: "hours any multiple of 1/4 in -20..20; alone, first of a list, after nulls in a list",
  reach: ["zone", "none"],
  async run(h) {
    const TZ = h.R("Timezones");
    const q = h.int("q", -80, 80);
    const shape = h.choice("shape", ["plain", "list", "nulls"]);
    const v = q / 4;
    const x = TZ.extractZone(shape === "plain" ? v : shape === "list" ? [v, 9] : [null, undefined, v, 9]);
    const o = q * 15;
    const good = isValid(h, o, false, false);
    h.reach(x === undefined ? "none" : "zone");
    h.assert(h.eq(x !== undefined, good), "an hour offset not in use was accepted, or one in use refused");
    if (x !== undefined) h.assert(x.zone === nameOf(o), "the hour offset was read as another zone");
  },
};
harnesses.suffix = {
  claim: "the zone at the end of a date-time text is extracted and the rest of the text is returned unchanged; a text that merely contains Z or an impossible offset has no zone",
  bounds: "a date-time, optional blank, and a suffix: any sign, hours 00..19 and minutes 00..99, Z, UTC, or up to 4 letters; optionally followed by a time zone abbreviation",
  reach: ["zone", "none"],
  witnessMax: 60,
  async run(h) {
    const TZ = h.R("Timezones");
    const base = h.choice("base", ["2023:01:15 10:30:00", "10:30:00.123", "2024-02-29T23:59:59"]);
    const blank = h.choice("blank", ["", " "]);
    const kind = h.choice("kind", ["offset", "Z", "word"]);
    let text = base + blank;
    let good = true;
    let o = 0;
    if (kind === "offset") {
      const sign = h.choice("sign", ["+", "-", "\u2212"]);
      const colon = h.choice("colon", [":", ""]);
      const hh = h.int("hh", 0, 19);
      const mm = h.int("mm", 0, 99);
      text += sign + two(hh) + colon + two(mm);
      o = (sign === "+" ? 1 : -1) * (hh * 60 + mm);
      good = h.and(mm < 60, isValid(h, o, false, false));
      if (h.bool("tza")) text += " PDT";
      else h.reach("zone");
      if (text.endsWith("PDT")) {
        // the abbreviation decides only when there is no usable offset
        const x = TZ.extractZone(text);
        h.assert(x !== undefined, "neither the offset nor the abbreviation was understood");
        if (x === undefined) return;
        const viaTza = x.src === "tzAbbreviation";
        h.assert(h.eq(!viaTza, good), "the abbreviation overrides a valid offset, or an impossible offset is used");
        h.assert(x.zone === (viaTza ? "UTC-7" : nameOf(o)), "the wrong zone was extracted");
        return;
      }
    } else if (kind === "Z") text += "Z";
    else {
      const w = h.str("w", { min: 1, max: 4, ranges: [[97, 122]] });
      const L = h.choice("L", ["Z", "Q", "x"]);
      text += L + w;
      good = false;
      // known abbreviations are looked up when they stand alone
      if (blank === " ") return;
    }
    const x = TZ.extractZone(text);
    h.reach(x === undefined ? "none" : "zone");
    h.assert(h.eq(x !== undefined, good), "a zone was invented or missed");
    if (x === undefined) return;
    h.assert(x.zone === nameOf(o) && x.tz === x.zone, "the wrong zone was extracted");
    h.assert(x.leftovers !== undefined && x.leftovers.trim() === base, "the rest of the text changed");
  },
};
harnesses.names = {
  claim: "every IANA zone name is recognised as itself; names that are no zone are refused, never guessed",
  bounds: "a list of 40 IANA names of every shape (hyphens, digits, plus signs, three parts) with one character optionally replaced by any letter, digit, underscore or hyphen",
  reach: ["zone", "none"],
  async run(h) {
    const TZ = h.R("Timezones");
    const all = require("../engine/zones.json").filter((n) => !/^(?:UTC|GMT|Zulu|Etc\/UTC)$/i.test(n) && !/^GMT/.test(n) && /\//.test(n));
    const pick = all.filter((n, i) => /[-+0-9]/.test(n) || n.split("/").length > 2 || i % (h.tier === "thorough" ? 3 : 24) === 0);
    const n = h.choice("n", pick);
    let text = n;
    const edit = h.bool("edit");
    if (edit) {
      const at = h.tier === "thorough" ? h.choice("at", n.length) : h.choice("at", [0, n.length - 1].concat(n.length >> 1));
      const c = h.str("c", { min: 1, max: 1, ranges: [[45, 45], [48, 57], [65, 90], [95, 95], [97, 122]] });
      text = n.slice(0, at) + c + n.slice(at + 1);
    }
    const known = require("../engine/zones.json");
    const z = TZ.normalizeZone(text);
    h.reach(z === undefined ? "none" : "zone");
    if (!edit) {
      h.assert(z !== undefined && z.name === n, "an IANA zone name is not recognised");
      const x = TZ.extractZone(text);
      h.assert(x !== undefined && x.zone === n && x.leftovers === undefined, "extractZone reads an IANA name as something else");
      return;
    }
    if (z !== undefined) {
      let member = false;
      for (const k of known) if (k.length === n.length) member = h.or(member, text.toLowerCase() === k.toLowerCase());
      h.assert(member, "a name that is no zone was accepted");
    }
  },
};
// the abbreviations the documentation lists as unambiguous, minutes east of UTC
const ABBR = {};
for (const [o, names] of Object.entries({ "-600": "HST", "-540": "AKST", "-480": "PST AKDT", "-420": "MST PDT", "-360": "MDT", "-300": "EST CDT COT PET", "-240": "EDT VET BOT CLT", "-210": "NST", "-180": "ADT CLST ART BRT UYT", "-150": "NDT", "-60": "CVT AZOT", 0: "UTC GMT WET", 60: "WEST CET WAT", 120: "CEST EET CAT SAST", 180: "EEST MSK TRT EAT", 210: "IRST", 240: "MUT SCT", 270: "IRDT AFT", 300: "PKT", 345: "NPT", 390: "MMT", 420: "ICT", 480: "SGT HKT PHT AWST", 540: "JST KST", 570: "ACST", 600: "AEST", 630: "ACDT", 660: "AEDT", 720: "NZST", 765: "CHAST", 780: "NZDT", 825: "CHADT" })) for (const n of names.split(" ")) ABBR[n] = Number(o);
harnesses.abbrev = {
  claim: "a time followed by an abbreviation has the zone the documentation gives that abbreviation, in any case of letters, or the offset Settings.tzAbbreviationOffsets gives it; any other word, and an override that is no offset in use, is no zone; the time is returned unchanged",
  bounds: "every documented abbreviation, every other word of 2..5 letters, in any mix of case; Settings override absent, for the word (any minutes -900..900) or for another",
  reach: ["zone", "none", "override"],
  witnessMax: 80,
  async run(h) {
    const TZ = h.R("Timezones");
    const { Settings } = h.R("Settings");
    const base = h.choice("base", ["2023:01:15 10:30:00", "10:30:00.123"]);
    const known = Object.keys(ABBR);
    const k = h.choice("known", known.concat([null]));
    let word;
    let isKnown = false;
    if (k !== null) {
      isKnown = true;
      const form = h.choice("case", ["upper", "lower", "mixed"]);
      word = form === "upper" ? k : form === "lower" ? k.toLowerCase() : k[0] + k.slice(1).toLowerCase();
    } else {
      word = h.str("w", { min: 2, max: 5, ranges: [[65, 90]] });
      for (const n of known) h.assume(word !== n);
    }
    const ov = k !== null || h.tier === "thorough" ? h.choice("override", ["none", "this", "other"]) : "none";
    const om = ov === "this" ? h.int("om", -900, 900) : 0;
    Settings.tzAbbreviationOffsets.value = ov === "none" ? {} : ov === "other" ? { QQX: 60 } : { [k === null ? "QQZ" : k]: om };
    if (k === null && ov === "this") h.assume(word !== "QQZ");
    if (k === null && ov === "other") h.assume(word !== "QQX");
    const x = TZ.extractZone(base + " " + word);
    const eff = isKnown && ov === "this" ? om : isKnown ? ABBR[k] : undefined;
    const good = eff === undefined ? false : isValid(h, eff, false, false);
    h.reach(x === undefined ? "none" : ov === "this" ? "override" : "zone");
    h.assert(h.eq(x !== undefined, good), "an abbreviation was not understood, or a word that is none was");
    if (x === undefined) return;
    h.assert(h.and(x.zone === nameOf(eff), x.tz === x.zone), "the abbreviation was read as another zone");
    h.assert(x.leftovers === base, "the rest of the text changed");
    const off = TZ.extractZone(base + " " + word, { stripTZA: false });
    h.assert(off === undefined, "an abbreviation was used although stripping is off");
  },
};
exports.harnesses = harnesses;
