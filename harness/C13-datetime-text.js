"use strict";
exports.assumptions = ["luxon is executed as shipped; Intl and Date are modelled (engine/intlmodel.js, engine/datemodel.js)"];
const OFFS = [-660, -570, -480, -210, -60, 0, 60, 330, 345, 480, 585, 765, 840];
const two = (n) => (n < 10 ? "0" + n : "" + n);
const three = (n) => (n < 10 ? "00" + n : n < 100 ? "0" + n : "" + n);
const off = (o) => (o < 0 ? "-" : "+") + two(Math.floor((o < 0 ? -o : o) / 60)) + ":" + two((o < 0 ? -o : o) % 60);
function nameOf(o) {
  if (o === 0) return "UTC";
  const a = o < 0 ? -o : o;
  return (o < 0 ? "UTC-" : "UTC+") + Math.floor(a / 60) + (a % 60 === 0 ? "" : ":" + two(a % 60));
}
const leap = (h, y) => h.or(h.and(y % 4 === 0, y % 100 !== 0), y % 400 === 0);
// a day that exists, as a formula
function realDay(h, y, mo, d) {
  const short = h.or(mo === 4, mo === 6, mo === 9, mo === 11);
  const ok = h.and(mo >= 1, mo <= 12, d >= 1, d <= 31);
  const feb = h.or(d <= 28, h.and(d === 29, leap(h, y)));
  return h.and(ok, h.or(mo !== 2, feb), h.or(h.not(short), d <= 30));
}
function inst(h, ExifDateTime, y, mo, d, hh, mi, s, ms, o, inferred) {
  return new ExifDateTime(y, mo, d, hh, mi, s, ms, o, "raw", o === undefined ? undefined : nameOf(o), inferred);
}
// two decimal digits and the number they spell
function dd(h, name, lo, hi) {
  const t = h.str(name, { min: 2, max: 2, ranges: [[48, 57]] });
  const v = (t.charCodeAt(0) - 48) * 10 + (t.charCodeAt(1) - 48);
  h.assume(h.and(v >= lo, v <= hi));
  return [t, v];
}
const harnesses = {};
harnesses.parse = {
  claim: "text with a date and a time is read as exactly those fields, its own zone if it has one, else the default zone (marked inferred), else no zone; a date or time that does not exist is refused, never shifted to another one",
  bounds: "years 1900..2099, months, days, hours (not 24), minutes and seconds any two digits, EXIF and ISO separators, no fraction or 1..4 digits (6 thorough), zone none, Z or one of 13 offsets, default zone none or one of 3",
  reach: ["read", "refused"],
  witnessMax: 120,
  async run(h) {
    const { ExifDateTime } = h.R("ExifDateTime");
    const form = h.choice("form", ["exif", "iso", "isospace"]);
    const sep = form === "exif" ? ":" : "-";
    const via = h.choice("via", form === "exif" ? ["from", "fromEXIF"] : form === "iso" ? ["fromISO"] : ["from", "fromExifStrict"]);
    // one group of fields at a time may be impossible
    const wild = h.choice("wild", ["date", "time"]);
    const date = wild === "date";
    const [yt, yy] = dd(h, "y", 0, 99);
    const cent = h.choice("cent", date ? ["19", "20"] : ["20"]);
    const y = Number(cent) * 100 + yy;
    const [mot, mo] = dd(h, "mo", date ? 0 : 1, date ? 99 : 12);
    const [dt, d] = dd(h, "d", date ? 0 : 1, date ? 99 : 28);
    const [ht, hh] = dd(h, "hh", 0, date ? 23 : 99);
    const [mit, mi] = dd(h, "mi", 0, date ? 59 : 99);
    h.assume(hh !== 24); // 24:00 is the following midnight in ISO 8601
    const tf = h.choice("tf", ["m", "s", "f"]);
    let st = "";
    let s = 0;
    if (tf !== "m") [st, s] = dd(h, "s", 0, date ? 59 : 99);
    let text = cent + yt + sep + mot + sep + dt + (form === "iso" ? "T" : " ") + ht + ":" + mit;
    if (tf !== "m") text += ":" + st;
    let ms;
    if (tf === "f") {
      const n = h.tier === "thorough" ? h.choice("n", [1, 2, 3, 4, 6]) : h.choice("n", date ? [3] : [1, 3, 4]);
      const digs = h.str("f", { min: n, max: n, ranges: [[48, 57]] });
      text += "." + digs;
      ms = 0;
      for (let i = 0; i < 3; i++) ms = ms * 10 + (i < n ? digs.charCodeAt(i) - 48 : 0);
    }
    const zk = wild === "date" || via !== "from" ? h.choice("zk", ["none", "off"]) : h.choice("zk", ["none", "Z", "off"]);
    let o;
    if (zk === "Z") {
      text += "Z";
      o = 0;
    } else if (zk === "off") {
      o = h.choice("o", tf !== "s" || date ? [-210, 345] : OFFS);
      text += off(o);
    }
    const dz = o !== undefined ? "UTC+3" : h.choice("dz", cent === "19" ? [undefined, "UTC+3"] : [undefined, "UTC+3", "Asia/Kolkata"]);
    const r = ExifDateTime[via](text, dz);
    const good = h.and(realDay(h, y, mo, d), hh <= 23, mi <= 59, s <= 59);
    h.reach(r === undefined ? "refused" : "read");
    h.assert(h.eq(r !== undefined, good), "a date-time that exists was refused, or one that does not exist was read as another");
    if (r === undefined) return;
    h.assert(h.and(r.year === y, r.month === mo, r.day === d, r.hour === hh, r.minute === mi, r.second === s), "a field differs from the text");
    h.assert(h.eq(r.millisecond === undefined, ms === undefined), "milliseconds were invented or lost");
    if (ms !== undefined) h.assert(r.millisecond === ms, "the milliseconds differ from the text");
    h.assert(r.rawValue.trim() === text, "rawValue is not the text");
    const want = o !== undefined ? nameOf(o) : dz;
    h.assert(r.zone === want, "the zone is not the text's own, or not the default");
    h.assert(r.hasZone === (want !== undefined), "hasZone disagrees with the zone");
    h.assert((r.inferredZone === true) === (o === undefined && dz !== undefined), "inferredZone does not tell the text's zone from the default");
    h.assert(r.tzoffsetMinutes === (o !== undefined ? o : dz === undefined ? undefined : dz === "UTC+3" ? 180 : 330), "tzoffsetMinutes differs");
    h.assert(r.isValid === true, "not valid");
  },
};
harnesses.format = {
  claim: "toISOString and toExifString render exactly the fields and the offset, and reading either text gives the same date-time back; the epoch value is the UTC fields minus the offset",
  bounds: "years 1980..2099, every existing date and time, milliseconds absent or 0..999, no zone or one of 13 offsets",
  reach: ["zoned", "unzoned"],
  async run(h) {
    const { ExifDateTime } = h.R("ExifDateTime");
    // the number of digits of every field is a case of its own: vary the date
    // or the time
    const wild = h.choice("wild", ["date", "time", "zone"]);
    const y = h.int("y", 1980, 2099);
    const mo = h.int("mo", wild === "date" ? 1 : 10, 12);
    const d = h.int("d", wild === "date" ? 1 : 10, 31);
    const hh = h.int("hh", wild === "time" ? 0 : 10, 23);
    const mi = h.int("mi", wild === "time" ? 0 : 10, 59);
    const s = h.int("s", wild === "time" ? 0 : 10, 59);
    h.assume(realDay(h, y, mo, d));
    const ms = wild !== "date" && h.bool("hasMs") ? h.int("ms", wild === "zone" ? 100 : 0, 999) : undefined;
    const o = h.choice("o", wild === "zone" ? [undefined].concat(OFFS) : [undefined, -210, 345]);
    const e = inst(h, ExifDateTime, y, mo, d, hh, mi, s, ms, o, false);
    h.reach(o === undefined ? "unzoned" : "zoned");
    const time = two(hh) + ":" + two(mi) + ":" + two(s) + (ms === undefined ? "" : "." + three(ms));
    const what = h.choice("what", ["iso", "exif", "epoch", "suppress"]);
    if (what === "epoch") {
      if (o !== undefined) {
        h.assert(e.toMillis() === Date.UTC(y, mo - 1, d, hh, mi, s, ms === undefined ? 0 : ms) - o * 60000, "the epoch value is not the fields minus the offset");
        h.assert(e.toEpochSeconds() === Date.UTC(y, mo - 1, d, hh, mi, s) / 1000 - o * 60, "the epoch seconds are not the fields minus the offset");
        const at = e.toEpochSeconds("UTC+2");
        h.assert(at === Date.UTC(y, mo - 1, d, hh, mi, s) / 1000 - 7200, "the override zone is not used");
        h.assert(e.toDate().getTime() === e.toMillis(), "toDate is another instant");
      }
      return;
    }
    if (what === "suppress") {
      h.assert(e.toISOString({ includeOffset: false }) === y + "-" + two(mo) + "-" + two(d) + "T" + time, "includeOffset: false renders something else");
      return;
    }
    const date = y + (what === "iso" ? "-" : ":") + two(mo) + (what === "iso" ? "-" : ":") + two(d) + (what === "iso" ? "T" : " ");
    const zone = o === undefined ? "" : o === 0 && what === "iso" ? "Z" : off(o);
    const t = what === "iso" ? e.toISOString() : e.toExifString();
    h.assert(t === date + time + zone, "the text is not the fields and the offset");
    const b = ExifDateTime.from(t);
    h.assert(b !== undefined, "the text is not read back");
    if (b === undefined) return;
    h.assert(h.and(b.year === y, b.month === mo, b.day === d, b.hour === hh, b.minute === mi, b.second === s), "read back as other fields");
    h.assert(b.millisecond === ms, "read back with other milliseconds");
    h.assert(b.zone === e.zone && b.tzoffsetMinutes === o, "read back in another zone");
  },
};
harnesses.dates = {
  claim: "a date text is read as exactly that date (or year and month, or year), rendered back as the same text, and never shifted when it does not exist",
  bounds: "years 1000..9999, months 0..19, days 0..39; full, year-month and year-only, EXIF and ISO separators, blanks around it or not",
  reach: ["read", "refused"],
  async run(h) {
    const { ExifDate } = h.R("ExifDate");
    const kind = h.choice("kind", ["full", "month", "year"]);
    const sep = h.choice("sep", [":", "-"]);
    const y = h.int("y", 1000, 9999);
    const mo = kind === "year" ? 1 : h.int("mo", 0, 19);
    const d = kind === "full" ? h.int("d", 0, 39) : 1;
    const text = "" + y + (kind === "year" ? "" : sep + two(mo)) + (kind === "full" ? sep + two(d) : "");
    const blank = h.choice("blank", ["", " ", "\t"]);
    const r = ExifDate.from(blank + text + blank);
    const good = realDay(h, y, mo, d);
    h.reach(r === undefined ? "refused" : "read");
    h.assert(h.eq(r !== undefined, good), "a date that exists was refused, or one that does not exist was read as another");
    if (r === undefined) return;
    h.assert(r.year === y, "the year differs");
    h.assert(kind === "year" ? r.month === undefined : r.month === mo, "the month differs");
    h.assert(kind === "full" ? r.day === d : r.day === undefined, "the day differs");
    h.assert(h.and(r.isFullDate() === (kind === "full"), r.isYearOnly() === (kind === "year"), r.isYearMonth() === (kind === "month"), r.isPartial() === (kind !== "full")), "the kind of date is wrong");
    const again = (c) => "" + y + (kind === "year" ? "" : c + two(mo)) + (kind === "full" ? c + two(d) : "");
    h.assert(r.toISOString() === again("-") && r.toExifString() === again(":"), "rendered as another date");
    h.assert(r.rawValue === text, "rawValue is not the text");
  },
};
harnesses.noToday = {
  claim: "a text without a date in it is never read as a date: a time of day is not today's date",
  bounds: "three numbers 0..99 of one or two digits with the same separator between them, optionally a fraction or an offset behind; what is read as a date has exactly those fields",
  reach: ["refused", "read"],
  async run(h) {
    const { ExifDate } = h.R("ExifDate");
    const sep = h.choice("sep", [":", "-"]);
    const num = (n) => {
      const v = h.int(n, 0, 99);
      return [h.bool(n + "pad") ? two(v) : "" + v, v];
    };
    const [ta, a] = num("a");
    const [tb, b] = num("b");
    const [tc, c] = num("c");
    const tail = h.choice("tail", ["", ".5", "Z", "+02:00"]);
    const r = ExifDate.from(ta + sep + tb + sep + tc + tail);
    h.reach(r === undefined ? "refused" : "read");
    h.observe("read", r !== undefined);
    if (r === undefined) return;
    h.assert(tail === "", "a text with a time's suffix was read as a date");
    h.assert(h.and(r.year === a, r.month === b, r.day === c), "read as a date that is not in the text");
  },
};
harnesses.years = {
  claim: "every four-digit year is rendered with its four digits and read back as itself, in dates and date-times",
  bounds: "years 2..9999, on a fixed day; EXIF and ISO separators; date, year and month, or date-time without zone or with an offset; blanks around it or not",
  reach: ["date", "datetime"],
  async run(h) {
    const y = h.int("y", 2, 9999);
    const yyyy = (y < 10 ? "000" : y < 100 ? "00" : y < 1000 ? "0" : "") + y;
    const kind = h.choice("kind", ["date", "month", "datetime", "zoned"]);
    const sep = h.choice("sep", [":", "-"]);
    const dt = kind === "datetime" || kind === "zoned";
    h.reach(dt ? "datetime" : "date");
    const blank = h.choice("blank", ["", " "]);
    const zone = kind === "zoned" ? "+05:45" : "";
    const as = (c, t) => yyyy + c + "03" + (kind === "month" ? "" : c + "04") + (dt ? t + "15:16:17" + zone : "");
    const { ExifDateTime } = h.R("ExifDateTime");
    const { ExifDate } = h.R("ExifDate");
    const r = (dt ? ExifDateTime : ExifDate).from(blank + as(sep, sep === "-" ? "T" : " ") + blank);
    h.assert(r !== undefined, "the text was refused");
    if (r === undefined) return;
    h.assert(r.year === y && r.month === 3, "read as another year");
    h.assert(r.toISOString() === as("-", "T"), "the ISO text is not the date's");
    h.assert(r.toExifString() === as(":", " "), "the EXIF text is not the date's");
  },
};
const MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const DAYS = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
harnesses.loose = {
  claim: "the looser spellings with month names (ctime, POSIX locale, 12-hour) are read as exactly those fields, in the default zone (inferred) or none; days and times that do not exist, and contradicting weekdays, are refused",
  bounds: "seven spellings; days 1..31 of February, June and December (thorough: every month) 2016 and 2023, or hours 0..25 (12-hour: 1..12, AM and PM), minutes and seconds 0..61, weekday right or the next; default zone none or UTC+3",
  reach: ["read", "refused"],
  maxDecisions: 8000,
  async run(h) {
    const { ExifDateTime } = h.R("ExifDateTime");
    const form = h.choice("form", ["MdyT", "Mdy,T", "cMdTy", "cdMyT12", "cdMyT", "dMyT12", "dMyT"]);
    const wild = h.choice("wild", ["day", "time"]);
    const y = wild === "day" ? h.choice("y", [2016, 2023]) : 2016;
    const mo = wild === "day" ? h.choice("mo", h.tier === "thorough" ? [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] : [2, 6, 12]) : 10;
    const d = wild === "day" ? h.int("d", 1, 31) : 13;
    const twelve = form.endsWith("12");
    const hh = wild === "time" ? h.int("hh", twelve ? 1 : 0, twelve ? 12 : 25) : 10;
    // midnight spelled 24:00:00 may be read as the next day's
    if (!twelve) h.assume(hh !== 24);
    const mi = wild === "time" ? h.int("mi", 0, 61) : 11;
    const s = wild === "time" ? h.int("s", 0, 61) : 12;
    const pm = twelve && h.bool("pm");
    const t = (twelve ? "" + hh : two(hh)) + ":" + two(mi) + ":" + two(s) + (twelve ? (pm ? " PM" : " AM") : "");
    const weekday = form.startsWith("c");
    const wrong = weekday && h.bool("wrong");
    let wd = "";
    if (weekday) {
      const first = new Date(Date.UTC(y, mo - 1, 1)).getUTCDay();
      const k = h.choice("k", [0, 1, 2, 3, 4, 5, 6]);
      h.assume((first + d - 1 + (wrong ? 1 : 0)) % 7 === k);
      wd = DAYS[k];
    }
    const M = MON[mo - 1];
    const text = { MdyT: `${M} ${d} ${y} ${t}`, "Mdy,T": `${M} ${d} ${y}, ${t}`, cMdTy: `${wd} ${M} ${d} ${t} ${y}`, cdMyT12: `${wd} ${d} ${M} ${y} ${t}`, cdMyT: `${wd} ${d} ${M} ${y} ${t}`, dMyT12: `${d} ${M} ${y} ${t}`, dMyT: `${d} ${M} ${y} ${t}` }[form];
    const dz = h.choice("dz", [undefined, "UTC+3"]);
    const r = ExifDateTime.from(text, dz);
    const good = h.and(realDay(h, y, mo, d), twelve ? h.and(hh >= 1, hh <= 12) : hh <= 23, mi <= 59, s <= 59, !wrong);
    h.reach(r === undefined ? "refused" : "read");
    h.observe("read", r !== undefined);
    h.assert(h.eq(r !== undefined, good), "a date-time that exists was refused, or one that does not was read as another");
    if (r === undefined) return;
    const hour = twelve ? (hh % 12) + (pm ? 12 : 0) : hh;
    h.assert(h.and(r.year === y, r.month === mo, r.day === d, r.hour === hour, r.minute === mi, r.second === s), "read as other fields");
    h.assert(r.zone === dz && r.millisecond === undefined, "a zone or milliseconds were invented");
    if (dz !== undefined) h.assert(r.inferredZone === true, "the default zone is not marked inferred");
  },
};
harnesses.times = {
  claim: "a time text is read as exactly those fields and zone and rendered back the same; a time that does not exist is refused",
  bounds: "hours 0..23 and 25..39, minutes and seconds 0..79, fraction absent or 1..3 digits, zone none, Z or one of 13 offsets, default zone none or UTC+3",
  reach: ["read", "refused"],
  async run(h) {
    const { ExifTime } = h.R("ExifTime");
    const hh = h.int("hh", 0, 39);
    const mi = h.int("mi", 0, 79);
    const s = h.int("s", 0, 79);
    h.assume(hh !== 24);
    let text = two(hh) + ":" + two(mi) + ":" + two(s);
    let ms;
    const n = h.choice("n", [0, 1, 3]);
    if (n > 0) {
      const digs = h.str("f", { min: n, max: n, ranges: [[48, 57]] });
      text += "." + digs;
      ms = 0;
      for (let i = 0; i < 3; i++) ms = ms * 10 + (i < n ? digs.charCodeAt(i) - 48 : 0);
    }
    let o = h.choice("o", [undefined, "Z"].concat(OFFS));
    if (o === "Z") {
      text += "Z";
      o = 0;
    } else if (o !== undefined) text += off(o);
    const dz = h.choice("dz", [undefined, "UTC+3"]);
    const r = ExifTime.fromEXIF(text, dz);
    const good = h.and(hh <= 23, mi <= 59, s <= 59);
    h.reach(r === undefined ? "refused" : "read");
    h.assert(h.eq(r !== undefined, good), "a time that exists was refused, or one that does not exist was read as another");
    if (r === undefined) return;
    h.assert(h.and(r.hour === hh, r.minute === mi, r.second === s), "a field differs from the text");
    h.assert(h.eq(r.millisecond === undefined, ms === undefined), "milliseconds were invented or lost");
    if (ms !== undefined) h.assert(r.millisecond === ms, "the milliseconds differ from the text");
    const want = o !== undefined ? nameOf(o) : dz;
    h.assert(r.zone === want && r.hasZone === (want !== undefined), "the zone is not the text's own, or not the default");
    h.assert((r.inferredZone === true) === (o === undefined && dz !== undefined), "inferredZone does not tell the text's zone from the default");
    const zt = want === undefined ? "" : o !== undefined ? off(o) : "+03:00";
    h.assert(r.toExifString() === two(hh) + ":" + two(mi) + ":" + two(s) + (ms === undefined ? "" : "." + three(ms)) + zt, "rendered as another time");
    h.assert(r.toISOString() === r.toExifString(), "the ISO rendering differs");
    h.assert(r.rawValue === text, "rawValue is not the text");
  },
};
exports.harnesses = harnesses;
