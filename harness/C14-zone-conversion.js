"use strict";
exports.assumptions = ["luxon is executed as shipped; Intl and Date are modelled (engine/intlmodel.js, engine/datemodel.js)", "the United States' DST rules of 2023 and 2024 are written out in the harness as the oracle"];
const two = (n) => (n < 10 ? "0" + n : "" + n);
function nameOf(o) {
  if (o === 0) return "UTC";
  const a = o < 0 ? -o : o;
  return (o < 0 ? "UTC-" : "UTC+") + Math.floor(a / 60) + (a % 60 === 0 ? "" : ":" + two(a % 60));
}
const LA = "America/Los_Angeles";
// Los Angeles is UTC-7 between these instants, else UTC-8
const DST = [
  [Date.UTC(2023, 2, 12, 10), Date.UTC(2023, 10, 5, 9)],
  [Date.UTC(2024, 2, 10, 10), Date.UTC(2024, 10, 3, 9)],
];
const inDst = (h, t) => h.or(...DST.map(([a, b]) => h.and(t >= a, t < b)));
function realDay(h, y, mo, d) {
  const short = h.or(mo === 4, mo === 6, mo === 9, mo === 11);
  const feb = h.or(d <= 28, h.and(d === 29, leap(h, y)));
  return h.and(h.or(mo !== 2, feb), h.or(h.not(short), d <= 30));
}
const leap = (h, y) => h.and(y % 4 === 0, h.or(y % 100 !== 0, y % 400 === 0));
function anyTime(h, wide) {
  const y = wide ? h.int("y", 1902, 2098) : h.choice("y", [2023, 2024]);
  const mo = h.int("mo", 1, 12);
  const d = h.int("d", 1, 31);
  h.assume(realDay(h, y, mo, d));
  return { y, mo, d, hh: h.int("hh", 0, 23), mi: h.int("mi", 0, 59), s: h.int("s", 0, 59), ms: h.bool("hasMs") ? h.int("ms", 0, 999) : undefined };
}
const utc = (f) => Date.UTC(f.y, f.mo - 1, f.d, f.hh, f.mi, f.s, f.ms === undefined ? 0 : f.ms);
const utcOf = (e) => Date.UTC(e.year, e.month - 1, e.day, e.hour, e.minute, e.second, e.millisecond === undefined ? 0 : e.millisecond);
const same = (h, e, f) => h.and(e.year === f.y, e.month === f.mo, e.day === f.d, e.hour === f.hh, e.minute === f.mi, e.second === f.s);
// a local time Los Angeles skips
function skipped(h, t) {
  return h.or(...DST.map(([a]) => h.and(t >= a - 8 * 3600000, t < a - 7 * 3600000)));
}
function make(h, f, zone) {
  const { ExifDateTime } = h.R("ExifDateTime");
  const o = typeof zone === "number" ? zone : undefined;
  return new ExifDateTime(f.y, f.mo, f.d, f.hh, f.mi, f.s, f.ms, o, "raw", o === undefined ? zone : nameOf(o), undefined);
}
const harnesses = {};
harnesses.instant = {
  claim: "moving a zoned date-time to another zone keeps the instant, takes the zone's offset at that instant, and keeps milliseconds and the original text",
  bounds: "every second of 2023 and 2024, milliseconds absent or 0..999; from one of 6 offsets or Los Angeles (times that exist) to one of 6 offsets or Los Angeles",
  reach: ["fixed", "dst"],
  async run(h) {
    const f = anyTime(h);
    const from = h.choice("from", [-660, -210, 0, 330, 765, LA]);
    const to = h.choice("to", [840, -570, 0, 330, -60, LA]);
    const e = make(h, f, from);
    let t = utc(f);
    if (from === LA) {
      h.assume(h.not(skipped(h, t)));
      // where the local time occurs twice either instant is right
      const first = t + 7 * 3600000;
      const second = t + 8 * 3600000;
      const m = e.toMillis();
      h.assert(h.or(h.and(m === first, inDst(h, first)), h.and(m === second, h.not(inDst(h, second)))), "the local time is read as an instant with another local time");
      t = m;
    } else t -= from * 60000;
    const inferred = h.choice("inferred", [undefined, false]);
    const r = e.setZone(to === LA ? LA : nameOf(to), inferred === undefined ? undefined : { inferredZone: inferred });
    h.assert(r !== undefined, "the move failed");
    if (r === undefined) return;
    h.assert(r.zone === (to === LA ? LA : nameOf(to)), "the result is in another zone");
    const o = to === LA ? (h.reach("dst"), r.tzoffsetMinutes) : to;
    h.reach("fixed");
    if (to === LA) h.assert(h.or(h.and(o === -420, inDst(h, t)), h.and(o === -480, h.not(inDst(h, t)))), "not the zone's offset at that instant");
    else h.assert(r.tzoffsetMinutes === to, "another offset");
    h.assert(utcOf(r) === t + o * 60000, "the instant changed");
    h.assert(r.toMillis() === t || to === LA, "toMillis is another instant");
    h.assert(r.millisecond === f.ms, "milliseconds were lost or invented");
    h.assert(r.rawValue === "raw", "rawValue was lost");
    h.assert(r.inferredZone === (inferred === undefined ? true : inferred), "inferredZone is wrong");
  },
};
harnesses.wide = {
  claim: "the same for every year, between fixed offsets",
  bounds: "every second of 1902 to 2098, milliseconds absent or 0..999; from one of 3 offsets to one of 3; keeping the instant or the local time",
  reach: ["instant", "local"],
  async run(h) {
    const f = anyTime(h, true);
    const from = h.choice("from", [-660, 0, 345]);
    const to = h.choice("to", [840, 0, -570]);
    const keep = h.bool("keep");
    const r = make(h, f, from).setZone(nameOf(to), keep ? { keepLocalTime: true } : undefined);
    h.reach(keep ? "local" : "instant");
    h.assert(r !== undefined, "the move failed");
    if (r === undefined) return;
    h.assert(r.zone === nameOf(to) && r.tzoffsetMinutes === to, "the result is in another zone");
    h.assert(utcOf(r) === utc(f) + (keep ? 0 : (to - from) * 60000), "the time changed");
    h.assert(r.millisecond === f.ms, "milliseconds were lost or invented");
  },
};
harnesses.local = {
  claim: "giving a zone to an unzoned date-time keeps its local time; keepLocalTime decides explicitly for zoned ones",
  bounds: "every second of 2023 and 2024, milliseconds absent or 0..999; unzoned or one of 3 zones; to one of 5 offsets or Los Angeles (local times that exist there)",
  reach: ["unzoned", "kept"],
  async run(h) {
    const f = anyTime(h);
    const from = h.choice("from", [undefined, 345, LA]);
    const to = h.choice("to", [840, -570, 0, 330, LA]);
    const e = make(h, f, from);
    if (from === LA || to === LA) h.assume(h.not(skipped(h, utc(f))));
    const r = from === undefined ? e.setZone(to === LA ? LA : nameOf(to), h.bool("explicit") ? { keepLocalTime: true } : undefined) : e.setZone(to === LA ? LA : nameOf(to), { keepLocalTime: true });
    h.reach(from === undefined ? "unzoned" : "kept");
    h.assert(r !== undefined, "the move failed");
    if (r === undefined) return;
    h.assert(same(h, r, f), "the local time changed");
    h.assert(r.millisecond === f.ms, "milliseconds were lost or invented");
    h.assert(r.zone === (to === LA ? LA : nameOf(to)), "the result is in another zone");
    if (to !== LA) h.assert(r.tzoffsetMinutes === to, "another offset");
    h.assert(r.rawValue === "raw", "rawValue was lost");
  },
};
harnesses.time = {
  claim: "setZone on an ExifTime keeps the instant when it has a zone and the local time when it has none or keepLocalTime asks for it; milliseconds and the original text survive",
  bounds: "every second of the day, milliseconds absent or 0..999; unzoned or one of 3 offsets; to one of 4 offsets; keepLocalTime default or true",
  reach: ["instant", "local"],
  async run(h) {
    const { ExifTime } = h.R("ExifTime");
    const from = h.choice("from", [undefined, -210, 0, 345]);
    const to = h.choice("to", [840, -570, 0, 330]);
    const keep = h.choice("keep", [undefined, true]);
    const f = { hh: h.int("hh", 0, 23), mi: h.int("mi", 0, 59), s: h.int("s", 0, 59), ms: h.bool("hasMs") ? h.int("ms", 0, 999) : undefined };
    const e = new ExifTime(f.hh, f.mi, f.s, f.ms, "raw", from === undefined ? undefined : nameOf(from));
    const r = e.setZone(nameOf(to), keep === undefined ? undefined : { keepLocalTime: keep });
    h.assert(r !== undefined, "the move failed");
    if (r === undefined) return;
    const local = from === undefined || keep === true;
    h.reach(local ? "local" : "instant");
    h.assert(r.zone === nameOf(to), "the result is in another zone");
    h.assert(r.millisecond === f.ms, "milliseconds were lost or invented");
    h.assert(r.rawValue === "raw", "rawValue was lost");
    const was = f.hh * 3600 + f.mi * 60 + f.s;
    const is = r.hour * 3600 + r.minute * 60 + r.second;
    if (local) h.assert(is === was, "the local time changed");
    else h.assert((is - was - (to - from) * 60 + 4 * 86400) % 86400 === 0, "the instant changed");
  },
};
harnesses.match = {
  claim: "maybeMatchZone answers a date-time in the target's zone at most the given distance from the target, the same instant or else the same local time, whenever one exists, and nothing otherwise",
  bounds: "a target at any second of June 2024 in one of 3 offsets; this up to 2 days away, in one of 3 offsets; limit default or 0..60 minutes",
  reach: ["match", "none"],
  async run(h) {
    const { ExifDateTime } = h.R("ExifDateTime");
    const to = h.choice("to", [-210, 0, 345]);
    const from = h.choice("from", [-480, 0, 330]);
    const f = { y: 2024, mo: 6, d: h.int("d", 10, 12), hh: h.int("hh", 0, 23), mi: h.int("mi", 0, 59), s: h.int("s", 0, 59) };
    const g = { y: 2024, mo: 6, d: h.int("d2", 10, 12), hh: h.int("hh2", 0, 23), mi: h.int("mi2", 0, 59), s: h.int("s2", 0, 59) };
    const target = make(h, g, to);
    const e = make(h, f, from);
    const lim = h.bool("hasLim") ? h.int("lim", 0, 60) * 60000 : undefined;
    const r = lim === undefined ? e.maybeMatchZone(target) : e.maybeMatchZone(target, lim);
    const L = lim === undefined ? 14 * 60000 : lim;
    const tt = utc(g) - to * 60000;
    const inst = utc(f) - from * 60000;
    const loc = utc(f) - to * 60000;
    const near = (x) => h.and(x - tt <= L, tt - x <= L);
    h.reach(r === undefined ? "none" : "match");
    h.assert(h.eq(r !== undefined, h.or(near(inst), near(loc))), "a match was missed or invented");
    if (r === undefined) return;
    h.assert(r.zone === nameOf(to), "the match is in another zone");
    const rt = utcOf(r) - to * 60000;
    h.assert(h.or(h.and(rt === inst, near(inst)), h.and(rt === loc, near(loc), h.not(near(inst)))), "the match is another time");
    h.assert(ExifDateTime.from(r) === r, "from() copies an instance");
  },
};
harnesses.plus = {
  claim: "plus() moves the instant by exactly the duration, in the same zone, and moves an unzoned date-time by its fields",
  bounds: "every second of 2023 and 2024; durations of -100..100 hours or minutes or days; unzoned or one of 3 offsets",
  reach: ["zoned", "unzoned"],
  async run(h) {
    const f = anyTime(h);
    const o = h.choice("o", [undefined, -570, 0, 345]);
    const unit = h.choice("unit", ["minutes", "hours", "days"]);
    const n = h.int("n", -20, 20);
    const e = make(h, f, o);
    const r = e.plus({ [unit]: n });
    h.reach(o === undefined ? "unzoned" : "zoned");
    h.assert(r !== undefined, "plus failed");
    if (r === undefined) return;
    h.assert(utcOf(r) === utc(f) + n * (unit === "minutes" ? 60000 : unit === "hours" ? 3600000 : 86400000), "moved by something else");
    h.assert(r.zone === e.zone && r.tzoffsetMinutes === o, "the zone changed");
    h.assert(r.hasZone === (o !== undefined), "a zone was invented");
  },
};
exports.harnesses = harnesses;
