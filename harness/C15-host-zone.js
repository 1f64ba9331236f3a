"use strict";
exports.assumptions = ["the host's time zone is set as luxon's default zone, which is what luxon uses for values with no zone of their own", "luxon is executed as shipped; Intl and Date are modelled (engine/intlmodel.js, engine/datemodel.js)"];
const HOSTS = ["America/Los_Angeles", "Europe/London", "Australia/Lord_Howe", "UTC"];
const two = (n) => (n < 10 ? "0" + n : "" + n);
const three = (n) => (n < 10 ? "00" + n : n < 100 ? "0" + n : "" + n);
function realDay(h, y, mo, d) {
  const short = h.or(mo === 4, mo === 6, mo === 9, mo === 11);
  const feb = h.or(d <= 28, h.and(d === 29, y % 4 === 0));
  return h.and(h.or(mo !== 2, feb), h.or(h.not(short), d <= 30));
}
function host(h, list) {
  const z = h.choice("host", list ?? HOSTS);
  h.pkg("luxon").Settings.defaultZone = z;
  return z;
}
function dd(h, name, lo, hi) {
  const t = h.str(name, { min: 2, max: 2, ranges: [[48, 57]] });
  const v = (t.charCodeAt(0) - 48) * 10 + (t.charCodeAt(1) - 48);
  h.assume(h.and(v >= lo, v <= hi));
  return [t, v];
}
const harnesses = {};
harnesses.datetimes = {
  claim: "a date-time without a zone is read, rendered, given a zone, moved by a duration and revived the same on every host, even where the host's clock skips or repeats that local time",
  bounds: "every minute of March, April, October and November 2023 and 2024; hosts Los Angeles, London, Lord Howe and UTC",
  reach: ["read"],
  witnessMax: 60,
  async run(h) {
    host(h);
    const { ExifDateTime } = h.R("ExifDateTime");
    const y = h.choice("y", ["2023", "2024"]);
    const mt = h.choice("mo", ["03", "04", "10", "11"]);
    const mo = Number(mt);
    const [dt, d] = dd(h, "d", 1, mo === 3 || mo === 10 ? 31 : 30);
    const [ht, hh] = dd(h, "hh", 0, 23);
    const [mit, mi] = dd(h, "mi", 0, 59);
    const date = y + ":" + mt + ":" + dt;
    const text = date + " " + ht + ":" + mit + ":07";
    const e = ExifDateTime.from(text);
    h.assert(e !== undefined, "not read");
    if (e === undefined) return;
    h.reach("read");
    const same = (x) => h.and(x.year === Number(y), x.month === mo, x.day === d, x.hour === hh, x.minute === mi, x.second === 7, x.millisecond === undefined);
    h.assert(same(e), "read as other fields on this host");
    h.assert(e.zone === undefined && e.tzoffsetMinutes === undefined, "the host's zone leaked into the value");
    const what = h.choice("what", ["exif", "iso", "zone", "plus", "json"]);
    if (what === "exif") h.assert(e.toExifString() === text, "rendered as another time on this host");
    else if (what === "iso") h.assert(e.toISOString() === y + "-" + mt + "-" + dt + "T" + ht + ":" + mit + ":07" && e.toString() === e.toISOString(), "rendered as another ISO time on this host");
    else if (what === "zone") {
      const z = e.setZone("UTC+5:30");
      h.assert(z !== undefined && same(z) && z.tzoffsetMinutes === 330, "given a zone, the local time changed on this host");
    } else if (what === "plus") {
      const p = e.plus({ hours: 1 });
      h.assert(p !== undefined && p.zone === undefined, "plus() took the host's zone");
      h.assert(Date.UTC(p.year, p.month - 1, p.day, p.hour, p.minute) === Date.UTC(Number(y), mo - 1, d, hh, mi) + 3600000, "plus() moved by something else on this host");
    } else {
      const b = ExifDateTime.fromJSON(JSON.parse(JSON.stringify(e)));
      h.assert(same(b) && b.zone === undefined && b.rawValue === text, "revived as another value on this host");
    }
  },
};
harnesses.dates = {
  claim: "a date is read and rendered as the same date on every host, even one whose calendar skips that day",
  bounds: "every day of 2011, 2023 and 2024; hosts Los Angeles, Sao Paulo, Apia (no 30 December 2011) and UTC",
  reach: ["read"],
  async run(h) {
    host(h, ["America/Los_Angeles", "America/Sao_Paulo", "Pacific/Apia", "UTC"]);
    const { ExifDate } = h.R("ExifDate");
    const y = h.choice("y", [2011, 2023, 2024]);
    const [mt, mo] = dd(h, "mo", 1, 12);
    const [dt, d] = dd(h, "d", 1, 31);
    h.assume(realDay(h, y, mo, d));
    const sep = h.choice("sep", [":", "-"]);
    const e = ExifDate.from(y + sep + mt + sep + dt);
    h.assert(e !== undefined, "not read");
    if (e === undefined) return;
    h.reach("read");
    h.assert(h.and(e.year === y, e.month === mo, e.day === d), "read as another day on this host");
    h.assert(e.toISOString() === y + "-" + mt + "-" + dt, "rendered as another day on this host");
  },
};
harnesses.times = {
  claim: "a time is read, rendered and given a zone the same on every host and on every day the program runs",
  bounds: "every minute of the day; run at noon UTC on 12 March 2023, 5 November 2023 or 1 July 2023; hosts Los Angeles, London, Lord Howe and UTC; no default zone or UTC+3",
  reach: ["read"],
  witnessMax: 60,
  async run(h) {
    host(h);
    const { Settings } = h.pkg("luxon");
    const now = h.choice("now", [Date.UTC(2023, 2, 12, 12), Date.UTC(2023, 9, 1, 3), Date.UTC(2023, 6, 1, 12)]);
    Settings.now = () => now;
    const { ExifTime } = h.R("ExifTime");
    const [ht, hh] = dd(h, "hh", 0, 23);
    const [mit, mi] = dd(h, "mi", 0, 59);
    const dz = h.choice("dz", [undefined, "UTC+3", "America/Los_Angeles"]);
    const text = ht + ":" + mit + ":07";
    const e = ExifTime.fromEXIF(text, dz);
    h.assert(e !== undefined, "not read");
    if (e === undefined) return;
    h.reach("read");
    h.assert(h.and(e.hour === hh, e.minute === mi, e.second === 7), "read as another time on this host or day");
    h.assert(e.zone === dz, "the host's zone leaked into the value");
    if (dz === undefined) {
      h.assert(e.toExifString() === text, "rendered as another time");
      const z = e.setZone("UTC+5:30");
      h.assert(z !== undefined && h.and(z.hour === hh, z.minute === mi), "given a zone, the time changed");
      h.assert(z !== undefined && z.zone === "UTC+5:30", "given a zone, another zone is reported");
    }
  },
};
exports.harnesses = harnesses;
