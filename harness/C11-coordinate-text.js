"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["numbers are exact; results are compared with half a unit of the sixth decimal place plus rounding slack, which covers floating point"];

async function read(h, tags) {
  const { et } = fakeExifTool(h, { geoTz: () => undefined, ignoreZeroZeroLatLon: false }, (t) => Promise.resolve().then(() => t.parser(h.jsonText([tags]), "", true)));
  return outcome(() => et.read("/f.jpg"));
}
const EPS = 0.00000051;
const near = (h, a, b) => h.and(a - b <= EPS, b - a <= EPS);
const DEG = [" deg ", "° ", "°", " DEG "];
// one coordinate: text and exact value (undefined = must not be accepted as a number)
function coordinate(h, n, form, isLat) {
  const max = isLat ? 90 : 180;
  const minus = h.bool(n + "minus");
  const dir = h.choice(n + "dir", minus ? ["", isLat ? "S" : "W"] : ["", isLat ? "N" : "E", isLat ? "S" : "W", isLat ? " n" : " w"]);
  // out of range only in the cheaper notations
  const d = h.int(n + "d", 0, form === "decimal" || form === "D" ? max + 2 : max - 1);
  const deg = form === "D" ? "°" : h.choice(n + "deg", DEG);
  let text = (minus ? "-" : "") + d;
  let v = d;
  let good = true;
  if (form === "decimal" || form === "D") {
    const f = digits(h, n + "f", h.tier === "thorough" ? [0, 1, 2, 3, 4, 5, 6, 7] : [0, 2, 6, 7]);
    if (f.length) {
      text += "." + f;
      v += parseInt(f, 10) / 10 ** f.length;
    }
    if (form === "D") text += deg + (dir === "" ? "" : " " + dir.trim());
  } else {
    const m = h.int(n + "m", 0, 61);
    good = h.and(good, m < 60);
    v += m / 60;
    text += deg + m;
    if (form === "DMS") {
      const s = h.int(n + "s", 0, 61);
      const f = h.choice(n + "sf", ["", ".5", ".25", ".00", ".9999"]);
      good = h.and(good, s < 60);
      v += (s + Number("0" + f)) / 3600;
      text += "' " + s + f + '"' + (dir === "" ? "" : " " + dir.trim());
    } else {
      const f = digits(h, n + "mf", h.tier === "thorough" ? [0, 1, 2, 3, 4, 5, 6] : [0, 2, 5]);
      if (f.length) {
        text += "." + f;
        v += parseInt(f, 10) / 10 ** f.length / 60;
      }
      text += "'" + (dir === "" ? "" : " " + dir.trim());
    }
  }
  const neg = minus || (form !== "decimal" && ["S", "W"].includes(dir.trim().toUpperCase()));
  // without a direction letter the notation alone does not tell the axis
  // (what rounds to the limit may go either way)
  h.assume(h.or(v <= max, v > max + 0.000001));
  good = h.and(good, v <= max);
  return { text, value: neg ? -v : v, good };
}
function digits(h, name, lens) {
  const len = h.choice(name + "n", lens);
  return h.str(name, { min: len, max: len, ranges: "0123456789" });
}
const harnesses = {};
for (const form of ["decimal", "D", "DM", "DMS"]) {
  harnesses["single_" + form] = {
    claim: `a coordinate in ${form} notation is read as its exact decimal value to six places, negative for a minus sign, S or W, "-0" included; impossible minutes, seconds and degrees are never returned as a coordinate`,
    bounds: "degrees 0..max+2 (0..max-1 with minutes) with and without minus sign, minutes and seconds 0..61, up to seven fractional digits of degrees and five of minutes, four spellings of the degree sign, direction absent, upper or lower case",
    reach: ["good", "bad"],
    async run(h) {
      const isLat = h.bool("isLat");
      const c = coordinate(h, "a", form, isLat);
      const name = isLat ? "GPSLatitude" : "GPSLongitude";
      const tags = isLat ? { SourceFile: "/f.jpg", GPSLatitude: c.text, GPSLongitude: 12.5 } : { SourceFile: "/f.jpg", GPSLatitude: 12.5, GPSLongitude: c.text };
      const r = await read(h, tags);
      h.assert(r.ok, "read rejected readable output");
      if (!r.ok) return;
      const got = r.value[name];
      h.observe("got", got);
      const num = typeof got === "number";
      h.reach(num ? "good" : "bad");
      h.assert(h.eq(num, c.good), "a well-formed coordinate was not understood, or an impossible one accepted");
      if (!num) return;
      h.assert(near(h, got, c.value), "the coordinate differs from its text");
      h.assert(r.value[name + "Ref"] === (got < 0 ? (isLat ? "S" : "W") : isLat ? "N" : "E"), "the reference contradicts the coordinate");
      h.assert(isLat ? r.value.GPSLongitude === 12.5 : r.value.GPSLatitude === 12.5, "the other coordinate changed");
    },
  };
}
harnesses.junk = {
  claim: "text that is not a coordinate from its first to its last character is never read as one",
  bounds: "a well-formed coordinate in each notation with one arbitrary UTF-16 unit (not a blank, digit, sign, dot or comma) before it, or one that is also no quote mark or direction letter behind it, or between two numbers",
  reach: ["before", "behind", "within"],
  async run(h) {
    const where = h.choice("where", ["before", "behind", "within"]);
    const form = where === "within" ? "" : h.choice("form", ["12.5", "12.5°", "12° 30.5'", "12 deg 30' 15.25\""]);
    const c = h.str("c", { min: 1, max: 1, ranges: [[0x21, 0x2a], [0x2f, 0x2f], [0x3a, 0x9f], [0xa1, 0x167f], [0x1681, 0x1fff], [0x2070, 0x2fff], [0x3001, 0xd7ff]] });
    const isLat = h.bool("isLat");
    if (where === "behind") h.assume(h.not(h.or(...[..."nsewNSEW\u0085°'\"\u0131\u017f\u212a"].map((x) => c === x))));
    else h.assume(c !== "\u0085");
    const text = where === "before" ? c + form : where === "behind" ? form + c : "12" + c + "5";
    const r = await read(h, isLat ? { SourceFile: "/f.jpg", GPSLatitude: text, GPSLongitude: 12.5 } : { SourceFile: "/f.jpg", GPSLatitude: 12.5, GPSLongitude: text });
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    h.reach(where);
    h.assert(typeof r.value[isLat ? "GPSLatitude" : "GPSLongitude"] !== "number", "text that is no coordinate was read as one");
  },
};
harnesses.pair = {
  claim: "GPSPosition as ExifTool prints it (DMS with directions, or two decimals) is read as its two coordinates",
  bounds: "both coordinates in range in DMS or both decimal with up to two fractional digits; comma+blank, blank or comma between them",
  reach: ["good"],
  maxDecisions: 6000,
  async run(h) {
    const form = h.choice("form", ["decimal", "DMS"]);
    const sep = h.choice("sep", [", ", " "]);
    const one = (n, isLat) => {
      const d = h.int(n + "d", 0, isLat ? 89 : 179);
      if (form === "decimal") {
        const f = h.str(n + "f", { min: 0, max: 2, ranges: "0123456789" });
        const minus = h.bool(n + "minus");
        const v = d + (f.length ? parseInt(f, 10) / 10 ** f.length : 0);
        return [(minus ? "-" : "") + d + (f.length ? "." + f : ""), minus ? -v : v];
      }
      const m = h.int(n + "m", 0, 59);
      const s = h.int(n + "s", 0, 59);
      const dir = h.choice(n + "dir", isLat ? ["N", "S"] : ["E", "W"]);
      const v = d + m / 60 + (s + 0.75) / 3600;
      return [d + " deg " + m + "' " + s + '.75" ' + dir, dir === "S" || dir === "W" ? -v : v];
    };
    const [t1, v1] = one("a", true);
    const [t2, v2] = one("b", false);
    const r = await read(h, { SourceFile: "/f.jpg", GPSPosition: t1 + sep + t2 });
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    h.reach("good");
    h.assert(typeof r.value.GPSLatitude === "number" && typeof r.value.GPSLongitude === "number", "a position was not understood");
    if (typeof r.value.GPSLatitude !== "number" || typeof r.value.GPSLongitude !== "number") return;
    h.assert(h.and(near(h, r.value.GPSLatitude, v1), near(h, r.value.GPSLongitude, v2)), "the position differs from its text");
  },
};
exports.harnesses = harnesses;
