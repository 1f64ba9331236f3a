"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["ExifTool's JSON reaches the task's parser unchanged", "numbers are exact decimals; comparisons at exactly 1 degree distance are outside the claim (floating point)"];

function reader(h, options) {
  let out = "";
  const geo = [];
  const { et } = fakeExifTool(h, { geoTz: (a, b) => (geo.push([a, b]), undefined), ...options }, (t) => Promise.resolve().then(() => t.parser(out, "", true)));
  return {
    geo,
    read: (tags) => {
      out = h.jsonText([tags]);
      return outcome(() => et.read("/f.jpg"));
    },
  };
}
const lat = (v) => (v < 0 ? "S" : "N");
const lon = (v) => (v < 0 ? "W" : "E");
const near = (h, a, b) => h.and(a - b <= 0.00000051, b - a <= 0.00000051);
function gone(h, t, keys, msg) {
  for (const k of keys) h.assert(t[k] === undefined, msg + ": " + k);
}
const harnesses = {};
for (const axis of ["Latitude", "Longitude"]) {
  const isLat = axis === "Latitude";
  const other = isLat ? "Longitude" : "Latitude";
  const refs = isLat ? ["N", "S", "North", "south", " s", "x", "", "-", "E"] : ["E", "W", "East", "west", " w", "x", "", "0", "N"];
  const neg = isLat ? "S" : "W";
  const max = isLat ? 90 : 180;
  harnesses["ref" + axis] = {
    claim: `GPS${axis}: a ${neg} reference makes it negative, otherwise the sign is kept; the returned reference names the returned hemisphere; out-of-range coordinates remove every GPS and Geolocation tag`,
    bounds: `${axis} any decimal with six places in -${max + 3}..${max + 3}, reference absent or one of ${JSON.stringify(refs)}`,
    reach: ["valid", "invalid"],
    async run(h) {
      const v = h.dec("v", -(max + 3) * 1e6, (max + 3) * 1e6, 6);
      const ref = h.choice("ref", [undefined, ...refs]);
      const tags = { SourceFile: "/f.jpg", ["GPS" + axis]: v, ["GPS" + other]: 12.5, GPSAltitude: 7, GeolocationCity: "X", Artist: "me" };
      if (ref !== undefined) tags["GPS" + axis + "Ref"] = ref;
      const { read, geo } = reader(h, {});
      const r = await read(tags);
      h.assert(r.ok, "read rejected readable output");
      if (!r.ok) return;
      const t = r.value;
      h.assert(t.Artist === "me" && t.SourceFile === "/f.jpg", "an unrelated tag changed");
      const ok = h.and(v <= max, v >= -max);
      h.observe("lat", t["GPS" + axis]);
      h.assert(h.eq(t["GPS" + axis] !== undefined, ok), "a coordinate in range was dropped, or one out of range kept");
      if (t["GPS" + axis] === undefined) {
        h.reach("invalid");
        gone(h, t, ["GPS" + other, "GPS" + axis + "Ref", "GPS" + other + "Ref", "GPSAltitude", "GeolocationCity"], "a location tag survives invalid coordinates");
        h.assert(t.warnings.length > 0, "dropped coordinates are not reported");
        h.assert(geo.length === 0, "a time zone was looked up for invalid coordinates");
        return;
      }
      h.reach("valid");
      const south = ref !== undefined && ref.trim().toUpperCase()[0] === neg;
      const want = south && v > 0 ? -v : v;
      h.assert(t["GPS" + axis] === want, "the coordinate changed, or is in the wrong hemisphere");
      h.assert(t["GPS" + axis + "Ref"] === (isLat ? lat(want) : lon(want)), "the reference contradicts the coordinate");
      h.assert(t["GPS" + other] === 12.5 && t["GPS" + other + "Ref"] === (isLat ? "E" : "N"), "the other coordinate changed");
      h.assert(t.GPSAltitude === 7 && t.GeolocationCity === "X", "another location tag changed");
      for (const [a, b] of geo) h.assert(h.and(a === t.GPSLatitude, b === t.GPSLongitude), "the time zone was looked up elsewhere");
    },
  };
}
harnesses.zeroZero = {
  claim: "0,0 is discarded with every GPS/Geolocation tag exactly when ignoreZeroZeroLatLon; no other coordinate is",
  bounds: "both coordinates decimals with two places in -1..1, ignoreZeroZeroLatLon default, true and false",
  reach: ["dropped", "kept"],
  async run(h) {
    const a = h.dec("a", -100, 100, 2);
    const b = h.dec("b", -100, 100, 2);
    const o = h.choice("o", [undefined, true, false]);
    const { read } = reader(h, o === undefined ? {} : { ignoreZeroZeroLatLon: o });
    const r = await read({ SourceFile: "/f.jpg", GPSLatitude: a, GPSLongitude: b, GPSDOP: 3, GPSPosition: "0 0", GeolocationCity: "X" });
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    const t = r.value;
    const zero = h.and(a === 0, b === 0, o !== false);
    h.reach(t.GPSLatitude === undefined ? "dropped" : "kept");
    h.assert(h.eq(t.GPSLatitude === undefined, zero), "0,0 is kept, or another place discarded");
    if (t.GPSLatitude === undefined) {
      gone(h, t, ["GPSLongitude", "GPSLatitudeRef", "GPSLongitudeRef", "GPSDOP", "GPSPosition", "GeolocationCity"], "a location tag survives 0,0");
      h.assert((t.warnings ?? []).length > 0, "the location was discarded without a warning");
    }
    else h.assert(h.and(t.GPSLatitude === a, t.GPSLongitude === b, t.GPSDOP === 3), "a coordinate changed");
  },
};
harnesses.geolocation = {
  claim: "GeolocationPosition changes nothing but the sign: a coordinate is mirrored exactly when its mirror image, and not the coordinate itself, is within 1 degree of the GeolocationPosition",
  bounds: "latitude or longitude any decimal with four places; GeolocationPosition any decimal with up to three integer and two fractional digits; reference absent or given",
  reach: ["same", "mirrored"],
  async run(h) {
    const isLat = h.bool("isLat");
    const max = isLat ? 90 : 180;
    const v = h.dec("v", -max * 1e4, max * 1e4, 4);
    const gi = h.int("gi", 0, max - 1);
    const gf = h.str("gf", { min: 0, max: 2, ranges: "0123456789" });
    const minus = h.bool("minus");
    const g = (minus ? "-" : "") + gi + (gf.length ? "." + gf : "");
    const ref = h.choice("ref", [undefined, isLat ? "N" : "E", isLat ? "S" : "W"]);
    const tags = { SourceFile: "/f.jpg", GPSLatitude: isLat ? v : 12.5, GPSLongitude: isLat ? 12.5 : v, GeolocationPosition: isLat ? g + ", 12.5" : "12.5, " + g };
    if (ref !== undefined) tags[isLat ? "GPSLatitudeRef" : "GPSLongitudeRef"] = ref;
    const { read } = reader(h, {});
    const r = await read(tags);
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    const got = isLat ? r.value.GPSLatitude : r.value.GPSLongitude;
    const gref = isLat ? r.value.GPSLatitudeRef : r.value.GPSLongitudeRef;
    const geo = parseFloat(g);
    const neg = ref === "S" || ref === "W";
    const base = neg && v > 0 ? -v : v;
    const dist = (x) => (x < 0 ? -x : x);
    const here = dist(geo - base);
    const there = dist(geo + base);
    h.assume(h.and(h.not(h.and(here > 0.99995, here < 1.00005)), h.not(h.and(there > 0.99995, there < 1.00005))));
    const mirror = h.and(there < 1, h.not(here < 1));
    h.observe("got", got);
    const m = h.eq(base, 0) ? false : got === -base;
    h.reach(m ? "mirrored" : "same");
    h.assert(h.or(h.and(mirror, got === -base), h.and(h.not(mirror), got === base)), "the coordinate was moved to another hemisphere, or left in the wrong one");
    h.assert(gref === (isLat ? lat(got) : lon(got)), "the reference contradicts the coordinate");
    h.assert(h.and(isLat ? r.value.GPSLongitude === 12.5 : r.value.GPSLatitude === 12.5), "the other coordinate changed");
  },
};
harnesses.position = {
  claim: "a missing or blank coordinate is taken from GPSPosition; with one coordinate unknown none is invented",
  bounds: "each coordinate present, blank, unparsable or absent; GPSPosition absent, junk, or any two decimals with two places",
  reach: ["both", "none"],
  async run(h) {
    const KINDS = ["num", "absent", "blank", "junk"];
    const k1 = h.choice("k1", KINDS);
    const k2 = h.choice("k2", KINDS);
    const pk = h.choice("pos", ["absent", "junk", "comma", "space"]);
    const p1 = h.int("p1", -90, 90);
    const p2 = h.int("p2", 1, 180);
    const tags = { SourceFile: "/f.jpg", GPSDOP: 3 };
    const v1 = h.int("v1", -90, 90);
    const put = (k, name, v) => {
      if (k === "num") tags[name] = v;
      if (k === "blank") tags[name] = " ";
      if (k === "junk") tags[name] = "somewhere";
    };
    put(k1, "GPSLatitude", v1);
    put(k2, "GPSLongitude", -7.25);
    if (pk === "junk") tags.GPSPosition = "here";
    if (pk === "comma") tags.GPSPosition = p1 + ", -" + p2 + ".5";
    if (pk === "space") tags.GPSPosition = p1 + " -" + p2 + ".5";
    h.assume(p2 < 180);
    const { read, geo } = reader(h, { ignoreZeroZeroLatLon: false });
    const r = await read(tags);
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    const t = r.value;
    const hasPos = pk === "comma" || pk === "space";
    const e1 = k1 === "num" ? v1 : hasPos ? p1 : undefined;
    const e2 = k2 === "num" ? -7.25 : hasPos ? -(p2 + 0.5) : undefined;
    h.assert(t.GPSDOP === 3, "another location tag changed");
    const told = (name) => t.warnings.some((w) => w.includes(name));
    h.assert(told("GPSLatitude") === (k1 === "junk") && told("GPSLongitude") === (k2 === "junk"), "an unreadable coordinate is not reported, or a readable one is");
    if (pk === "junk") h.assert(told("GPSPosition") === (k1 !== "num" || k2 !== "num"), "an unreadable position is not reported");
    if (e1 !== undefined && e2 !== undefined) {
      h.reach("both");
      h.assert(h.and(t.GPSLatitude === e1, t.GPSLongitude === e2), "the coordinates differ from the tags");
      h.assert(h.and(t.GPSLatitudeRef === lat(e1), t.GPSLongitudeRef === "W"), "the reference contradicts the coordinate");
    } else {
      h.reach("none");
      h.assert(t.GPSLatitude === tags.GPSLatitude && t.GPSLongitude === tags.GPSLongitude, "a coordinate was invented or lost");
      h.assert(t.GPSLatitudeRef === undefined && t.GPSLongitudeRef === undefined, "a reference was invented");
      h.assert(geo.length === 0, "a time zone was looked up without coordinates");
    }
  },
};
exports.harnesses = harnesses;
