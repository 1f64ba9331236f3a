"use strict";
const { fakeExifTool, outcome } = require("./lib/et");

exports.assumptions = ["the BatchCluster only records tasks", "ExifTool reads a numeric GPS*Ref by its sign and a textual one by its first letter (documented)"];

const linesOf = (sent, prefix) => sent[0].command.split("\n").filter((l) => l.startsWith(prefix));
async function send(h, tags, options) {
  const { et, sent } = fakeExifTool(h, {});
  const r = await outcome(() => et.write("/f.jpg", tags, options));
  h.assert(r.ok && sent.length === 1, "the write was refused");
  return sent;
}
function only(h, sent, prefix, what) {
  const l = linesOf(sent, prefix);
  h.assert(l.length === 1, what + " is not sent exactly once");
  return l.length === 1 ? l[0].slice(prefix.length) : undefined;
}
// does the reference value name the hemisphere of a coordinate with this sign?
function refMatches(h, ref, negative, pos, neg) {
  if (ref === undefined || ref === "") return false;
  if (/^[a-z]/i.test(ref)) return ref[0].toUpperCase() === (negative ? neg : pos);
  return (ref[0] === "-") === negative && /[0-9.]/.test(ref);
}
const COORD = {
  GPSLatitude: { ref: "GPSLatitudeRef", pos: "N", neg: "S", given: ["S", "N", 1, -1] },
  GPSLongitude: { ref: "GPSLongitudeRef", pos: "E", neg: "W", given: ["W", "E", 1, -1] },
  GPSAltitude: { ref: "GPSAltitudeRef", pos: "A", neg: "B", given: ["Below Sea Level", "Above Sea Level", 0, 1] },
};
const harnesses = {};
for (const name of Object.keys(COORD)) {
  harnesses["ref_" + name] = {
    claim: `${name}: a numeric value is sent with a ${COORD[name].ref} of the same sign unless the caller gave one; null clears both; text leaves the reference alone`,
    bounds: "integers -180..180 and the decimals -0.5, 0.25, -1e-7, 1e-7; reference absent, null or given as text or number (0 included), agreeing or not; caller's object inspected afterwards",
    reach: ["number", "null", "text"],
    async run(h) {
      const { ref, pos, neg } = COORD[name];
      const kind = h.choice("kind", ["int", "small", "null", "text"]);
      const v = kind === "int" ? h.int("v", -180, 180) : kind === "small" ? h.choice("small", [-0.5, 0.25, -1e-7, 1e-7, -89.999999]) : kind === "null" ? null : "45 deg";
      const refKind = h.choice("ref", ["absent", "null", "given"]);
      const asGiven = refKind === "given" ? h.choice("given", COORD[name].given) : undefined;
      const given = String(asGiven);
      const tags = { [name]: v, Artist: "me" };
      if (refKind === "null") tags[ref] = null;
      if (refKind === "given") tags[ref] = asGiven;
      const before = Object.keys(tags).join();
      const sent = await send(h, tags);
      h.observe("cmd", sent[0].command);
      h.assert(Object.keys(tags).join() === before && (refKind !== "null" || tags[ref] === null), "write() modified the caller's tags");
      h.assert(linesOf(sent, "-Artist=").length === 1 && linesOf(sent, "-Artist=")[0] === "-Artist=me", "an unrelated tag changed");
      const val = only(h, sent, "-" + name + "=", name);
      const refs = linesOf(sent, "-" + ref + "=");
      h.assert(refs.length <= 1, "the reference is sent twice");
      const got = refs.length === 1 ? refs[0].slice(ref.length + 2) : undefined;
      if (kind === "null") {
        h.reach("null");
        h.assert(val === "", "null does not clear the coordinate");
        h.assert(got === (refKind === "given" ? given : ""), "clearing the coordinate leaves another reference");
      } else if (kind === "text") {
        h.reach("text");
        h.assert(val === "45 deg", "a textual coordinate changed");
        h.assert(got === (refKind === "given" ? given : refKind === "null" ? "" : undefined), "a reference was invented for a textual coordinate");
      } else {
        h.reach("number");
        h.assert(val === String(v), "the number changed");
        if (refKind === "given") h.assert(got === given, "the caller's reference was replaced");
        else h.assert(refMatches(h, got, v < 0 ? true : false, pos, neg), "the reference contradicts the sign of the coordinate");
      }
    },
  };
}
harnesses.position = {
  claim: "GPSPosition 'lat,lon' accompanies exactly the pairs of numeric latitude and longitude",
  bounds: "latitude and longitude each absent, integer in range, decimal, null or text",
  reach: ["both", "not"],
  async run(h) {
    const pick = (n, lim) => {
      const k = h.choice(n + "Kind", ["absent", "int", "dec", "null", "text"]);
      return k === "absent" ? undefined : k === "int" ? h.int(n, -lim, lim) : k === "dec" ? -12.25 : k === "null" ? null : "12 N";
    };
    const lat = pick("lat", 90);
    const lon = pick("lon", 180);
    const tags = {};
    if (lat !== undefined) tags.GPSLatitude = lat;
    if (lon !== undefined) tags.GPSLongitude = lon;
    const sent = await send(h, tags);
    const pos = linesOf(sent, "-GPSPosition=");
    const both = typeof lat === "number" && typeof lon === "number";
    h.reach(both ? "both" : "not");
    h.assert(pos.length === (both ? 1 : 0), "GPSPosition is sent for the wrong combinations");
    if (both && pos.length === 1) h.assert(pos[0] === "-GPSPosition=" + String(lat) + "," + String(lon), "GPSPosition differs from the coordinates");
    h.assert(linesOf(sent, "-GPSLatitude=").length === (lat === undefined ? 0 : 1) && linesOf(sent, "-GPSLongitude=").length === (lon === undefined ? 0 : 1), "a coordinate was invented or lost");
  },
};
harnesses.reuse = {
  claim: "two writes with one tags object, changed in between, send the second write's own references",
  bounds: "two writes; coordinates any integer in range",
  reach: ["end"],
  async run(h) {
    const { et, sent } = fakeExifTool(h, {});
    const tag = h.choice("tag", Object.keys(COORD));
    const tags = { [tag]: h.int("a", -90, 90) };
    await et.write("/f.jpg", tags);
    const b = h.int("b", -90, 90);
    tags[tag] = b;
    await et.write("/g.jpg", tags);
    h.assert(sent.length === 2, "two writes send two commands");
    const { ref, pos, neg } = COORD[tag];
    const p = "-" + ref + "=";
    const l = sent[1].command.split("\n").filter((x) => x.startsWith(p));
    h.assert(l.length === 1 && refMatches(h, l[0].slice(p.length), b < 0 ? true : false, pos, neg), "the second write sends the first write's reference");
    h.reach("end");
  },
};
harnesses.values = {
  claim: "every tag is sent exactly once with null as empty, booleans as True/False, numbers and dates in ExifTool's own syntax; keys keep their order",
  bounds: "three tags whose values are drawn from null, booleans, integers in -99999..99999, decimals, ExifDate, ExifDateTime, ExifTime, luxon DateTime and text",
  reach: ["end"],
  async run(h) {
    const { DateTime } = h.pkg("luxon");
    const ExifDate = h.entry("ExifDate", "ExifDate");
    const ExifTime = h.entry("ExifTime", "ExifTime");
    const ExifDateTime = h.entry("ExifDateTime", "ExifDateTime");
    const mk = (n) => {
      const k = h.choice(n, ["null", "bool", "int", "dec", "date", "time", "datetime", "luxon", "text"]);
      if (k === "null") return [null, ""];
      if (k === "bool") {
        const b = h.bool(n + "b");
        return [b, b ? "True" : "False"];
      }
      if (k === "int") {
        const i = h.int(n + "i", -99999, 99999);
        return [i, String(i)];
      }
      if (k === "dec") return [-0.125, "-0.125"];
      if (k === "date") return [new ExifDate(2024, 2, 9), "2024:02:09"];
      if (k === "time") return [new ExifTime(7, 5, 3), "07:05:03"];
      if (k === "datetime") return [ExifDateTime.from("2024:02:09 07:05:03+05:30"), "2024:02:09 07:05:03+05:30"];
      if (k === "luxon") return [DateTime.fromISO("2024-02-09T07:05:03+05:30", { setZone: true }), "2024:02:09 07:05:03+05:30"];
      return ["text", "text"];
    };
    const [a, ea] = mk("a");
    const [b, eb] = mk("b");
    const sent = await send(h, { Rating: a, "XMP:Label": b, Artist: null });
    const mine = sent[0].command.split("\n").filter((l) => l.startsWith("-Rating=") || l.startsWith("-XMP:Label=") || l.startsWith("-Artist="));
    h.reach("end");
    h.observe("mine", mine.join("|"));
    h.assert(mine.length === 3, "a tag is missing or repeated");
    if (mine.length !== 3) return;
    h.assert(h.and(mine[0] === "-Rating=" + ea, mine[1] === "-XMP:Label=" + eb, mine[2] === "-Artist="), "a value was sent in another form");
  },
};
harnesses.unencodable = {
  claim: "values ExifTool cannot store reject the write and send nothing",
  bounds: "NaN, infinities, functions, symbols, Dates, Maps, class instances, alone, in lists and in structures",
  reach: ["rejected"],
  async run(h) {
    const { et, sent } = fakeExifTool(h, {});
    class K {}
    const vs = [NaN, Infinity, -Infinity, () => 1, Symbol("s"), new Map(), new K(), Buffer.from("x")];
    const v = vs[h.choice("v", vs.length)];
    const how = h.choice("how", ["plain", "second"]);
    const r = await outcome(() => et.write("/f.jpg", how === "plain" ? { Title: v } : { Artist: "x", Title: v }));
    h.assert(!r.ok && sent.length === 0, "an unencodable value was sent");
    h.reach("rejected");
  },
};
harnesses.empty = {
  claim: "a write without tags still sends a write command (never a read) for the right file",
  bounds: "no tags; useMWG, struct and writeArgs symbolic",
  reach: ["end"],
  async run(h) {
    const useMWG = h.bool("useMWG");
    const struct = h.choice("struct", [0, 1, 2, "undef"]);
    const wa = h.choice("wa", [undefined, [], ["-n"], ["-overwrite_original", "-P"]]);
    const opts = { useMWG };
    opts.struct = struct;
    if (wa !== undefined) opts.writeArgs = wa;
    const withTag = h.bool("withTag");
    const sent = await send(h, withTag ? { Artist: "x" } : {}, opts);
    const l = sent[0].command.split("\n");
    h.assert(l.some((x) => /^-[\w:]+[+-]?[=<]/.test(x)), "the command has no assignment, so ExifTool would read");
    h.assert(l.includes("-Artist=x") === withTag, "tags invented or lost");
    for (const a of wa ?? []) h.assert(l.includes(a), "a write argument is missing");
    const u = l.indexOf("-use");
    h.assert(useMWG ? u >= 0 && l[u + 1] === "MWG" : u < 0, "useMWG is not honoured");
    h.assert(l.filter((x) => x.startsWith("struct=")).join() === "struct=" + (typeof struct === "number" ? struct : 2), "struct mode is not honoured");
    h.assert(l.indexOf("/f.jpg") === l.length - 3 || (l.includes("-ignoreMinorErrors") && l.indexOf("/f.jpg") === l.length - 4), "the file is not the last argument");
    h.reach("end");
  },
};
exports.harnesses = harnesses;
