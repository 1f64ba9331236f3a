"use strict";
exports.assumptions = ["JSON.stringify and JSON.parse are the engine's (node's on concrete text; symbolic values pass through by reference)"];
const PROTO_NAMES = ["__proto__", "constructor", "toString", "valueOf", "hasOwnProperty", "isPrototypeOf", "toLocaleString", "propertyIsEnumerable", "__defineGetter__", "__lookupSetter__"];
const KINDS = ["BinaryField", "ExifDateTime", "ExifDate", "ExifTime"];
// places a value inside the serialised tags
function wrap(h, v) {
  const at = h.choice("at", ["root", "tag", "list", "struct"]);
  const doc = at === "root" ? v : at === "tag" ? { A: 1, V: v, B: "x" } : at === "list" ? { V: [v, 7] } : { S: { L: [{ V: v }] } };
  return { doc, get: (d) => (at === "root" ? d : at === "tag" ? d.V : at === "list" ? d.V[0] : d.S.L[0].V) };
}
const opt = (h, name, lo, hi) => (h.bool(name + "Set") ? h.int(name, lo, hi) : undefined);
function same(h, a, b, fields) {
  let ok = true;
  for (const f of fields) ok = h.and(ok, a[f] === undefined || b[f] === undefined ? a[f] === b[f] : a[f] === b[f]);
  return ok;
}
const harnesses = {};
harnesses.datetime = {
  claim: "a serialised ExifDateTime is revived as an ExifDateTime with the same fields, zone, inferred mark and raw text, wherever it stands in the tags",
  bounds: "any year 1..9999, month, day, hour, minute, second, milliseconds or none, zone none or any offset of -11..14 hours or an IANA name, raw text of up to 3 units of any UTF-16, inferred or not; as root, tag, list element or nested structure field",
  reach: ["zoned", "unzoned"],
  async run(h) {
    const { ExifDateTime } = h.R("ExifDateTime");
    const { parseJSON } = h.R("JSON");
    const zone = h.choice("zone", ["none", "offset", "iana"]);
    const off = zone === "offset" ? h.int("off", -11, 14) : undefined;
    const ms = opt(h, "ms", 0, 999);
    const raw = h.bool("rawSet") ? h.str("raw", { min: 0, max: h.tier === "thorough" ? 6 : 3 }) : undefined;
    const inferred = h.bool("inferred");
    const e = new ExifDateTime(h.int("y", 1, 9999), h.int("mo", 1, 12), h.int("d", 1, 28), h.int("hh", 0, 23), h.int("mi", 0, 59), h.int("s", 0, 59), ms, zone === "offset" ? off * 60 : undefined, raw, zone === "iana" ? "America/Los_Angeles" : undefined, inferred);
    const w = wrap(h, e);
    const b = w.get(parseJSON(h.jsonText(w.doc)));
    h.reach(zone === "none" ? "unzoned" : "zoned");
    h.assert(b instanceof ExifDateTime, "not revived as an ExifDateTime");
    if (!(b instanceof ExifDateTime)) return;
    h.assert(same(h, b, e, ["year", "month", "day", "hour", "minute", "second", "millisecond"]), "a field changed");
    h.assert(same(h, b, e, ["rawValue", "inferredZone"]), "the raw text or the inferred mark changed");
    h.assert(same(h, b, e, ["zoneName", "zone", "tzoffsetMinutes", "hasZone"]), "the zone changed");
  },
};
harnesses.others = {
  claim: "serialised ExifDate (full, year-month, year), ExifTime and BinaryField are revived with the same fields, wherever they stand",
  bounds: "any date fields, times with or without milliseconds and zone, sizes 0..10^9, raw text of up to 3 units of any UTF-16 or none",
  reach: ["ExifDate", "ExifTime", "BinaryField"],
  async run(h) {
    const { parseJSON } = h.R("JSON");
    const kind = h.choice("kind", ["ExifDate", "ExifTime", "BinaryField"]);
    const rawSet = kind === "BinaryField" || h.bool("rawSet");
    const raw = rawSet ? h.str("raw", { min: 0, max: h.tier === "thorough" ? 6 : 3 }) : undefined;
    const { [kind]: Cls } = h.R(kind);
    let v;
    let fields;
    if (kind === "ExifDate") {
      const part = h.choice("part", ["full", "ym", "y"]);
      v = new Cls(h.int("y", 1, 9999), part === "y" ? undefined : h.int("mo", 1, 12), part === "full" ? h.int("d", 1, 31) : undefined, raw);
      fields = ["year", "month", "day", "rawValue"];
    } else if (kind === "ExifTime") {
      v = new Cls(h.int("hh", 0, 23), h.int("mi", 0, 59), h.int("s", 0, 59), opt(h, "ms", 0, 999), raw, h.choice("zone", [undefined, "UTC", "UTC+5:30", "America/Los_Angeles"]), h.choice("inf", [undefined, false, true]));
      fields = ["hour", "minute", "second", "millisecond", "rawValue", "zone", "inferredZone"];
    } else {
      v = new Cls(h.int("n", 0, 1e9), raw);
      fields = ["bytes", "rawValue"];
    }
    h.reach(kind);
    const w = wrap(h, v);
    const b = w.get(parseJSON(h.jsonText(w.doc)));
    h.assert(b instanceof Cls, "not revived as its class");
    if (!(b instanceof Cls)) return;
    h.assert(same(h, b, v, fields), "a field changed");
  },
};
harnesses.plain = {
  claim: "everything else is revived as plain JSON gives it, even objects that carry a _ctor of any other text or type",
  bounds: "_ctor any text of up to 5 units, any name of Object.prototype, a number or absent; a value of any text of up to 3 units or number; tag names such as _ctor's or invalidUtf8Bytes elsewhere",
  reach: ["plain"],
  async run(h) {
    const { parseJSON } = h.R("JSON");
    const kind = h.choice("ctor", ["text", "proto", "number", "absent", "near"]);
    let c;
    if (kind === "text") {
      c = h.str("c", { min: 0, max: 5 });
    } else if (kind === "proto") c = h.choice("p", PROTO_NAMES);
    else if (kind === "number") c = h.int("n", -5, 5);
    else if (kind === "near") {
      const k = h.choice("k", KINDS);
      const x = h.str("x", { min: 1, max: 1 });
      const at = h.choice("where", ["before", "after", "first"]);
      c = at === "before" ? x + k : at === "after" ? k + x : x + k.slice(1);
      for (const n of KINDS) h.assume(c !== n);
    }
    const val = h.bool("isText") ? h.str("v", { min: 0, max: 3 }) : h.int("iv", -1000, 1000);
    const o = { A: val, bytes: 3, year: 2020 };
    if (c !== undefined) o._ctor = c;
    const w = wrap(h, o);
    const b = w.get(parseJSON(h.jsonText(w.doc)));
    h.reach("plain");
    h.assert(Object.getPrototypeOf(b) === Object.prototype, "a plain object became something else");
    h.assert(Object.keys(b).length === Object.keys(o).length && b.A === val && b.bytes === 3 && b.year === 2020, "a plain object changed");
    if (c !== undefined) h.assert(b._ctor === c, "_ctor changed");
  },
};
harnesses.otherKeys = {
  claim: "an object of bytes under any other name than invalidUtf8Bytes is left alone",
  bounds: "that name with any one unit replaced, added before or behind, or in other letter case, and four other names; one or two bytes of any value; at the top, in a list or in a structure",
  reach: ["plain"],
  async run(h) {
    const { parseJSON } = h.R("JSON");
    const N = "invalidUtf8Bytes";
    const kind = h.choice("kind", ["replace", "before", "behind", "fixed"]);
    const c = h.str("c", { min: 1, max: 1, ranges: [[48, 57], [65, 90], [95, 95], [97, 122]] });
    const i = h.choice("i", [0, 7, N.length - 1]);
    const key = kind === "before" ? c + N : kind === "behind" ? N + c : kind === "replace" ? N.slice(0, i) + c + N.slice(i + 1) : h.choice("fixed", ["InvalidUTF8Bytes", "Utf8Bytes", "Keywords", "Title", "bytes"]);
    h.assume(key !== N);
    const v = { 0: h.int("b", 0, 255), ...(h.bool("two") ? { 1: 7 } : {}) };
    const o = h.symObj([["A", 1], [key, v]]);
    const w = wrap(h, o);
    const b = w.get(parseJSON(h.jsonText(w.doc)));
    h.reach("plain");
    const g = b[key];
    h.assert(g !== null && typeof g === "object" && !(g instanceof h.globals.Uint8Array) && Object.getPrototypeOf(g) === Object.prototype, "a plain object became something else");
    if (g !== null && typeof g === "object") h.assert(Object.keys(g).length === Object.keys(v).length && g[0] === v[0] && g[1] === v[1], "a plain object changed");
  },
};
harnesses.invalidBytes = {
  claim: "the invalidUtf8Bytes of serialised tags are revived as byte arrays with the same bytes, at every depth; anything else under that name is left alone",
  bounds: "1..3 bytes of any value, for a tag, a list element or a field of a structure; near misses: a number out of 0..255, a text, missing index",
  reach: ["bytes", "other"],
  async run(h) {
    const { parseJSON } = h.R("JSON");
    const U8 = h.globals.Uint8Array;
    const n = h.int("n", 1, 3);
    const bytes = [];
    for (let i = 0; i < n; i++) bytes.push(h.int("b" + i, 0, 255));
    const kind = h.choice("kind", ["tag", "list", "struct", "two", "notByte", "text", "gap"]);
    const arr = U8.from(bytes);
    const plain = {};
    bytes.forEach((b, i) => (plain[i] = b));
    let inv;
    let at;
    if (kind === "tag") (inv = { Title: arr }), (at = (x) => x.Title);
    else if (kind === "list") (inv = { Keywords: { 1: arr } }), (at = (x) => x.Keywords[1]);
    else if (kind === "struct") (inv = { S: { F: { 0: { G: arr } } } }), (at = (x) => x.S.F[0].G);
    else if (kind === "two") (inv = { Artist: U8.from([1]), Title: arr }), (at = (x) => x.Title);
    else {
      const bad = kind === "notByte" ? h.choice("bad", [-1, 256, 1.5]) : kind === "text" ? "7" : undefined;
      const o = kind === "gap" ? { 1: 5 } : { ...plain, [n]: bad };
      inv = { Title: o };
      const r = parseJSON(h.jsonText({ Title: "x", invalidUtf8Bytes: inv })).invalidUtf8Bytes.Title;
      h.reach("other");
      h.assert(!(r instanceof U8), "something that is no byte list became one");
      h.assert(Object.keys(r).length === Object.keys(o).length && Object.keys(o).every((k) => r[k] === o[k]), "a value under invalidUtf8Bytes changed");
      return;
    }
    const doc = parseJSON(h.jsonText({ Title: "x", invalidUtf8Bytes: inv }));
    const r = at(doc.invalidUtf8Bytes);
    h.reach("bytes");
    h.assert(r instanceof U8, "the bytes were not revived as a byte array");
    if (!(r instanceof U8)) return;
    h.assert(r.length === n, "the number of bytes changed");
    for (let i = 0; i < n; i++) h.assert(r[i] === bytes[i], "a byte changed");
    if (kind === "two") h.assert(doc.invalidUtf8Bytes.Artist instanceof U8 && doc.invalidUtf8Bytes.Artist[0] === 1, "another tag's bytes were lost");
  },
};
exports.harnesses = harnesses;
