"use strict";
const { fakeExifTool, outcome, isBlank } = require("./lib/et");
const perl = require("./lib/perl");
exports.assumptions = ["ExifTool's filter wraps a text with malformed UTF-8 as {marker: {replacement: 's:'+text, rawBase64: 'b64:'+base64}}; its Perl text is run by the interpreter of lib/perl.js (IsUTF8, FixUTF8, PackUTF8, EncodeBase64 and the recursion of Filter are transcribed from the vendored ExifTool; replays use Perl)", "JSON.parse and JSON.stringify are the engine's"];
const MARK = "__etvInvalidUtf8V1";
// value of a base64 digit, as a term
function sextet(h, c) {
  return h.ite(h.and(c >= 65, c <= 90), c - 65, h.ite(h.and(c >= 97, c <= 122), c - 71, h.ite(h.and(c >= 48, c <= 57), c + 4, h.ite(c === 43, 62, 63))));
}
const B64 = [[43, 43], [47, 57], [65, 90], [97, 122]];
// n symbolic bytes as base64 text together with the bytes it stands for
function bytes(h, name, n) {
  const digits = Math.floor(n / 3) * 4 + (n % 3 === 0 ? 0 : (n % 3) + 1);
  const s = h.str(name, { min: digits, max: digits, ranges: B64 });
  const out = [];
  for (let i = 0; i < n; i++) {
    const q = Math.floor(i / 3) * 4;
    const v = (k) => sextet(h, s.charCodeAt(q + k));
    const r = i % 3;
    out.push(r === 0 ? v(0) * 4 + Math.floor(v(1) / 16) : r === 1 ? (v(1) % 16) * 16 + Math.floor(v(2) / 4) : (v(2) % 4) * 64 + v(3));
  }
  return { text: s + (n % 3 === 1 ? "==" : n % 3 === 2 ? "=" : ""), bytes: out };
}
const wire = (text, b64) => ({ [MARK]: { replacement: "s:" + text, rawBase64: "b64:" + b64 } });
async function readBack(h, tags, raw, readArgs) {
  const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(h.jsonText([{ SourceFile: "/f.jpg", ...tags }]), "", true)));
  const o = readArgs === undefined ? undefined : { readArgs };
  const r = await outcome(() => (raw ? et.readRaw("/f.jpg", o) : et.read("/f.jpg", o)));
  h.assert(r.ok, "the read rejected");
  return r.ok ? r.value : undefined;
}
function sameBytes(h, got, want) {
  h.assert(got instanceof h.globals.Uint8Array, "the original bytes are missing");
  if (!(got instanceof h.globals.Uint8Array)) return;
  h.assert(got.length === want.length, "the number of bytes differs");
  if (got.length === want.length) for (let i = 0; i < want.length; i++) h.assert(got[i] === want[i], "a byte differs");
}
const harnesses = {};
harnesses.decode = {
  claim: "a text with malformed UTF-8 is returned as its repaired text, and its original bytes stand in invalidUtf8Bytes under the same path, at every depth, by read() and readRaw(); other values stay as they are",
  bounds: "repaired text of 0..3 units of any UTF-16, 1..4 (7) original bytes of any value; as a tag, list element, structure field, element of a list in a structure",
  reach: ["read", "readRaw"],
  async run(h) {
    const raw = h.bool("raw");
    const text = h.str("text", { min: 0, max: 3 });
    const n = h.choice("n", h.tier === "thorough" ? [1, 2, 3, 4, 5, 6, 7] : [1, 2, 3, 4]);
    const b = bytes(h, "b64", n);
    const w = wire(text, b.text);
    const at = h.choice("at", ["tag", "list", "struct", "deep", "proto"]);
    const tags = at === "tag" ? { Title: w, Artist: "a" } : at === "list" ? { Keywords: ["a", w, "b"] } : at === "struct" ? { Regions: { A: "a", B: w } } : at === "proto" ? { Regions: h.symObj([["__proto__", w]]) } : { Regions: { L: [{ X: 1 }, { Y: w }], Z: 5 } };
    const t = await readBack(h, tags, raw);
    if (t === undefined) return;
    h.reach(raw ? "readRaw" : "read");
    const get = (o) => (at === "proto" ? Object.getOwnPropertyDescriptor(o?.Regions ?? {}, "__proto__")?.value : at === "tag" ? o?.Title : at === "list" ? o?.Keywords?.[1] : at === "struct" ? o?.Regions?.B : o?.Regions?.L?.[1]?.Y);
    h.assert(get(t) === text, "the repaired text differs");
    h.assert(t.invalidUtf8Bytes != null, "the original bytes are missing");
    if (t.invalidUtf8Bytes == null) return;
    sameBytes(h, get(t.invalidUtf8Bytes), b.bytes);
    const inv = t.invalidUtf8Bytes;
    h.assert(Object.keys(inv).length === 1 && (at !== "list" || Object.keys(inv.Keywords).join() === "1") && (at !== "deep" || (Object.keys(inv.Regions).join() === "L" && Object.keys(inv.Regions.L).join() === "1")), "bytes are reported for values that had none");
    if (at === "tag") h.assert(t.Artist === "a", "another tag changed");
    if (at === "list") h.assert(t.Keywords[0] === "a" && t.Keywords[2] === "b" && t.Keywords.length === 3, "another list element changed");
    if (at === "struct") h.assert(t.Regions.A === "a", "another field changed");
    if (at === "deep") h.assert(t.Regions.Z === 5 && t.Regions.L[0].X === 1, "another field changed");
  },
};
harnesses.several = {
  claim: "several malformed texts each keep their own bytes",
  bounds: "two tags, two list elements, or a tag and a field, one or two bytes each of any value; either order",
  reach: ["tags", "list", "mixed"],
  async run(h) {
    const raw = h.bool("raw");
    const a = bytes(h, "a", 1);
    const b = bytes(h, "b", 2);
    const kind = h.choice("kind", ["tags", "list", "mixed"]);
    const [p, q] = h.bool("swap") ? [b, a] : [a, b];
    const tags = kind === "tags" ? { Title: wire("x", p.text), Plain: "m", Artist: wire("y", q.text) } : kind === "list" ? { Keywords: [wire("x", p.text), wire("y", q.text)] } : { Title: wire("x", p.text), S: { F: wire("y", q.text) } };
    const t = await readBack(h, tags, raw);
    if (t === undefined) return;
    h.reach(kind);
    const inv = t.invalidUtf8Bytes ?? {};
    const [gx, gy] = kind === "tags" ? [inv.Title, inv.Artist] : kind === "list" ? [inv.Keywords?.[0], inv.Keywords?.[1]] : [inv.Title, inv.S?.F];
    sameBytes(h, gx, p.bytes);
    sameBytes(h, gy, q.bytes);
    const [x, y] = kind === "tags" ? [t.Title, t.Artist] : kind === "list" ? t.Keywords : [t.Title, t.S.F];
    h.assert(x === "x" && y === "y", "the repaired texts differ");
  },
};
harnesses.nearMiss = {
  claim: "metadata that merely resembles the filter's wrapper is returned as it is, without original bytes",
  bounds: "marker name with any one unit replaced, prefixes with any other text of up to 3 units, additional or missing fields, other types",
  reach: ["kept"],
  async run(h) {
    const raw = h.bool("raw");
    const kind = h.choice("kind", ["marker", "extra", "extraInner", "noText", "noBytes", "textPrefix", "bytesPrefix", "numbers", "numberBytes", "list", "null", "text"]);
    const good = { replacement: "s:x", rawBase64: "b64:AA==" };
    let v;
    if (kind === "marker") {
      const i = h.choice("i", [0, 2, 9, MARK.length - 1]);
      const c = h.str("c", { min: 1, max: 1, ranges: [[65, 90], [95, 95], [97, 122]] });
      const m = MARK.slice(0, i) + c + MARK.slice(i + 1);
      h.assume(m !== MARK);
      v = h.symObj([[m, good]]);
    } else if (kind === "extra") v = { [MARK]: good, More: 1 };
    else if (kind === "extraInner") v = { [MARK]: { ...good, more: "x" } };
    else if (kind === "noText") v = { [MARK]: { rawBase64: "b64:AA==", other: "s:x" } };
    else if (kind === "noBytes") v = { [MARK]: { replacement: "s:x", other: "b64:AA==" } };
    else if (kind === "textPrefix" || kind === "bytesPrefix") {
      const s = h.str("s", { min: 0, max: 3 });
      if (kind === "textPrefix") h.assume(!s.startsWith("s:"));
      v = { [MARK]: kind === "textPrefix" ? { ...good, replacement: s } : { ...good, rawBase64: s + "AA==" } };
      if (kind === "bytesPrefix") h.assume(!(s + "AA==").startsWith("b64:"));
    } else if (kind === "numbers") v = { [MARK]: { replacement: 5, rawBase64: "b64:AA==" } };
    else if (kind === "numberBytes") v = { [MARK]: { replacement: "s:x", rawBase64: 7 } };
    else if (kind === "list") v = { [MARK]: ["s:x", "b64:AA=="] };
    else v = { [MARK]: kind === "null" ? null : "s:x" };
    const t = await readBack(h, { Title: { A: "a", N: null, E: [], F: {}, L: [null, [1]], V: v } }, raw);
    if (t === undefined) return;
    h.reach("kept");
    h.assert(t.invalidUtf8Bytes === undefined, "bytes were invented");
    const got = t.Title?.V;
    h.assert(got !== null && typeof got === "object", "the structure was replaced");
    if (got === null || typeof got !== "object") return;
    const k = Object.keys(got);
    h.assert(k.length === (kind === "extra" ? 2 : 1), "the structure changed");
    const o = t.Title;
    h.assert(o.A === "a" && (raw ? o.N === null : o.N == null) && o.E.length === 0 && Object.keys(o.F).length === 0 && o.L.length === 2 && (raw ? o.L[0] === null : o.L[0] == null) && o.L[1].length === 1 && o.L[1][0] === 1, "a value beside it changed");
    if (kind === "marker") return;
    const p = got[MARK];
    if (kind === "null" || kind === "text") return h.assert(p === v[MARK] || (!raw && kind === "null" && p === undefined), "the structure changed");
    if (kind === "list") h.assert(Array.isArray(p) && p[0] === "s:x" && p[1] === "b64:AA==", "the structure changed");
    else for (const f of Object.keys(v[MARK])) h.assert(p[f] === v[MARK][f], "the structure changed");
  },
};
harnesses.dropped = {
  claim: "read() reports no bytes for a tag it does not return",
  bounds: "a placeholder text (null, undef, undefined) or any other text of up to 3 units, with bytes, next to another malformed tag, two dropped tags at once included; tags withheld with an impossible location",
  reach: ["dropped", "kept"],
  async run(h) {
    const word = h.bool("word");
    const text = word ? h.choice("w", ["null", "undef", "undefined"]) : h.str("t", { min: 1, max: 3 });
    const other = h.bool("other");
    const gone = h.choice("gone", ["none", "words", "gps"]);
    const more = gone === "none" ? [] : gone === "words" ? ["Label", "Make"] : ["GPSAreaInformation", "GPSMapDatum"];
    const extra = Object.fromEntries(more.map((k) => [k, wire(gone === "gps" ? "g" : "undef", "gg==")]));
    if (gone === "gps") Object.assign(extra, { GPSLatitude: 95, GPSLongitude: 5 });
    const first = h.bool("first");
    const t = await readBack(h, { ...(first ? extra : {}), Title: wire(text, "/w=="), ...(other ? { Artist: wire("a", "gA==") } : {}), ...(first ? {} : extra) }, false);
    if (t === undefined) return;
    const here = Object.hasOwn(t, "Title");
    h.reach(here ? "kept" : "dropped");
    h.assert(here === !word, "a tag was dropped, or a placeholder kept");
    const inv = t.invalidUtf8Bytes;
    h.assert((inv !== undefined && Object.hasOwn(inv, "Title")) === here, "bytes for a tag that is not returned, or none for one that is");
    if (other) sameBytes(h, inv?.Artist, [0x80]);
    for (const k of more) h.assert(!Object.hasOwn(t, k) && !Object.hasOwn(inv ?? {}, k), "bytes for a tag that is not returned");
    if (!other && !here) h.assert(inv === undefined, "bytes were invented");
  },
};
harnesses.customFilter = {
  claim: "the UTF-8 filter is sent, and its output decoded, exactly unless the last Filter among the caller's -api arguments has a value",
  bounds: "read and readRaw; readArgs of up to two -api arguments, each Filter in any letter case, with = or ^= or without, any value of up to 2 units (1 with two arguments), or another option; -api in any case; something else than -api before it",
  reach: ["builtIn", "custom"],
  witnessMax: 120,
  async run(h) {
    const raw = h.bool("raw");
    const n = h.choice("n", [0, 1, 2]);
    const full = n === 1;
    const readArgs = n === 2 && h.bool("lead") ? ["-fast"] : [];
    let custom = false;
    for (let i = 0; i < n; i++) {
      const api = h.choice("api" + i, full ? ["-api", "-API", "-Api", "-x"] : ["-api", "-x"]);
      const name = h.choice("name" + i, full ? ["Filter", "filter", "FILTER", "fIlTer", "Filte", "xFilter", "FilterX"] : ["fILTER", "Other"]);
      const op = h.choice("op" + i, full ? ["=", "^=", "", "^"] : ["=", ""]);
      const hasVal = op.endsWith("=");
      const val = hasVal ? h.str("val" + i, { min: 0, max: full ? 2 : 1, ranges: [[9, 9], [32, 126], [160, 160]] }) : "";
      readArgs.push(api, name + op + val);
      const isFilter = name.toLowerCase() === "filter";
      if (/^-api$/i.test(api) && isFilter) custom = hasVal ? h.not(isBlank(h, val)) : true;
    }
    const { et, sent } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(h.jsonText([{ SourceFile: "/f.jpg", Title: wire("x", "/w==") }]), "", true)));
    const r = await outcome(() => (raw ? et.readRaw("/f.jpg", { readArgs }) : et.read("/f.jpg", { readArgs })));
    h.assert(r.ok && sent.length === 1, "the read rejected");
    if (!r.ok || sent.length !== 1) return;
    const builtIn = sent[0].command.includes(MARK);
    h.reach(builtIn ? "builtIn" : "custom");
    h.assert(h.eq(builtIn, h.not(custom)), "the filter was sent although the caller has one, or not sent although there is none");
    const t = r.value;
    h.assert((t.Title === "x") === builtIn, "decoded without the filter, or not decoded with it");
    if (!builtIn) h.assert(t.invalidUtf8Bytes === undefined && t.Title[MARK].replacement === "s:x", "the custom filter's output was changed");
    const lines = sent[0].command.split("\n");
    if (builtIn) h.assert(lines.filter((l, i) => l.includes(MARK) && lines[i - 1] === "-api").length === 1, "the filter is not one -api argument");
  },
};
// The value ExifTool's Filter makes of v, by the text this tree sends. Solver
// runs use the interpreter of lib/perl.js, replays Perl and the vendored code.
function filtered(h, text, v) {
  const box = { v };
  perl.filter(h, perl.parse(text), box, perl.OUTER);
  if (!h.symbolic) {
    const lib = (process.env.VERIF_REPO ?? "/repo") + "/node_modules/exiftool-vendored.pl/bin/lib";
    const r = perl.realFilter("perl", lib, text, v);
    if (r !== undefined) return r.v;
  }
  return box.v;
}
function sameCodes(h, got, want) {
  if (!perl.isStr(got) || got.str.length !== want.length) return false;
  let same = true;
  for (let i = 0; i < want.length; i++) same = h.and(same, got.str[i] === want[i]);
  return same;
}
harnesses.perlFilter = {
  claim: "the Perl filter sent to ExifTool wraps exactly the texts with malformed UTF-8: repaired text without NULs, malformed bytes replaced by U+FFFD, and the base64 of the untouched bytes; valid text and binary values are left alone",
  bounds: "1..2 bytes of any value (3, 4 thorough, as a tag) as tag, list element, structure field, nested list, binary value, binary value in a list or a structure; a filter text outside the interpreter's Perl subset is not decided",
  reach: ["valid", "malformed", "binary"],
  witnessMax: 12,
  async run(h) {
    const { et, sent } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser('[{"SourceFile":"/f.jpg"}]', "", true)));
    await outcome(() => (h.bool("raw") ? et.readRaw("/f.jpg") : et.read("/f.jpg")));
    h.assert(sent.length === 1, "no command was sent");
    if (sent.length !== 1) return;
    const lines = sent[0].command.split("\n");
    const at = lines.findIndex((l, i) => i > 0 && lines[i - 1] === "-api" && /^Filter=/i.test(l));
    h.assert(at > 0, "the filter is not sent");
    if (at < 0) return;
    const code = lines[at].slice("Filter=".length);
    const n = h.choice("n", h.tier === "thorough" ? [1, 2, 3, 4] : [1, 2, 3]);
    const pos = n > 2 ? "tag" : h.choice("pos", ["tag", "list", "struct", "deep", "binary", "binaryInList", "binaryInStruct"]);
    const b = [];
    for (let i = 0; i < n; i++) b.push(h.int("b" + i, 0, 255));
    const leaf = perl.str(b);
    const plain = perl.lit("ok");
    const bin = { to: { v: leaf } };
    const v = pos === "tag" ? leaf : pos === "list" ? { array: [plain, leaf, plain] } : pos === "struct" ? { hash: [["A", plain], ["B", leaf]] } : pos === "deep" ? { hash: [["A", { array: [{ hash: [["B", leaf]] }] }]] } : pos === "binary" ? bin : pos === "binaryInList" ? { array: [bin] } : { hash: [["A", bin]] };
    let r;
    try {
      r = filtered(h, code, v);
    } catch (e) {
      if (!String(e?.message).startsWith("perl: ")) throw e;
      for (const l of ["valid", "malformed", "binary"]) h.reach(l); // outside the subset: not decided
      return;
    }
    const field = (o, k) => o?.hash?.find((x) => x[0] === k)?.[1];
    const got = pos === "tag" ? r : pos === "list" ? r?.array?.[1] : pos === "struct" ? field(r, "B") : pos === "deep" ? field(field(r, "A")?.array?.[0], "B") : pos === "binary" ? r?.to?.v : pos === "binaryInList" ? r?.array?.[0]?.to?.v : field(r, "A")?.to?.v;
    if (pos === "list") h.assert(sameCodes(h, r?.array?.[0], plain.str) && sameCodes(h, r?.array?.[2], plain.str), "another list element changed");
    if (pos === "struct") h.assert(sameCodes(h, field(r, "A"), plain.str), "another field changed");
    if (pos.startsWith("binary")) {
      h.reach("binary");
      return h.assert(sameCodes(h, got, b), "a binary value was changed");
    }
    if (perl.isUTF8(b) >= 0) {
      h.reach("valid");
      return h.assert(sameCodes(h, got, b), "a valid text was changed");
    }
    h.reach("malformed");
    const noNul = [];
    for (const c of b) if (c !== 0) noNul.push(c);
    const want = perl.fixUTF8(noNul, [0xef, 0xbf, 0xbd]);
    h.assert(got?.hash?.length === 1 && got.hash[0][0] === MARK && got.hash[0][1]?.hash?.length === 2, "malformed text is not wrapped");
    const w = got?.hash?.[0]?.[1];
    h.assert(sameCodes(h, field(w, "replacement"), [...perl.lit("s:").str, ...want]), "the repaired text differs");
    h.assert(sameCodes(h, field(w, "rawBase64"), [...perl.lit("b64:").str, ...perl.encodeBase64(h, b, true)]), "the original bytes differ");
  },
};
exports.harnesses = harnesses;
