"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
const R = require("./lib/exiftool-ref");

exports.assumptions = [
  "ExifTool's own decoding is the transcription in harness/lib/exiftool-ref.js (one -E layer for plain values, a second one for serialised structure fields)",
];
// The published vocabulary, written down independently of the implementation.
const ADD = ["IPTC:CatalogSets", "IPTC:Keywords", "MIE-Doc:Keywords", "XMP-acdsee:Keywords", "XMP-dc:Subject", "XMP-digiKam:TagsList", "XMP-expressionmedia:CatalogSets", "XMP-expressionmedia:People", "XMP-iptcExt:PersonInImage", "XMP-lr:HierarchicalSubject", "XMP-mediapro:CatalogSets", "XMP-mediapro:People", "XMP-microsoft:LastKeywordXMP"];
const REMOVE_ONLY = ["XMP-MP:RegionPersonDisplayName", "XMP-acdsee-rs:ACDSeeRegionName", "XMP-mwg-rs:RegionName", "XMP-xmpDM:Album"];
const COLL = "XMP-mwg-coll:Collections";

// a string that survives ExifTool and XML unchanged
function preservable(h, s) {
  let ok = true;
  for (const c of R.codePoints(s)) {
    ok = h.and(
      ok,
      !(c <= 8) && c !== 11 && c !== 12 && c !== 13 && !(c >= 14 && c <= 31),
      !(c >= 0xd800 && c <= 0xdfff),
      !(c >= 0xfdd0 && c <= 0xfdef),
    );
    const low = c % 65536;
    ok = h.and(ok, low !== 0xfffe && low !== 0xffff);
  }
  return ok;
}
async function edit(h, edits, opts) {
  const { et, sent } = fakeExifTool(h, {});
  const r = await outcome(() => et.editTags("/f.jpg", edits, opts));
  h.assert(r.ok === (sent.length === 1), "an edit either sends exactly one command or rejects");
  return { ok: sent.length === 1, lines: sent.length ? sent[0].command.split("\n") : [] };
}
const harnesses = {};
harnesses.value = {
  claim: "a primitive edit is accepted iff its value is a non-empty exactly-preservable string and the tag allows the operation; the accepted value is decoded by ExifTool to exactly that string",
  bounds: "every tag of the vocabulary, both operations, values of 0..2 UTF-16 units (thorough 0..3), every value per unit",
  reach: ["accepted", "rejected"],
  maxDecisions: 8000,
  async run(h) {
    const tag = h.choice("tag", [...ADD.slice(0, 1), ADD[4], REMOVE_ONLY[1]]);
    const op = h.choice("op", ["add", "remove"]);
    const v = h.str("v", { min: 0, max: h.tier === "thorough" ? 3 : 2 });
    const r = await edit(h, [{ tag, operation: op, value: v }]);
    const allowed = op === "remove" || ADD.includes(tag);
    const good = h.and(allowed, v.length > 0, preservable(h, v));
    h.observe("ok", r.ok);
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(h.eq(r.ok, good), "the edit's acceptance differs from the documented rule");
    if (!r.ok) return;
    const prefix = "-" + tag + (op === "add" ? "+=" : "-=");
    const mine = r.lines.filter((l) => l.startsWith(prefix));
    h.assert(mine.length === 1, "the edit is not sent as one argument");
    if (mine.length !== 1) return;
    h.observe("line", mine[0]);
    const got = R.splitOn(R.unescapeHTML(R.valueOfLine(mine[0], prefix)), 31);
    h.assert(got.length === 1, "ExifTool would split the value");
    h.assert(R.sameCodePoints(h, got[0], R.codePoints(v)), "ExifTool would store or match another text");
  },
};
harnesses.entities = {
  claim: "HTML entity text in an edit value stays literal",
  bounds: "values built from the characters & # ; digits and letters, 1..5 units (thorough 1..6)",
  reach: ["checked"],
  maxDecisions: 8000,
  async run(h) {
    const v = h.str("v", { min: 1, max: h.tier === "thorough" ? 6 : 5, ranges: "&#;13amp" });
    const r = await edit(h, [{ tag: "XMP-dc:Subject", operation: "add", value: v }]);
    h.assert(r.ok, "plain ASCII text was refused");
    const p = "-XMP-dc:Subject+=";
    const l = r.lines.find((x) => x.startsWith(p));
    h.reach("checked");
    h.assert(R.sameCodePoints(h, R.unescapeHTML(R.valueOfLine(l, p)), R.codePoints(v)), "entity text was decoded");
  },
};
function fieldString(h, name, max, ranges) {
  return h.str(name, { min: 0, max, ranges });
}
for (const mode of ["unicode", "ascii"]) {
  harnesses["collection_" + mode] = {
    claim: "Collections: fields accepted iff preservable strings; ExifTool recovers exactly the given fields after both decode layers",
    bounds: mode === "unicode" ? "CollectionName of 0..1 units (every value), CollectionURI of 0..1" : "CollectionName of 0..3 units over & # ; 3 8 , | { } [ ] = space, with a fixed URI; add and remove by either field",
    reach: ["accepted"],
    maxDecisions: 8000,
    async run(h) {
      const op = h.choice("op", ["add", "remove", "removeURI"]);
      const name = mode === "unicode" ? fieldString(h, "name", h.tier === "thorough" ? 2 : 1) : fieldString(h, "name", 3, "&#;38,|{}[]= ");
      const uri = mode === "unicode" && op === "add" ? fieldString(h, "uri", 1) : "u";
      const e =
        op === "add"
          ? { tag: COLL, operation: "add", value: { CollectionName: name, CollectionURI: uri } }
          : { tag: COLL, operation: "remove", predicate: op === "remove" ? { CollectionName: name } : { CollectionURI: name } };
      const r = await edit(h, [e]);
      const good = h.and(preservable(h, name), preservable(h, uri));
      h.assert(h.eq(r.ok, good), "the collection edit's acceptance differs from the documented rule");
      if (!r.ok) return;
      h.reach("accepted");
      const p = "-" + COLL + (op === "add" ? "+=" : "-=");
      const l = r.lines.filter((x) => x.startsWith(p));
      h.assert(l.length === 1, "the edit is not sent as one argument");
      if (l.length !== 1) return;
      h.observe("line", l[0]);
      const s = R.inflate(R.unescapeHTML(R.valueOfLine(l[0], p)), 0);
      const want = op === "add" ? [["CollectionName", name], ["CollectionURI", uri]] : op === "remove" ? [["CollectionName", name]] : [["CollectionURI", name]];
      const shape = !s.bad && s.v.struct !== undefined && s.v.struct.length === want.length;
      h.assert(shape, "the serialised collection is malformed");
      if (!shape) return;
      for (let i = 0; i < want.length; i++) {
        h.assert(R.sameCodePoints(h, s.v.struct[i][0], R.codePoints(want[i][0])), "field name changed");
        h.assert(R.sameCodePoints(h, R.unescapeHTML(s.v.struct[i][1]), R.codePoints(want[i][1])), "field value changed");
      }
    },
  };
}
harnesses.structEntities = {
  claim: "HTML entity text in a collection's fields stays literal through both decode layers",
  bounds: "fields made of an entity whose name is one of 5 or 1..2 arbitrary characters of # digits and letters, itself possibly escaped once; add, and remove by either field",
  reach: ["checked"],
  maxDecisions: 8000,
  async run(h) {
    const op = h.choice("op", ["add", "remove", "removeURI"]);
    const e = h.choice("e", ["lt", "#38", "#9", "amp", "quot", undefined]);
    const v = h.choice("amp", ["&", "&amp;", "&#38;"]) + (e === undefined ? h.str("e2", { min: 1, max: 2, ranges: "#13almpt" }) : e) + ";";
    const r = await edit(h, [
      op === "add"
        ? { tag: COLL, operation: "add", value: { CollectionName: v, CollectionURI: v } }
        : { tag: COLL, operation: "remove", predicate: op === "remove" ? { CollectionName: v } : { CollectionURI: v } },
    ]);
    h.assert(r.ok, "plain ASCII text was refused");
    if (!r.ok) return;
    const p = "-" + COLL + (op === "add" ? "+=" : "-=");
    const l = r.lines.filter((x) => x.startsWith(p));
    h.assert(l.length === 1, "the edit is not sent as one argument");
    if (l.length !== 1) return;
    h.reach("checked");
    const s = R.inflate(R.unescapeHTML(R.valueOfLine(l[0], p)), 0);
    h.assert(!s.bad && s.v.struct !== undefined, "the serialised collection is malformed");
    if (s.bad || s.v.struct === undefined) return;
    h.assert(s.v.struct.length === (op === "add" ? 2 : 1), "a field was added or lost");
    for (const [, t] of s.v.struct) h.assert(R.sameCodePoints(h, R.unescapeHTML(t), R.codePoints(v)), "entity text was decoded");
  },
};
harnesses.vocabulary = {
  claim: "only tags of the published vocabulary, in canonical casing, are accepted; remove-only tags cannot be added to",
  bounds: "every vocabulary tag with one arbitrary UTF-16 unit substituted or appended at any of 6 positions; both operations",
  reach: ["accepted", "rejected"],
  async run(h) {
    const all = [...ADD, ...REMOVE_ONLY];
    const tag = h.choice("tag", h.tier === "thorough" ? all : [ADD[1], ADD[4], ADD[9], ...REMOVE_ONLY]);
    const at = h.choice("at", [0, 3, 4, tag.indexOf(":"), tag.length - 1, tag.length]);
    const c = h.str("c", { min: 0, max: 1 });
    const op = h.choice("op", ["add", "remove"]);
    const name = tag.slice(0, at) + c + tag.slice(at + 1);
    const r = await edit(h, [{ tag: name, operation: op, value: "x" }]);
    let known = false;
    for (const t of op === "add" ? ADD : all) known = h.or(known, name === t);
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(h.eq(r.ok, known), "tag acceptance differs from the vocabulary");
  },
};
harnesses.vocabularyAll = {
  claim: "every vocabulary tag is accepted for exactly its operations",
  bounds: "all 17 primitive tags, both operations",
  reach: ["accepted", "rejected"],
  async run(h) {
    const tag = h.choice("tag", [...ADD, ...REMOVE_ONLY]);
    const op = h.choice("op", ["add", "remove"]);
    const r = await edit(h, [{ tag, operation: op, value: "x" }]);
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(r.ok === (op === "remove" || ADD.includes(tag)), "tag acceptance differs from the vocabulary");
  },
};
harnesses.shape = {
  claim: "malformed edits reject and send nothing",
  bounds: "listed malformed shapes: missing/extra fields, wrong types, foreign prototypes, accessor fields, unknown collection fields, unknown operation (symbolic string)",
  reach: ["rejected"],
  async run(h) {
    const T = "XMP-dc:Subject";
    const word = h.str("op", { min: 0, max: 3, ranges: "adrem" });
    h.assume(word !== "add");
    const proto = Object.create({ tag: T, operation: "add", value: "x" });
    const arr = Object.assign([], { tag: T, operation: "add", value: "x" });
    class K {
      constructor() {
        this.tag = T;
        this.operation = "add";
        this.value = "x";
      }
    }
    const acc = { CollectionURI: "u" };
    Object.defineProperty(acc, "CollectionName", { get: () => "n", enumerable: true });
    const bad = [
      [],
      undefined,
      null,
      "x",
      [null],
      ["x"],
      [proto],
      [arr],
      [new K()],
      [{ tag: T, value: "x" }],
      [{ operation: "add", value: "x" }],
      [{ tag: T, operation: "add" }],
      [{ tag: T, operation: "add", value: 5 }],
      [{ tag: T, operation: "add", value: null }],
      [{ tag: T, operation: "add", value: ["x"] }],
      [{ tag: T, operation: "add", value: { CollectionName: "x" } }],
      [{ tag: T, operation: "add", value: "x", predicate: {} }],
      [{ tag: T, operation: "remove", predicate: { CollectionName: "x" } }],
      [{ tag: COLL, operation: "add", value: "x" }],
      [{ tag: COLL, operation: "add", value: { CollectionName: "x" } }],
      [{ tag: COLL, operation: "add", value: { CollectionURI: "x" } }],
      [{ tag: COLL, operation: "add", value: { CollectionName: "x", CollectionURI: 5 } }],
      [{ tag: COLL, operation: "add", value: { CollectionName: "x", CollectionURI: "u", Extra: "e" } }],
      [{ tag: COLL, operation: "add", value: acc }],
      [{ tag: COLL, operation: "add", predicate: { CollectionName: "x", CollectionURI: "u" } }],
      [{ tag: COLL, operation: "remove", value: { CollectionName: "x" } }],
      [{ tag: COLL, operation: "remove", predicate: {} }],
      [{ tag: COLL, operation: "remove", predicate: { Extra: "e" } }],
      [{ tag: COLL, operation: "remove", predicate: "x" }],
      [{ tag: COLL, operation: "remove", predicate: { CollectionName: "x", [Symbol("s")]: "y" } }],
      [{ tag: COLL, operation: "remove", predicate: { CollectionName: "x" }, value: "y" }],
      [{ tag: T, operation: "add", value: "x" }, { tag: T, operation: "add", value: "" }],
      [{ tag: T, operation: word, value: "x" }],
    ];
    const edits = bad[h.choice("shape", bad.length)];
    const r = await edit(h, edits);
    h.assert(!r.ok, "a malformed edit was sent");
    h.reach("rejected");
  },
};
harnesses.conflicts = {
  claim: "edits are sent in order; a sequence is rejected iff some addition is followed by a removal of the same value of the same tag",
  bounds: "sequences of 1..3 edits; operation, tag (two tags) and one-unit value of each edit symbolic",
  reach: ["accepted", "rejected"],
  maxDecisions: 8000,
  async run(h) {
    const n = 1 + h.choice("n", 3);
    const ops = [];
    const tags = [];
    const vals = [];
    const edits = [];
    for (let i = 0; i < n; i++) {
      ops.push(h.choice("op" + i, ["add", "remove"]));
      tags.push(h.choice("tag" + i, ["XMP-dc:Subject", "IPTC:Keywords"]));
      vals.push(h.str("v" + i, { min: 1, max: 1, ranges: [[65, 122]] }));
      edits.push({ tag: tags[i], operation: ops[i], value: vals[i] });
    }
    const r = await edit(h, edits);
    let conflict = false;
    for (let i = 0; i < n; i++) for (let j = i + 1; j < n; j++) if (ops[i] === "add" && ops[j] === "remove" && tags[i] === tags[j]) conflict = h.or(conflict, vals[i] === vals[j]);
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(h.eq(r.ok, h.not(conflict)), "conflict detection differs from the documented rule");
    if (!r.ok) return;
    const mine = r.lines.filter((l) => l.startsWith("-XMP-dc:Subject") || l.startsWith("-IPTC:Keywords"));
    h.assert(mine.length === n, "every edit is sent exactly once");
    if (mine.length !== n) return;
    for (let i = 0; i < n; i++) h.assert(mine[i] === "-" + tags[i] + (ops[i] === "add" ? "+=" : "-=") + vals[i], "edits are not sent in order");
  },
};
harnesses.distant = {
  claim: "an addition conflicts with a later removal of its value however many other edits lie between them; all edits are sent, in order",
  bounds: "0..5 additions or removals of other values before, 0, 1, 2, 3, 6, 12, 40, 130 between (thorough 0..12, 20, 40, 70, 130, 260); one-unit values; both a primitive and a Collection pair",
  reach: ["accepted", "rejected"],
  async run(h) {
    const before = h.choice("before", [0, 1, 5]);
    const between = h.choice("between", h.tier === "thorough" ? [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 40, 70, 130, 260] : [0, 1, 2, 3, 6, 12, 40, 130]);
    const coll = h.bool("coll");
    const op = h.choice("fill", ["add", "remove"]);
    const fill = (i) => ({ tag: "XMP-dc:Subject", operation: op, value: "fill" + i });
    const a = h.str("a", { min: 1, max: 1, ranges: [[65, 122]] });
    const b = h.str("b", { min: 1, max: 1, ranges: [[65, 122]] });
    const edits = [];
    for (let i = 0; i < before; i++) edits.push(fill(i));
    edits.push(coll ? { tag: COLL, operation: "add", value: { CollectionName: a, CollectionURI: "u" } } : { tag: "XMP-dc:Subject", operation: "add", value: a });
    for (let i = 0; i < between; i++) edits.push(fill(before + i));
    edits.push(coll ? { tag: COLL, operation: "remove", predicate: { CollectionName: b } } : { tag: "XMP-dc:Subject", operation: "remove", value: b });
    const r = await edit(h, edits);
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(h.eq(r.ok, h.not(a === b)), "conflict detection depends on the edits between");
    if (!r.ok) return;
    const mine = r.lines.filter((l) => l.startsWith("-XMP-dc:Subject") || l.startsWith("-" + COLL));
    h.assert(mine.length === edits.length, "an edit is lost or repeated");
    if (mine.length === edits.length) edits.forEach((e, i) => e.value?.startsWith?.("fill") && h.assert(mine[i] === "-XMP-dc:Subject" + (op === "add" ? "+=" : "-=") + e.value, "edits are not sent in order"));
  },
};
harnesses.collectionConflicts = {
  claim: "Collections: an addition followed by a removal whose predicate matches it is rejected, otherwise accepted",
  bounds: "names and URIs of no or one unit, predicate over either or both fields, one unrelated edit in between",
  reach: ["accepted", "rejected"],
  async run(h) {
    const one = (n) => h.str(n, { min: 0, max: 1, ranges: [[65, 122]] });
    const name = one("name");
    const uri = one("uri");
    const pn = one("pname");
    const pu = one("puri");
    const by = h.choice("by", ["name", "uri", "both"]);
    const first = h.choice("first", ["add", "remove"]);
    const predicate = by === "name" ? { CollectionName: pn } : by === "uri" ? { CollectionURI: pu } : { CollectionName: pn, CollectionURI: pu };
    const a = { tag: COLL, operation: "add", value: { CollectionName: name, CollectionURI: uri } };
    const d = { tag: COLL, operation: "remove", predicate };
    const mid = { tag: "XMP-dc:Subject", operation: "add", value: "x" };
    const r = await edit(h, first === "add" ? [a, mid, d] : [d, mid, a]);
    const match = by === "name" ? name === pn : by === "uri" ? uri === pu : h.and(name === pn, uri === pu);
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(h.eq(r.ok, h.not(h.and(first === "add", match))), "collection conflict detection differs from the rule");
  },
};
harnesses.writeArgs = {
  claim: "writeArgs that could alter edit semantics (-api…, -sep…, any case) reject the edit; others are passed through",
  bounds: "second write argument: '-' plus 0..4 units over the letters of api/sep in both cases and =",
  reach: ["accepted", "rejected"],
  async run(h) {
    const tail = h.str("arg", { min: 0, max: 4, ranges: "apisAPISeE=" });
    const arg = "-" + tail;
    const r = await edit(h, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }], { writeArgs: ["-overwrite_original", arg] });
    let danger = false;
    if (tail.length >= 3) {
      const is = (i, lo, up) => tail.charCodeAt(i) === lo || tail.charCodeAt(i) === up;
      danger = h.or(h.and(is(0, 97, 65), is(1, 112, 80), is(2, 105, 73)), h.and(is(0, 115, 83), is(1, 101, 69), is(2, 112, 80)));
    }
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(h.eq(r.ok, h.not(danger)), "writeArgs screening differs from the documented rule");
  },
};
exports.harnesses = harnesses;
