"use strict";
const { fakeExifTool } = require("./lib/et");
const R = require("./lib/exiftool-ref");

exports.assumptions = [
  "ExifTool's own decoding (FilterArgfileLine, -E un-escaping, InflateStruct, -sep splitting) is the transcription in harness/lib/exiftool-ref.js",
  "values with '&' (documented entity decoding of write()), NUL, U+001F (the list separator) or lone surrogates are outside the claim",
];
// characters for which write() promises literal transmission
function plain(h, s) {
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    h.assume(c !== 38 && c !== 0 && c !== 31);
  }
  for (const c of R.codePoints(s)) h.assume(c < 0xd800 || c > 0xdfff);
}
async function lineFor(h, value, prefix) {
  const { et, sent } = fakeExifTool(h, {});
  await et.write("/f.jpg", { Title: value });
  h.assert(sent.length === 1, "write sends one command");
  const lines = sent[0].command.split("\n").filter((l) => l.startsWith(prefix));
  h.assert(lines.length === 1, "the tag is sent exactly once");
  return lines[0];
}
const P = "-Title=";
exports.harnesses = {
  scalar: {
    claim: "write({Title: s}): ExifTool decodes exactly s",
    bounds: "s of 0..3 UTF-16 units (thorough 0..4), every value except &, NUL, U+001F and lone surrogates",
    reach: ["checked"],
    async run(h) {
      const s = h.str("s", { min: 0, max: h.tier === "thorough" ? 4 : 3 });
      plain(h, s);
      const line = await lineFor(h, s, P);
      h.observe("line", line);
      const got = R.unescapeHTML(R.valueOfLine(line, P));
      h.reach("checked");
      h.assert(R.sameCodePoints(h, got, R.codePoints(s)), "ExifTool would store another text than the one written");
    },
  },
  list: {
    claim: "write({Title: [a, b]}): ExifTool splits and decodes exactly the given list",
    bounds: "1..3 elements of 0..2 UTF-16 units",
    reach: ["checked"],
    async run(h) {
      const n = 1 + h.choice("n", 3);
      const items = [];
      for (let i = 0; i < n; i++) {
        const s = h.str("s" + i, { min: 0, max: n === 1 ? 2 : n === 2 && h.tier === "thorough" ? 2 : 1 });
        plain(h, s);
        items.push(s);
      }
      const line = await lineFor(h, items, P);
      const got = R.splitOn(R.unescapeHTML(R.valueOfLine(line, P)), 31);
      h.reach("checked");
      h.assert(got.length === items.length, "the list has another length");
      if (got.length !== items.length) return;
      for (let i = 0; i < n; i++) h.assert(R.sameCodePoints(h, got[i], R.codePoints(items[i])), "a list element changed");
    },
  },
  struct: {
    claim: "write({Title: {A: s, B: t}}): ExifTool's struct parser recovers exactly the two fields",
    bounds: "two string fields of 0..2 and 0..1 units, every value except &, NUL, U+001F, lone surrogates; with and without an enclosing list",
    reach: ["checked"],
    async run(h) {
      const s = h.str("s", { min: 0, max: h.tier === "thorough" ? 3 : 2 });
      const t = h.str("t", { min: 0, max: 1 });
      plain(h, s);
      plain(h, t);
      const listed = h.bool("listed");
      const line = await lineFor(h, listed ? [{ A: s, B: t }, { A: "z" }] : { A: s, B: t }, P);
      h.observe("line", line);
      const r = R.inflate(R.unescapeHTML(R.valueOfLine(line, P)), 0);
      h.reach("checked");
      h.assert(!r.bad, "the serialised struct is malformed");
      let st = r.v;
      if (listed) {
        h.assert(r.v.list !== undefined && r.v.list.length === 2, "the list of structs has another length");
        if (!r.v.list || r.v.list.length !== 2) return;
        st = r.v.list[0];
      }
      h.assert(st.struct !== undefined && st.struct.length === 2, "the struct has other fields");
      if (!st.struct || st.struct.length !== 2) return;
      h.assert(R.sameCodePoints(h, st.struct[0][1], R.codePoints(s)), "struct field A changed");
      h.assert(R.sameCodePoints(h, st.struct[1][1], R.codePoints(t)), "struct field B changed");
    },
  },
  structList: {
    claim: "a list of strings inside a struct field is recovered element by element",
    bounds: "two elements of 0..2 and 0..1 units",
    reach: ["checked"],
    async run(h) {
      const s = h.str("s", { min: 0, max: 2 });
      const t = h.str("t", { min: 0, max: 1 });
      plain(h, s);
      plain(h, t);
      const line = await lineFor(h, { A: [s, t], B: "q" }, P);
      h.observe("line", line);
      const r = R.inflate(R.unescapeHTML(R.valueOfLine(line, P)), 0);
      h.reach("checked");
      h.assert(!r.bad, "the serialised struct is malformed");
      const ok = r.v.struct !== undefined && r.v.struct.length === 2 && r.v.struct[0][1].list !== undefined && r.v.struct[0][1].list.length === 2;
      h.assert(ok, "the list inside the struct is not a list of two elements");
      if (!ok) return;
      h.assert(R.sameCodePoints(h, r.v.struct[0][1].list[0], R.codePoints(s)), "first element changed");
      h.assert(R.sameCodePoints(h, r.v.struct[0][1].list[1], R.codePoints(t)), "second element changed");
    },
  },
  nestedStruct: {
    claim: "a struct inside a struct is recovered",
    bounds: "one string of 0..2 units",
    reach: ["checked"],
    async run(h) {
      const s = h.str("s", { min: 0, max: 2 });
      plain(h, s);
      const line = await lineFor(h, { A: { C: s }, B: "q" }, P);
      const r = R.inflate(R.unescapeHTML(R.valueOfLine(line, P)), 0);
      h.reach("checked");
      const ok = !r.bad && r.v.struct !== undefined && r.v.struct.length === 2 && r.v.struct[0][1].struct !== undefined && r.v.struct[0][1].struct.length === 1;
      h.assert(ok, "the nested struct is malformed");
      if (!ok) return;
      h.assert(R.sameCodePoints(h, r.v.struct[0][1].struct[0][1], R.codePoints(s)), "nested field changed");
    },
  },
};
