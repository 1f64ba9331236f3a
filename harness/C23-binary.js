"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
const { tmpdir } = require("node:os");
exports.assumptions = ["ExifTool's status lines and base64 JSON are as documented; files are written by ExifTool, not by this code", "the BatchCluster only records tasks"];
const OUT = tmpdir() + "/vf/out.jpg";
function sextet(h, c) {
  return h.ite(h.and(c >= 65, c <= 90), c - 65, h.ite(h.and(c >= 97, c <= 122), c - 71, h.ite(h.and(c >= 48, c <= 57), c + 4, h.ite(c === 43, 62, 63))));
}
const B64 = [[43, 43], [47, 57], [65, 90], [97, 122]];
function bytes(h, name, n) {
  const digits = Math.floor(n / 3) * 4 + (n % 3 === 0 ? 0 : (n % 3) + 1);
  const s = digits === 0 ? "" : h.str(name, { min: digits, max: digits, ranges: B64 });
  const out = [];
  for (let i = 0; i < n; i++) {
    const q = Math.floor(i / 3) * 4;
    const v = (k) => sextet(h, s.charCodeAt(q + k));
    const r = i % 3;
    out.push(r === 0 ? v(0) * 4 + Math.floor(v(1) / 16) : r === 1 ? (v(1) % 16) * 16 + Math.floor(v(2) / 4) : (v(2) % 4) * 64 + v(3));
  }
  return { text: s + (n % 3 === 1 ? "==" : n % 3 === 2 ? "=" : ""), bytes: out };
}
const harnesses = {};
harnesses.file = {
  claim: "extracting a binary tag to a file resolves exactly when ExifTool reports one created file and no error; otherwise it rejects with ExifTool's message",
  bounds: "any count 0..99999, singular or plural, padded or not, after another line or not, CRLF or LF; standard error empty, an error, a warning, or both in either order; the four public methods",
  reach: ["resolved", "rejected"],
  async run(h) {
    const what = h.choice("what", ["tag", "thumb", "preview", "raw"]);
    const n = h.int("n", 0, 99999);
    const before = h.choice("before", ["", "    1 image files read\n", "    1 files failed condition\n"]);
    const stdout = before + h.choice("pad", ["", "    "]) + n + " output file" + h.choice("s", ["", "s"]) + " created" + h.choice("nl", ["\n", "\r\n", ""]);
    const err = h.choice("err", ["", "e", "w", "ew", "we"]);
    const LINES = { e: "Error: '/o.jpg' already exists - /f.jpg", w: "Warning: [minor] Ignored empty rdf:Bag list - /f.jpg" };
    const stderr = err.split("").map((k) => LINES[k] + "\n").join("");
    const { et, sent } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(stdout, stderr, true)));
    const r = await outcome(() => (what === "tag" ? et.extractBinaryTag("MPImage2", "/f.jpg", OUT) : what === "thumb" ? et.extractThumbnail("/f.jpg", OUT) : what === "preview" ? et.extractPreview("/f.jpg", OUT) : et.extractJpgFromRaw("/f.jpg", OUT)));
    const failed = err.includes("e");
    h.reach(r.ok ? "resolved" : "rejected");
    h.assert(sent.length === 1, "not sent once");
    h.assert(h.eq(r.ok, h.and(!failed, n === 1)), "resolved although ExifTool did not create the file, or rejected although it did");
    if (!r.ok) {
      h.assert(r.error instanceof Error, "not an Error");
      if (failed) h.assert(r.error.message.includes("already exists"), "the error is not ExifTool's");
      else h.assert(r.error.message.includes("output file"), "the error does not say what happened");
    } else h.assert(r.value === undefined, "resolved with something");
  },
};
harnesses.noStatus = {
  claim: "output without a status line rejects, whatever it is",
  bounds: "any text of up to 3 units, alone or before or after parts of a status line",
  reach: ["rejected"],
  async run(h) {
    const s = h.str("s", { min: 0, max: 3 });
    const kind = h.choice("kind", ["alone", "read", "noCount", "updated"]);
    const stdout = kind === "alone" ? s : kind === "read" ? s + "\n    1 image files read\n" : kind === "noCount" ? s + "output files created" : "    1 output files updated\n" + s;
    if (kind === "noCount") h.assume(!/\d $/.test(s));
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(stdout, "", true)));
    const r = await outcome(() => et.extractBinaryTag("PreviewImage", "/f.jpg", OUT));
    h.reach("rejected");
    h.assert(!r.ok, "resolved without a status line");
  },
};
harnesses.buffer = {
  claim: "extractBinaryTagToBuffer returns exactly the bytes ExifTool printed for the tag, whatever the letter case the tag was asked in",
  bounds: "0..5 (8) bytes of any value, the tag printed with any one letter's case changed, before or after other binary tags and SourceFile",
  reach: ["exact", "otherCase"],
  async run(h) {
    const n = h.choice("n", h.tier === "thorough" ? [0, 1, 2, 3, 4, 5, 6, 7, 8] : [0, 1, 2, 3, 5]);
    const b = bytes(h, "b", n);
    const asked = h.choice("asked", ["ThumbnailImage", "thumbnailimage", "THUMBNAILIMAGE"]);
    const other = { PreviewImage: "base64:AAAA", ThumbnailImag: "base64:BBBB", ThumbnailImage2: "base64:CCCC", ThumbnailLength: 5 };
    const own = { ThumbnailImage: "base64:" + b.text };
    const obj = h.bool("first") ? { SourceFile: "/f.jpg", ...own, ...other } : { SourceFile: "/f.jpg", ...other, ...own };
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(h.jsonText([obj]), "", true)));
    const r = await outcome(() => et.extractBinaryTagToBuffer(asked, "/f.jpg"));
    h.reach(asked === "ThumbnailImage" ? "exact" : "otherCase");
    h.assert(r.ok, "the tag is there but the call rejected");
    if (!r.ok) return;
    h.assert(h.globals.Buffer.isBuffer(r.value), "not a Buffer");
    h.assert(r.value.length === b.bytes.length, "the number of bytes differs");
    if (r.value.length === b.bytes.length) for (let i = 0; i < n; i++) h.assert(r.value[i] === b.bytes[i], "a byte differs");
  },
};
harnesses.bufferMissing = {
  claim: "extractBinaryTagToBuffer never returns another tag's bytes: it rejects when the tag is missing or is no binary value, or the output is not JSON",
  bounds: "a printed name with one unit removed or replaced by up to two, or with up to two put in anywhere (any unit of a tag name), a value without or with a damaged base64: prefix of any text up to 7 units, number, list, empty or damaged output; with or without an error line",
  reach: ["name", "value", "output"],
  async run(h) {
    const kind = h.choice("kind", ["name", "value", "output"]);
    let stdout;
    const err = h.bool("err") ? "Error: File format error - /f.jpg\n" : "";
    const asked = "PreviewImage";
    if (kind === "name") {
      // one unit removed, replaced or put in, or two put in or in place of one
      const i = h.choice("i", [0, 1, 6, 7, asked.length - 1, asked.length]);
      const keep = i === asked.length || h.bool("keep");
      const c = h.str("c", { min: keep ? 1 : 0, max: 2, ranges: [[45, 45], [48, 58], [65, 90], [95, 95], [97, 122]] });
      if (!keep) h.assume(h.not(h.or(c === asked[i].toLowerCase(), c === asked[i].toUpperCase())));
      stdout = h.jsonText([h.symObj([["SourceFile", "/f.jpg"], [asked.slice(0, i) + c + asked.slice(keep ? i : i + 1), "base64:AAAA"]])]);
    } else if (kind === "value") {
      const v = h.choice("v", ["text", "near", "number", "list", "bool"]);
      let val = v === "number" ? h.int("num", -9, 9) : v === "list" ? ["base64:AAAA"] : v === "bool" ? true : v === "text" ? h.str("t", { min: 0, max: 7 }) : undefined;
      if (v === "text") h.assume(val !== "base64:");
      if (v === "near") {
        const i = h.choice("j", [0, 3, 6]);
        const c = h.str("nc", { min: 0, max: 1 });
        val = "base64:".slice(0, i) + c + "base64:".slice(i + 1) + "AAAA";
        h.assume(!val.startsWith("base64:"));
      }
      stdout = h.jsonText([{ SourceFile: "/f.jpg", PreviewImage: val }]);
    } else stdout = h.choice("bad", ["", "\n", "[]", "[{", '[{"SourceFile":"/f.jpg","PreviewImage":"base64:AAAA"', "null", "no such file"]);
    const { et, sent } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(stdout, err, true)));
    const r = await outcome(() => et.extractBinaryTagToBuffer(asked, "/f.jpg"));
    h.reach(kind);
    h.assert(!r.ok, "bytes were returned although the tag is not there");
    if (!r.ok) h.assert(r.error instanceof Error && r.error.message.length > 0, "not an Error with a message");
    h.assert(sent.length === 1, "not sent once");
  },
};
harnesses.version = {
  claim: "version() returns exactly the version ExifTool printed, and rejects anything that is none",
  bounds: "N.N and N.N.N with parts of 1..3 digits, padded; any other text of up to 5 units",
  reach: ["version", "rejected"],
  async run(h) {
    const D = [[48, 57]];
    const good = h.bool("good");
    let want;
    let stdout;
    if (good) {
      const parts = h.choice("parts", [2, 3]);
      want = Array.from({ length: parts }, (_, i) => h.str("p" + i, { min: 1, max: 3, ranges: D })).join(".");
      stdout = h.choice("pad", ["", " "]) + want + h.choice("nl", ["\n", "\r\n", ""]);
    } else {
      stdout = h.str("s", { min: 0, max: 5 });
    }
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(stdout, "", true)));
    const r = await outcome(() => et.version());
    h.reach(r.ok ? "version" : "rejected");
    if (good) h.assert(r.ok && r.value === want, "another version was returned");
    else if (r.ok) h.assert(/^\d{1,3}\.\d{1,3}(\.\d{1,3})?$/.test(r.value) && stdout.trim() === r.value, "text that is no version was returned");
  },
};
exports.harnesses = harnesses;
