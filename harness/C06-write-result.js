"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["ExifTool's standard output and standard error are handed to the task's parser the way batch-cluster does; summary wordings are those of exiftool's own script"];

// the summary lines of exiftool's script (non-verbose)
const WORDS = { created: "image files created", updated: "image files updated", unchanged: "image files unchanged" };
const five = (n) => (n < 10 ? "    " : n < 100 ? "   " : n < 1000 ? "  " : n < 10000 ? " " : "") + n;

const CALLS = {
  write: (et) => et.write("/f.jpg", { Artist: "x" }),
  editTags: (et) => et.editTags("/f.jpg", [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]),
  deleteAllTags: (et) => et.deleteAllTags("/f.jpg"),
};
function call(h, method, stdout, stderr) {
  const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(stdout, stderr, true)));
  return outcome(() => CALLS[method](et));
}
const harnesses = {};
harnesses.counts = {
  claim: "created/updated/unchanged are the sums of the counts ExifTool printed; nothing is warned about",
  bounds: "three summary lines in any order, counts 0..99999 and CRLF or LF line ends",
  reach: ["end"],
  witnessMax: 80,
  async run(h) {
    const want = { created: 0, updated: 0, unchanged: 0 };
    let out = "";
    for (let i = 0; i < 3; i++) {
      const kind = h.choice("kind" + i, ["created", "updated", "unchanged"]);
      const n = h.int("n" + i, 0, i === 2 ? 12 : 99999);
      want[kind] += n;
      out += five(n) + " " + WORDS[kind] + h.choice("nl" + i, ["\n", "\r\n"]);
    }
    const r = await call(h, "write", out, "");
    h.reach("end");
    h.assert(r.ok, "a successful write was rejected");
    if (!r.ok) return;
    h.assert(h.and(r.value.created === want.created, r.value.updated === want.updated, r.value.unchanged === want.unchanged), "the reported counts differ from ExifTool's");
    h.assert(r.value.warnings === undefined || r.value.warnings.length === 0, "a summary line was reported as unexpected");
  },
};
harnesses.unexpected = {
  claim: "any other line ExifTool prints is reported in warnings and changes no count",
  bounds: "one line of 1..6 printable ASCII characters (thorough 1..8), before or after a summary line",
  reach: ["end"],
  async run(h) {
    const s = h.str("s", { min: 1, max: h.tier === "thorough" ? 8 : 6, ranges: [[33, 126]] });
    const first = h.bool("first");
    const r = await call(h, "write", first ? s + "\n    1 image files updated\n" : "    1 image files updated\n" + s + "\n", "");
    h.reach("end");
    h.assert(r.ok, "the write was rejected");
    if (!r.ok) return;
    h.assert(h.and(r.value.created === 0, r.value.updated === 1, r.value.unchanged === 0), "an unexpected line changed the counts");
    h.assert(r.value.warnings !== undefined && r.value.warnings.length === 1, "an unexpected line is not reported exactly once");
    if (r.value.warnings && r.value.warnings.length === 1) h.assert(r.value.warnings[0].includes(JSON.stringify(s)) || r.value.warnings[0].includes(s), "the warning does not quote the line");
  },
};
harnesses.stderr = {
  claim: "a write with an error line on stderr rejects with that line, whatever stdout says; warnings alone never reject and are all returned once",
  bounds: "every write method; up to three stderr lines, each an error, a warning, a repeated warning or neutral text; stdout claiming success or nothing",
  reach: ["rejected", "warned", "clean"],
  async run(h) {
    const method = h.choice("method", Object.keys(CALLS));
    const out = h.choice("out", ["    1 image files updated\n", "    0 image files updated\n    1 files weren't updated due to errors\n", ""]);
    const LINES = { none: "", error: "Error: Not a valid JPG - /f.jpg", error2: "Error: File not found - /f.jpg", lower: "error writing file", warn: "Warning: Sorry, Artist is not writable", nothing: "Nothing to do.", neutral: "1 image files read" };
    const kinds = [];
    for (let i = 0; i < 3; i++) kinds.push(h.choice("l" + i, i === 0 ? ["none", "error", "warn", "nothing", "neutral"] : i === 1 ? ["none", "error2", "warn", "lower"] : ["none", "error", "warn"]));
    const text = kinds.map((k) => LINES[k]).filter((l) => l !== "").join("\n");
    const r = await call(h, method, out, text);
    const errs = kinds.filter((k) => k === "error" || k === "error2" || k === "lower");
    const warns = [...new Set(kinds.filter((k) => k === "warn" || k === "nothing"))].map((k) => LINES[k]);
    if (errs.length > 0) {
      h.reach("rejected");
      h.assert(!r.ok, "a failed write was reported as successful");
      if (r.ok) return;
      h.assert(r.error instanceof Error && r.error.message === LINES[errs[0]].replace(/^Error: /, ""), "the rejection is not ExifTool's first error");
      return;
    }
    h.assert(r.ok, "a warning rejected the write");
    if (!r.ok) return;
    h.reach(warns.length ? "warned" : "clean");
    const got = r.value.warnings ?? [];
    for (const w of warns) h.assert(got.filter((x) => x === w).length === 1, "a warning was lost or repeated");
    h.assert(got.filter((x) => !x.startsWith("Unexpected output")).length === warns.length, "a warning was invented");
  },
};
harnesses.stderrText = {
  claim: "whether a stderr line is an error does not depend on the other lines: an error next to any other line rejects with its own text, and warnings keep theirs",
  bounds: "two lines, each 'Error: ' or 'Warning: ' and 0..5 units over a, b, blank and dash",
  reach: ["rejected", "warned"],
  witnessMax: 60,
  async run(h) {
    const lines = [];
    for (let i = 0; i < 2; i++) lines.push({ e: h.bool("e" + i), t: h.str("t" + i, { min: 1, max: i === 0 ? 5 : h.tier === "thorough" ? 6 : 5, ranges: [[45, 45], [97, 98]] }) });
    const text = lines.map((l) => (l.e ? "Error: " : "Warning: ") + l.t).join("\n");
    const r = await call(h, h.choice("method", ["write", "deleteAllTags"]), "    1 image files updated\n", text);
    const first = lines.find((l) => l.e);
    if (first !== undefined) {
      h.reach("rejected");
      h.assert(!r.ok, "a failed write was reported as successful");
      if (!r.ok) h.assert(r.error.message === first.t, "the rejection is not ExifTool's first error");
      return;
    }
    h.reach("warned");
    h.assert(r.ok, "a warning rejected the write");
    if (!r.ok) return;
    const got = r.value.warnings ?? [];
    const same = lines[0].t === lines[1].t;
    h.assert(got.length === (same ? 1 : 2), "a warning was lost, repeated or invented");
    h.assert(got[0] === "Warning: " + lines[0].t && got[got.length - 1] === "Warning: " + lines[1].t, "a warning changed");
  },
};
harnesses.rewrite = {
  claim: "rewriteAllTags resolves exactly when ExifTool reports one created file and no error",
  bounds: "stdout '<n> image files created' with n in 0..99, other text, or nothing; stderr error, warning or nothing",
  reach: ["ok", "rejected"],
  async run(h) {
    const k = h.choice("out", ["n", "text", "none"]);
    const n = h.int("n", 0, 99);
    const out = k === "n" ? "    " + n + " image files created\n" : k === "text" ? "Nothing to do.\n" : "";
    const e = h.choice("err", ["", "Warning: [minor] Bad MakerNotes - /f.jpg", "Error: Not a valid JPG - /f.jpg"]);
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(out, e, true)));
    const r = await outcome(() => et.rewriteAllTags("/f.jpg", "/d/g.jpg"));
    const good = k === "n" && n === 1 && !e.startsWith("Error");
    h.reach(r.ok ? "ok" : "rejected");
    h.assert(h.eq(r.ok, good), "the outcome of rewriteAllTags differs from what ExifTool reported");
    if (!r.ok && e.startsWith("Error")) h.assert(r.error.message.includes("Not a valid JPG"), "the rejection hides ExifTool's error");
  },
};
exports.harnesses = harnesses;
