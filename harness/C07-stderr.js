"use strict";
const { fakeExifTool, outcome, isWs } = require("./lib/et");
exports.assumptions = ["standard output and standard error reach the task's parser the way batch-cluster hands them over"];

const word = (c) => (c >= 48 && c <= 57) || (c >= 65 && c <= 90) || (c >= 97 && c <= 122) || c === 95;
const KEYS = {
  warning: { text: ["Warning: ", "warning: ", "WARNING: "], boundary: true },
  nothingWrite: { text: ["Nothing to write", "nothing to do"], boundary: true, tail: true },
  bareWarning: { text: ["Warning", "warning ("] },
  error: { text: ["Error: ", "error", "ERROR - "] },
  neutral: { text: ["files read", "Er: ", "Warn:"] },
};
// the documented classification of a line `pre + key + post`
function expected(h, kind, pre, post) {
  const before = pre.length === 0 ? true : h.not(word(pre.charCodeAt(pre.length - 1)));
  const after = post.length === 0 ? true : h.not(word(post.charCodeAt(0)));
  if (kind === "warning") return { warning: before, error: h.not(before) };
  if (kind === "nothingWrite") return { warning: h.and(before, after), error: false };
  if (kind === "neutral") return { warning: false, error: false };
  return { warning: false, error: true };
}
const CALLS = {
  write: { run: (et) => et.write("/f.jpg", { Artist: "x" }), out: "    1 image files updated\n" },
  read: { run: (et) => et.read("/f.jpg"), out: '[{"SourceFile":"/f.jpg","Artist":"x"}]' },
  readRaw: { run: (et) => et.readRaw("/f.jpg"), out: '[{"SourceFile":"/f.jpg","Artist":"x"}]' },
};
function lineText(h, name, alpha) {
  const s = h.str(name, { min: 0, max: 2, ranges: alpha });
  return s;
}
const harnesses = {};
for (const m of Object.keys(CALLS)) {
  harnesses["line_" + m] = {
    claim: `${m}: a stderr line is a warning iff it has 'warning: ' or 'nothing to write/do' as words, an error iff it otherwise mentions error or warning, and is ignored otherwise`,
    bounds: "lines made of up to 2 arbitrary printable or non-ASCII units, a keyword in several spellings, and up to 2 units more",
    reach: ["warning", "error", "neutral"],
    async run(h) {
      const kind = h.choice("kind", Object.keys(KEYS));
      const key = h.choice("key", KEYS[kind].text);
      const R = [[33, 126], [0xc0, 0x24f]];
      const pre = lineText(h, "pre", R);
      const post = lineText(h, "post", R);
      if (key.endsWith(" ")) h.assume(post.length > 0);
      const line = pre + key + post;
      const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(CALLS[m].out, line + "\n", true)));
      const r = await outcome(() => CALLS[m].run(et));
      const want = expected(h, kind, pre, post);
      const shown = line.trim();
      h.observe("ok", r.ok);
      if (m === "write") {
        h.assert(h.eq(!r.ok, want.error), "an error line and a rejected write must coincide");
        if (!r.ok) {
          h.reach("error");
          h.assert(r.error.message === shown.replace(/^error: /i, ""), "the rejection is not ExifTool's message");
          return;
        }
        const w = r.value.warnings ?? [];
        h.reach(w.length ? "warning" : "neutral");
        h.assert(h.eq(w.length === 1, want.warning), "warning misclassified");
        if (w.length === 1) h.assert(w[0] === shown, "the warning text changed");
        return;
      }
      h.assert(r.ok, "a readable file was rejected");
      if (!r.ok) return;
      const { errors, warnings } = r.value;
      h.reach(errors.length ? "error" : warnings.length ? "warning" : "neutral");
      h.assert(h.and(h.eq(errors.length === 1, want.error), errors.length <= 1), "error misclassified");
      h.assert(h.and(h.eq(warnings.length === 1, want.warning), warnings.length <= 1), "warning misclassified");
      if (errors.length === 1) h.assert(errors[0] === shown, "the error text changed");
      if (warnings.length === 1) h.assert(warnings[0] === shown, "the warning text changed");
      h.assert(r.value.Artist === "x", "the tags were lost");
    },
  };
}
harnesses.split = {
  claim: "stderr is split into trimmed, non-blank lines; order kept, repetitions reported once",
  bounds: "three lines among two warnings, two errors and blank text, joined by LF, CRLF or a blank line",
  reach: ["end"],
  async run(h) {
    const L = ["Warning: a", "  Warning: b  ", "Error: c", "\tError: d", " "];
    const ks = [];
    let text = "";
    for (let i = 0; i < 3; i++) {
      const k = h.choice("k" + i, L.length);
      ks.push(k);
      text += L[k] + h.choice("nl" + i, ["\n", "\r\n", "\n\n"]);
    }
    const m = h.choice("m", ["read", "readRaw"]);
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(CALLS[m].out, text, true)));
    const r = await outcome(() => CALLS[m].run(et));
    h.assert(r.ok, "a readable file was rejected");
    if (!r.ok) return;
    const uniq = (a) => [...new Set(a)];
    const ew = uniq(ks.filter((k) => k < 2)).map((k) => L[k].trim());
    const ee = uniq(ks.filter((k) => k === 2 || k === 3)).map((k) => L[k].trim());
    h.reach("end");
    h.assert(r.value.errors.join("|") === ee.join("|"), "errors differ from stderr");
    h.assert(r.value.warnings.join("|") === ew.join("|"), "warnings differ from stderr");
  },
};
harnesses.tagsToo = {
  claim: "Error and Warning tags in the JSON are merged into errors and warnings, each once",
  bounds: "Error/Warning tag absent, equal to a stderr line, different, or blank",
  reach: ["end"],
  async run(h) {
    const m = h.choice("m", ["read", "readRaw"]);
    const et_ = h.choice("E", [undefined, "Error: c", "File format error", " "]);
    const wt = h.choice("W", [undefined, "Warning: a", "Bad IFD0", " "]);
    const j = { SourceFile: "/f.jpg" };
    if (et_ !== undefined) j.Error = et_;
    if (wt !== undefined) j.Warning = wt;
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(JSON.stringify([j]), "Warning: a\nError: c\n", true)));
    const r = await outcome(() => CALLS[m].run(et));
    h.assert(r.ok, "a readable file was rejected");
    if (!r.ok) return;
    const merge = (t, s) => (t === undefined || t.trim() === "" || t === s ? [s] : [t, s]).sort().join("|");
    h.assert([...r.value.errors].sort().join("|") === merge(et_, "Error: c"), "errors differ");
    h.assert([...r.value.warnings].sort().join("|") === merge(wt, "Warning: a"), "warnings differ");
    h.reach("end");
  },
};
harnesses.badJson = {
  claim: "when stdout is not JSON, read and readRaw reject, with ExifTool's own error when there is one",
  bounds: "eight non-JSON or tag-less texts; stderr error, warning or empty",
  reach: ["rejected"],
  async run(h) {
    const m = h.choice("m", ["read", "readRaw"]);
    const out = h.choice("out", ["", "{ready}", "[", "[{]", "Error: x", '[{"a":1}', "[]", "null"]);
    const err = h.choice("err", ["", "Error: File not found - /f.jpg", "Warning: odd"]);
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(out, err, true)));
    const r = await outcome(() => CALLS[m].run(et));
    h.assert(!r.ok, "output that holds no tags was accepted");
    if (r.ok) return;
    if (err.startsWith("Error") && out !== "[]" && out !== "null") h.assert(r.error.message === "File not found - /f.jpg", "the rejection hides ExifTool's error");
    h.reach("rejected");
  },
};
exports.harnesses = harnesses;
