"use strict";
const { fakeExifTool, outcome, hasArgBreaker, isBlank } = require("./lib/et");

exports.assumptions = [
  "process.cwd() is a fixed absolute directory (the symbolic run uses the real one)",
  "mkdirSync is replaced by a recorder; the BatchCluster only records tasks",
  "non-Windows argument layout (the host platform of the check)",
];

// Compare a command against the one produced for harmless inputs: same number
// of lines, identical lines except the listed ones; returns the listed lines.
function confined(h, command, benign, varying, what) {
  const a = command.split("\n");
  const b = benign.split("\n");
  h.assert(a.length === b.length, what + ": the command has another number of lines than for a harmless input");
  h.assert(a[a.length - 1] === "" && a[a.length - 2] === "-execute", what + ": -execute is not the last line");
  let same = true;
  for (let i = 0; i < b.length; i++) if (!varying.includes(i)) same = h.and(same, a[i] === b[i]);
  h.assert(same, what + ": caller text leaked into another argument");
  return varying.map((i) => a[i]);
}
const FILE_METHODS = {
  read: (et, f) => et.read(f),
  readRaw: (et, f) => et.readRaw(f),
  write: (et, f) => et.write(f, { Artist: "x" }),
  editTags: (et, f) => et.editTags(f, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]),
  deleteAllTags: (et, f) => et.deleteAllTags(f, { retain: ["Artist"] }),
  extractBinaryTag: (et, f) => et.extractBinaryTag("ThumbnailImage", f, "/d/out.jpg"),
  extractBinaryTagDest: (et, f) => et.extractBinaryTag("ThumbnailImage", "/d/in.jpg", f),
  extractBinaryTagToBuffer: (et, f) => et.extractBinaryTagToBuffer("ThumbnailImage", f),
  rewriteAllTags: (et, f) => et.rewriteAllTags(f, "/d/out.jpg"),
  rewriteAllTagsDest: (et, f) => et.rewriteAllTags("/d/in.jpg", f),
};
const harnesses = {};
for (const name of Object.keys(FILE_METHODS)) {
  harnesses["file_" + name] = {
    claim: name + ": any file name is sent as exactly one absolute-path argument, or the call rejects with nothing sent",
    bounds: "file names of 0..3 UTF-16 code units, every value, relative or absolute; ignoreMinorErrors symbolic",
    reach: ["sent", "rejected"],
    maxDecisions: 6000,
    async run(h) {
      const path = h.pkg("node:path");
      const imin = h.bool("ignoreMinorErrors");
      const { et, sent } = fakeExifTool(h, { ignoreMinorErrors: imin });
      const call = FILE_METHODS[name];
      await outcome(() => call(et, "MARK"));
      h.assert(sent.length === 1, "the harmless call sends one command");
      const benign = sent[0].command;
      const mark = path.resolve("MARK");
      const at = benign.split("\n").indexOf(mark);
      h.assert(at >= 0, "the file name is sent as an absolute path");
      h.assert(imin === benign.split("\n").includes("-ignoreMinorErrors"), "ignoreMinorErrors is passed iff true");
      sent.length = 0;
      const abs = h.bool("abs");
      const file = (abs ? "/q" : "") + h.str("file", { min: 0, max: h.tier === "thorough" ? 4 : 3 });
      const r = await outcome(() => call(et, file));
      h.observe("n", sent.length);
      if (sent.length === 0) {
        h.reach("rejected");
        h.assert(!r.ok, "a call that sends nothing must reject");
        h.assert(hasArgBreaker(h, path.resolve(file)), "a file name without CR, LF or NUL was refused");
        return;
      }
      h.reach("sent");
      h.assert(sent.length === 1, "one call sends one command");
      h.assert(h.not(hasArgBreaker(h, path.resolve(file))), "a file name with CR, LF or NUL was sent");
      const [line] = confined(h, sent[0].command, benign, [at], name);
      h.observe("line", line);
      h.assert(line === path.resolve(file), "the file argument is not the resolved path");
      h.assert(line.charCodeAt(0) === 47, "the file argument is not absolute, so it could be read as an option");
    },
  };
}
harnesses.render = {
  claim: "ExifToolTask.renderCommand sends every non-blank argument as exactly one line, in order, and -execute once at the end; anything with CR, LF or NUL is refused",
  bounds: "up to 3 arguments of 0..2 UTF-16 code units, every value; all option values",
  reach: ["sent", "rejected"],
  run(h) {
    const ExifToolTask = h.entry("ExifToolTask", "ExifToolTask");
    const n = h.choice("n", h.tier === "thorough" ? [1, 2, 3] : [1, 2]);
    const args = [];
    for (let i = 0; i < n; i++) args.push(h.str("arg" + i, { min: 0, max: n === 1 ? 3 : n === 2 ? 2 : 1 }));
    const imin = h.choice("ignoreMinorErrors", [true, false, undefined]);
    let cmd;
    try {
      cmd = ExifToolTask.renderCommand(args, imin === undefined ? undefined : { ignoreMinorErrors: imin });
    } catch (e) {
      cmd = undefined;
    }
    const live = args.filter((a) => !isBlank(h, a));
    let bad = false;
    for (const a of live) bad = h.or(bad, hasArgBreaker(h, a));
    if (cmd === undefined) {
      h.reach("rejected");
      h.assert(bad, "harmless arguments were refused");
      return;
    }
    h.reach("sent");
    h.observe("cmd", cmd);
    h.assert(h.not(bad), "an argument with a control character was sent");
    const want = [...live, ...(imin === true ? ["-ignoreMinorErrors"] : []), "-execute", ""];
    h.assert(cmd === want.join("\n"), "the command is not one line per argument");
  },
};
harnesses.taskCommand = {
  claim: "an ExifToolTask sends exactly renderCommand(args): a task cannot be constructed around a control character",
  bounds: "one argument of 0..3 UTF-16 code units",
  reach: ["sent", "rejected"],
  run(h) {
    const ExifToolTask = h.entry("ExifToolTask", "ExifToolTask");
    class T extends ExifToolTask {
      parse(s) {
        return s;
      }
    }
    const a = h.str("arg", { min: 0, max: 3 });
    let t;
    try {
      t = new T(["-a", a, "-b"], { ignoreMinorErrors: false });
    } catch (e) {
      h.reach("rejected");
      h.assert(hasArgBreaker(h, a), "harmless argument refused");
      return;
    }
    h.reach("sent");
    h.assert(t.command === (isBlank(h, a) ? "-a\n-b\n-execute\n" : "-a\n" + a + "\n-b\n-execute\n"), "task command is not one line per argument");
  },
};
harnesses.writeValue = {
  claim: "write: any tag value (string, list of strings, struct) stays inside its own -TAG= line",
  bounds: "string values of 0..3 units (every value) as scalar, list element, struct value and struct key",
  reach: ["sent"],
  maxDecisions: 6000,
  async run(h) {
    const { et, sent } = fakeExifTool(h, {});
    const kind = h.choice("kind", ["scalar", "list", "struct", "key", "nested", "liststruct"]);
    const max = h.tier === "thorough" ? 4 : kind === "scalar" ? 3 : 2;
    const wrap = (v) => (kind === "scalar" ? v : kind === "list" ? ["q", v] : kind === "struct" ? { K: v } : kind === "key" ? h.symObj([[v, "z"]]) : kind === "nested" ? { K: { L: v } } : [{ K: v }]);
    await et.write("/f.jpg", { Artist: wrap("x"), Title: "t" });
    const benign = sent[0].command;
    const at = benign.split("\n").findIndex((l) => l.startsWith("-Artist="));
    sent.length = 0;
    const v = h.str("v", { min: 0, max });
    const r = await outcome(() => et.write("/f.jpg", { Artist: wrap(v), Title: "t" }));
    if (sent.length === 0) {
      let nul = false;
      for (let i = 0; i < v.length; i++) nul = h.or(nul, v.charCodeAt(i) === 0);
      h.assert(!r.ok, "a call that sends nothing must reject");
      h.assert(nul, "writing a string value without NUL was refused");
      return;
    }
    h.reach("sent");
    const [line] = confined(h, sent[0].command, benign, [at], "write value");
    h.observe("line", line);
    h.assert(line.startsWith("-Artist="), "the value is not in its own tag's argument");
  },
};
harnesses.editValue = {
  claim: "editTags: any value either rejects or stays inside its own argument",
  bounds: "primitive value and both Collection fields of 0..2 units (every value)",
  reach: ["sent", "rejected"],
  maxDecisions: 6000,
  async run(h) {
    const { et, sent } = fakeExifTool(h, {});
    const struct = h.bool("struct");
    const mk = (v) =>
      struct
        ? [{ tag: "XMP-mwg-coll:Collections", operation: "add", value: { CollectionName: v, CollectionURI: "u" } }]
        : [{ tag: "XMP-dc:Subject", operation: "remove", value: v }];
    await et.editTags("/f.jpg", mk("x"));
    const benign = sent[0].command;
    const at = benign.split("\n").findIndex((l) => l.startsWith(struct ? "-XMP-mwg-coll:Collections+=" : "-XMP-dc:Subject-="));
    sent.length = 0;
    const v = h.str("v", { min: 0, max: 2 });
    const r = await outcome(() => et.editTags("/f.jpg", mk(v)));
    if (sent.length === 0) {
      h.reach("rejected");
      h.assert(!r.ok, "a call that sends nothing must reject");
      return;
    }
    h.reach("sent");
    const [line] = confined(h, sent[0].command, benign, [at], "edit value");
    h.assert(line.startsWith(struct ? "-XMP-mwg-coll:Collections+={" : "-XMP-dc:Subject-="), "the value is not in its own argument");
  },
};
exports.harnesses = harnesses;
