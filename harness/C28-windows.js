"use strict";
const { fakeExifTool, outcome, hasArgBreaker } = require("./lib/et");
exports.assumptions = ["Windows and macOS are stood in for: process.platform, os.platform() and node:path are those systems', the current directory is C:\\work", "case folding beyond single characters (ß and ss, dotless i) is outside the claim"];
const WORK = "C:\\work";
// what the code sees of the operating system; before any module is loaded
function on(h, platform) {
  const path = h.pkg("node:path");
  h.proc({ platform });
  const os = { ...require("node:os"), platform: () => platform };
  os.default = os;
  h.shim("node:os", os);
  if (platform !== "win32") return path;
  const w = path.win32;
  const p = { ...w, resolve: (...a) => w.resolve(WORK, ...a) };
  p.win32 = p;
  p.default = p;
  h.shim("node:path", p);
  return p;
}
const harnesses = {};
const METHODS = {
  read: (et, f) => et.read(f),
  readRaw: (et, f) => et.readRaw(f),
  write: (et, f) => et.write(f, { Artist: "x" }),
  editTags: (et, f) => et.editTags(f, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]),
  deleteAllTags: (et, f) => et.deleteAllTags(f),
  extractBinaryTag: (et, f) => et.extractBinaryTag("ThumbnailImage", f, "D:\\out.jpg"),
  extractBinaryTagDest: (et, f) => et.extractBinaryTag("ThumbnailImage", "D:\\in.jpg", f),
  extractThumbnail: (et, f) => et.extractThumbnail(f, "D:\\out.jpg"),
  extractBinaryTagToBuffer: (et, f) => et.extractBinaryTagToBuffer("ThumbnailImage", f),
  rewriteAllTags: (et, f) => et.rewriteAllTags(f, "D:\\out.jpg"),
  rewriteAllTagsDest: (et, f) => et.rewriteAllTags("D:\\in.jpg", f),
};
harnesses.command = {
  claim: "on Windows every call that names files tells ExifTool that they are UTF-8, before naming them, and names them by absolute Windows paths in one argument each; CR, LF and NUL are refused",
  bounds: "eleven calls; file names of 0..2 arbitrary UTF-16 units, alone, behind a drive, a drive-relative or a UNC prefix, or below the current directory",
  reach: ["sent", "rejected"],
  maxDecisions: 6000,
  async run(h) {
    const path = on(h, "win32");
    const m = h.choice("m", Object.keys(METHODS));
    const { et, sent } = fakeExifTool(h, {});
    const pre = h.choice("pre", ["", "x\\", "E:\\", "\\\\srv\\share\\", "-"]);
    const file = pre + h.str("f", { min: 0, max: h.tier === "thorough" ? 3 : 2 });
    const r = await outcome(() => METHODS[m](et, file));
    const want = path.resolve(file);
    const bad = hasArgBreaker(h, want);
    h.reach(sent.length === 0 ? "rejected" : "sent");
    h.assert(h.eq(sent.length === 0, bad), "a name with CR, LF or NUL was sent, or another refused");
    if (sent.length === 0) {
      h.assert(!r.ok, "a call that sends nothing must reject");
      return;
    }
    h.assert(sent.length === 1, "one call sends one command");
    const lines = sent[0].command.split("\n");
    const at = lines.indexOf("-charset");
    h.assert(at >= 0 && lines[at + 1] === "filename=utf8", "ExifTool is not told that file names are UTF-8");
    let named = 0;
    for (let i = 0; i < lines.length; i++) if (lines[i] === want) named++;
    h.assert(named >= 1, "the file is not named by its absolute path");
    h.assert(lines.indexOf(want) > at, "the file is named before its encoding");
  },
};
harnesses.posix = {
  claim: "on other systems file names are sent as they are, without a declared encoding of their own",
  bounds: "eleven calls; Linux and macOS",
  reach: ["sent"],
  async run(h) {
    on(h, h.choice("os", ["linux", "darwin"]));
    const m = h.choice("m", Object.keys(METHODS));
    const { et, sent } = fakeExifTool(h, {});
    const file = "/p" + h.str("f", { min: 1, max: 1, ranges: [[0x61, 0x7a], [0xe0, 0xff], [0x4e00, 0x4fff]] });
    await outcome(() => METHODS[m](et, file));
    h.assert(sent.length === 1, "one call sends one command");
    const lines = sent[0].command.split("\n");
    h.reach("sent");
    h.assert(lines.indexOf(file) > 0, "the file is not named");
  },
};
// one character, its counterpart in the other case, and whether they are letters
const fold = (h, c) => h.ite(h.and(c >= 65, c <= 90), c + 32, c);
for (const os of ["win32", "darwin"]) {
  harnesses["case_" + os] = {
    claim: `on ${os} a SourceFile that differs from the requested file only in letter case${os === "win32" ? " or the direction of slashes" : ""} is the requested file; one that differs otherwise is rejected`,
    bounds: "one ASCII unit (not a separator, dot or colon) at the end of, or within, the requested name and any such unit there in SourceFile; chosen accented letters in both normal forms",
    reach: ["same", "case", "other"],
    maxDecisions: 8000,
    async run(h) {
      on(h, os);
      const A = [[0x20, 0x2d], [0x30, 0x39], [0x3b, 0x3f - 1], [0x40, 0x5b], [0x5d, 0x7b], [0x7d, 0x7e]];
      const kind = h.choice("kind", ["ascii", "accent"]);
      const [x, y] = kind === "ascii" ? [h.str("x", { min: 1, max: 1, ranges: A }), h.str("y", { min: 1, max: 1, ranges: A })] : [h.choice("xa", ["é", "e\u0301", "É", "e", "ж", "漢"]), h.choice("ya", ["é", "e\u0301", "É", "e", "E", "Ж", "漢", "字", "e\u200b", "e\u0001"])];
      // whether the two normal forms name one file depends on the file system
      if (kind === "accent" && os === "win32" && x.normalize("NFC") === y.normalize("NFC")) h.assume(x === y);
      const at = h.bool("end") ? [x, y] : ["a" + x + "b", "a" + y + "b"];
      const dir = os === "win32" ? "C:\\d\\" : "/d/";
      const rep = os === "win32" ? h.choice("rep", ["C:/d/", "C:\\d\\", "c:/D/"]) : h.choice("rep", ["/d/", "/D/"]);
      const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(h.jsonText([{ SourceFile: rep + at[1], Artist: "me" }]), "", true)));
      const r = await outcome(() => et.read(dir + at[0]));
      let same;
      if (kind === "ascii") same = fold(h, x.charCodeAt(0)) === fold(h, y.charCodeAt(0));
      else same = x.normalize("NFC").toLowerCase() === y.normalize("NFC").toLowerCase();
      h.reach(!r.ok ? "other" : x === y ? "same" : "case");
      h.assert(h.eq(r.ok, same), "another file's tags were accepted, or the file's own rejected");
      if (r.ok) h.assert(r.value.Artist === "me", "a tag changed");
    },
  };
}
harnesses.locate = {
  claim: "on Windows the vendored exiftool.exe is run, unpacked from an asar archive if need be; else the one in Electron's resources; else the first exiftool.exe in PATH, which is split at semicolons; else the call rejects",
  bounds: "a package path with a folder of 1..8 units over letters of app.asar, the package there or missing; each candidate there or not; two PATH folders of any 1..2 units",
  reach: ["unpacked", "packed", "forge", "path", "none"],
  async run(h) {
    on(h, "win32");
    const comp = h.str("comp", { min: 1, max: 8, ranges: [[46, 46], [97, 97], [112, 112], [114, 115]] });
    const own = "C:\\app\\" + comp + "\\bin\\exiftool.exe";
    const unpacked = "C:\\app\\" + (comp === "app.asar" ? "app.asar.unpacked" : comp) + "\\bin\\exiftool.exe";
    const pkg = h.bool("pkg");
    const eU = h.bool("eU");
    const eP = unpacked === own ? eU : h.bool("eP");
    const res = h.bool("res");
    const eF = res && h.bool("eF");
    const forge = "C:\\res\\exiftool-vendored.exe\\bin\\exiftool.exe";
    const dirs = ["C:\\a" + h.str("a", { min: 1, max: 1, ranges: [[32, 33], [48, 57], [97, 122], [192, 0x2fff]] }), "D:\\b"];
    const at = h.choice("at", ["no", "first", "second", "both"]);
    const inPath = (f) => (f === dirs[0] + "\\exiftool.exe" && (at === "first" || at === "both")) || (f === dirs[1] + "\\exiftool.exe" && (at === "second" || at === "both"));
    const real = require("node:fs");
    const exists = (f) => (f === unpacked ? eU : f === own ? eP : f === forge ? eF : inPath(f));
    const gone = () => {
      throw Object.assign(new Error("ENOENT"), { code: "ENOENT" });
    };
    const fs = { ...real, existsSync: exists, accessSync: (f) => (exists(f) ? undefined : gone()) };
    const fp = { ...require("node:fs/promises"), access: async (f) => (exists(f) ? undefined : gone()) };
    fs.default = fs;
    fp.default = fp;
    fs.promises = fp;
    h.shim("node:fs", fs);
    h.shim("node:fs/promises", fp);
    const missing = () => {
      throw Object.assign(new Error("Cannot find module"), { code: "MODULE_NOT_FOUND" });
    };
    const none = new Proxy({}, { get: missing, has: missing, ownKeys: missing, getPrototypeOf: missing });
    h.shim("exiftool-vendored.exe", pkg ? own : none);
    h.shim("exiftool-vendored.pl", none);
    h.proc({ platform: "win32", env: { PATH: dirs.join(";") }, ...(res ? { resourcesPath: "C:\\res" } : {}) });
    const exiftoolPath = h.entry("ExifTool", "exiftoolPath");
    const r = await outcome(() => exiftoolPath());
    let want;
    let how = "none";
    if (pkg && eU) (want = unpacked), (how = "unpacked");
    else if (pkg && eP) (want = own), (how = "packed");
    else if (eF) (want = forge), (how = "forge");
    else if (at !== "no") (want = dirs[at === "second" ? 1 : 0] + "\\exiftool.exe"), (how = "path");
    h.reach(how);
    if (want === undefined) h.assert(!r.ok, "no ExifTool anywhere, but the call did not reject");
    else h.assert(r.ok && r.value === want, "another ExifTool than the documented first one");
  },
};
exports.harnesses = harnesses;
