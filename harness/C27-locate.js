"use strict";
const { outcome } = require("./lib/et");
exports.assumptions = ["the file system is a stand-in that knows which paths exist and which can be run; POSIX paths"];
const harnesses = {};
const nop = () => undefined;
// PATH and the rest of the process the code sees
function proc(h, path, extra) {
  const env = path === undefined ? {} : { PATH: path };
  const p = { ...extra, env };
  h.proc(p);
}
// the first directory of PATH whose file can be read and run
function fsOf(h, exists, runs, asked) {
  const real = require("node:fs");
  const { R_OK, X_OK } = real.constants;
  const access = async (f, mode) => {
    asked?.push(f);
    const r = runs(f); // "rx" | "r" | "x" | "no"
    const m = mode ?? real.constants.F_OK;
    const ok = r !== "no" && ((m & R_OK) === 0 || r.includes("r")) && ((m & X_OK) === 0 || r.includes("x"));
    if (!ok) throw Object.assign(new Error("EACCES"), { code: "EACCES" });
  };
  const accessSync = (f, mode) => {
    const r = runs(f);
    const m = mode ?? 0;
    if (r === "no" || ((m & R_OK) !== 0 && !r.includes("r")) || ((m & X_OK) !== 0 && !r.includes("x"))) throw Object.assign(new Error("EACCES"), { code: "EACCES" });
  };
  const fs = { ...real, existsSync: exists, accessSync };
  fs.default = fs;
  const p = { ...require("node:fs/promises"), access };
  p.default = p;
  fs.promises = p;
  h.shim("node:fs", fs);
  h.shim("node:fs/promises", p);
}
harnesses.vendored = {
  claim: "the vendored ExifTool is run, from app.asar.unpacked when its path has a folder app.asar; only when neither is there, the one in Electron's resources; then the first in PATH; else the call rejects",
  bounds: "a path whose folders are any text of up to 8 units around an app.asar or not, the package missing or exporting its path directly or as default; each candidate there or not; resourcesPath set or not",
  reach: ["unpacked", "packed", "forge", "path", "none"],
  async run(h) {
    const comp = h.str("comp", { min: 1, max: 8, ranges: [[46, 46], [97, 97], [112, 112], [114, 115], [233, 233]] });
    const second = h.choice("second", ["node_modules", "app.asar", "app.asar.unpacked", "APP.ASAR"]);
    const own = "/opt/" + comp + "/" + second + "/bin/exiftool";
    const fix = (c) => (c === "app.asar" ? "app.asar.unpacked" : c);
    const unpacked = "/opt/" + fix(comp) + "/" + fix(second) + "/bin/exiftool";
    const pkg = h.choice("pkg", ["missing", "direct", "default"]);
    const eU = h.bool("eU");
    const eP = unpacked === own ? eU : h.bool("eP");
    const res = h.bool("res");
    const eF = res && h.bool("eF");
    const inPath = h.choice("inPath", ["no", "/a", "/b", "both", "unrunnable"]);
    const forge = "/res/exiftool-vendored.pl/bin/exiftool";
    const runs = (f) => {
      if (f === "/a/exiftool") return inPath === "/a" || inPath === "both" ? "rx" : inPath === "unrunnable" ? "r" : "no";
      if (f === "/b/exiftool") return inPath === "/b" || inPath === "both" ? "rx" : "no";
      return "no";
    };
    fsOf(h, (f) => (f === unpacked ? eU : f === own ? eP : f === forge ? eF : false), runs);
    if (pkg === "missing")
      h.shim("exiftool-vendored.pl", new Proxy({}, {
        get() {
          throw Object.assign(new Error("Cannot find module 'exiftool-vendored.pl'"), { code: "MODULE_NOT_FOUND" });
        },
        has() {
          throw Object.assign(new Error("Cannot find module 'exiftool-vendored.pl'"), { code: "MODULE_NOT_FOUND" });
        },
        ownKeys() {
          throw Object.assign(new Error("Cannot find module 'exiftool-vendored.pl'"), { code: "MODULE_NOT_FOUND" });
        },
        getPrototypeOf() {
          throw Object.assign(new Error("Cannot find module 'exiftool-vendored.pl'"), { code: "MODULE_NOT_FOUND" });
        },
      }));
    else h.shim("exiftool-vendored.pl", pkg === "direct" ? own : Object.defineProperty({ default: own }, "__esModule", { value: true }));
    proc(h, "/a:/b", res ? { resourcesPath: "/res" } : {});
    const warned = [];
    const log = h.choice("log", [0, 1]);
    const logger = { trace: nop, debug: nop, info: nop, warn: (m) => warned.push(m), error: nop };
    const exiftoolPath = h.entry("ExifTool", "exiftoolPath");
    const r = await outcome(() => exiftoolPath(log === 1 ? logger : undefined));
    let want;
    let how;
    if (pkg !== "missing" && eU) (want = unpacked), (how = "unpacked");
    else if (pkg !== "missing" && eP) (want = own), (how = "packed");
    else if (eF) (want = forge), (how = "forge");
    else if (inPath === "/a" || inPath === "both") (want = "/a/exiftool"), (how = "path");
    else if (inPath === "/b") (want = "/b/exiftool"), (how = "path");
    else how = "none";
    h.reach(how);
    if (want === undefined) h.assert(!r.ok && r.error instanceof Error && r.error.message.length > 0, "no ExifTool anywhere, but the call did not reject");
    else h.assert(r.ok && r.value === want, "another ExifTool than the documented first one");
    if (how === "unpacked") h.assert(warned.length === 0, "a warning although the vendored ExifTool was found");
  },
};
harnesses.which = {
  claim: "a program is the first readable and executable one in PATH order; an absolute path that can be run is taken as it is, else its name is looked for in PATH; a missing PATH finds nothing",
  bounds: "PATH of 0..3 directories of any text of 1..3 units, each with the program runnable, only readable, only executable or not there; absolute or bare name",
  reach: ["own", "first", "later", "none"],
  async run(h) {
    const n = h.choice("n", [0, 1, 2, 3]);
    const abs = h.bool("abs");
    const dirs = Array.from({ length: n }, (_, i) => "/" + i + h.str("d" + i, { min: 1, max: h.tier === "thorough" ? 5 : 3, ranges: [[32, 32], [45, 45], [48, 57], [97, 122], [192, 0x2fff]] }));
    const st = Array.from({ length: n }, (_, i) => h.choice("st" + i, ["no", "r", "x", "rx"]));
    const own = abs ? h.choice("own", ["no", "r", "rx"]) : "no";
    const runs = (f) => {
      if (f === "/usr/bin/perl") return own;
      for (let i = 0; i < n; i++) if (f === dirs[i] + "/perl") return st[i];
      return "no";
    };
    fsOf(h, () => false, runs);
    proc(h, n === 0 && h.bool("unset") ? undefined : dirs.join(":"));
    const { which } = h.R("Which");
    const r = await which(abs ? "/usr/bin/perl" : "perl");
    const k = st.indexOf("rx");
    const want = own === "rx" ? "/usr/bin/perl" : k < 0 ? undefined : dirs[k] + "/perl";
    h.reach(own === "rx" ? "own" : k < 0 ? "none" : k === 0 ? "first" : "later");
    h.assert(r === want, "another program than the first in PATH that can be run");
  },
};
harnesses.configured = {
  claim: "a configured exiftoolPath, given as text, as a promise or as a function (plain or asynchronous), is what is run, asked for once per instance; a blank one means the default; with the shebang ignored it is run by the perl found",
  bounds: "any text of 1..4 units, every form; shebang followed or ignored; two processes started",
  reach: ["text", "fn", "blank"],
  async run(h) {
    const calls = [];
    const cp = { ...require("node:child_process"), spawn: (...a) => (calls.push(a), { fake: calls.length }) };
    cp.default = cp;
    h.shim("node:child_process", cp);
    const form = h.choice("form", ["text", "promise", "fn", "asyncFn", "blank"]);
    const t = form === "blank" ? h.choice("bl", ["", "  "]) : "/" + h.str("t", { min: 1, max: 4 });
    let asked = 0;
    const f = () => (asked++, t);
    const v = form === "promise" ? Promise.resolve(t) : form === "fn" ? f : form === "asyncFn" ? async () => f() : t;
    const ignore = h.bool("ignore");
    fsOf(h, (p) => p === "/v/exiftool", (p) => (p === "/usr/bin/perl" ? "rx" : "no"));
    h.shim("exiftool-vendored.pl", "/v/exiftool");
    proc(h, "/a", {});
    const ExifTool = h.entry("ExifTool", "ExifTool");
    const et = new ExifTool({ exiftoolPath: v, ignoreShebang: ignore });
    await et.options.processFactory();
    await et.options.processFactory();
    h.reach(form === "blank" ? "blank" : asked > 0 ? "fn" : "text");
    const want = form === "blank" ? "/v/exiftool" : t;
    h.assert(calls.length === 2, "not one process per request");
    for (const c of calls) h.assert(ignore ? c[0] === "/usr/bin/perl" && c[1][0] === want : c[0] === want && c[1][0] !== want, "another program is run than the configured one");
    h.assert(asked <= 1, "the path was asked for more than once");
    h.assert((await et.exiftoolPath()) === want, "exiftoolPath() is not what is run");
  },
};
harnesses.shebang = {
  claim: "by default ExifTool is run by its own first line, and by the perl found in PATH exactly where there is no /usr/bin/perl; never on Windows",
  bounds: "Linux, macOS and Windows; /usr/bin/perl there or not; perl in either of two PATH folders or in none; one process",
  reach: ["direct", "perl", "none"],
  async run(h) {
    const platform = h.choice("platform", ["linux", "darwin", "win32"]);
    const calls = [];
    const cp = { ...require("node:child_process"), spawn: (...a) => (calls.push(a), { fake: calls.length }) };
    cp.default = cp;
    h.shim("node:child_process", cp);
    const os = { ...require("node:os"), platform: () => platform };
    os.default = os;
    h.shim("node:os", os);
    const there = h.bool("there");
    const at = h.choice("at", ["/a/perl", "/b/perl", undefined]);
    fsOf(h, (p) => (p === "/usr/bin/perl" ? there : p === at), (p) => ((p === "/usr/bin/perl" && there) || p === at ? "rx" : "no"));
    proc(h, "/a:/b", { platform });
    const ExifTool = h.entry("ExifTool", "ExifTool");
    const et = new ExifTool({ exiftoolPath: "/v/exiftool" });
    const r = await outcome(() => et.options.processFactory());
    const direct = platform === "win32" || there;
    h.reach(direct ? "direct" : at === undefined ? "none" : "perl");
    if (direct) h.assert(r.ok && calls.length === 1 && calls[0][0] === "/v/exiftool", "ExifTool is not run directly");
    else if (at === undefined) h.assert(!r.ok && calls.length === 0, "no perl anywhere, but something was run");
    else h.assert(r.ok && calls.length === 1 && calls[0][0] === at && calls[0][1][0] === "/v/exiftool", "ExifTool is not run by the perl found");
  },
};
exports.harnesses = harnesses;
