"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
const { tmpdir } = require("node:os");
exports.assumptions = ["the BatchCluster only records tasks; node:child_process.spawn is a recorder", "options given as explicit undefined are outside the claim"];
const FILE = "/f.jpg";
// The arguments of a sent command, without -execute and blank lines.
function argsOf(h, task) {
  const lines = task.command.split("\n");
  h.assert(lines[lines.length - 1] === "" && lines[lines.length - 2] === "-execute", "the command does not end with -execute");
  return lines.slice(0, -2);
}
// Removes the pair (a, b) from the list; true if it was there
function takePair(l, a, b) {
  for (let i = 0; i + 1 < l.length; i++)
    if (l[i] === a && (typeof b === "function" ? b(l[i + 1]) : l[i + 1] === b)) {
      l.splice(i, 2);
      return true;
    }
  return false;
}
function takeOne(l, a) {
  const i = l.indexOf(a);
  if (i < 0) return false;
  l.splice(i, 1);
  return true;
}
function takeRun(l, run) {
  if (run.length === 0) return true;
  for (let i = 0; i + run.length <= l.length; i++)
    if (run.every((x, j) => l[i + j] === x)) {
      l.splice(i, run.length);
      return true;
    }
  return false;
}
const PRES = ["none", "inst", "call", "both"];
// Where an option is given, and its effective value
function level(h, name, pres, gen, inst, call, dflt) {
  let eff = dflt;
  if (pres === "inst" || pres === "both") inst[name] = eff = gen("I");
  if (pres === "call" || pres === "both") call[name] = eff = gen("C");
  return eff;
}
const READ = {
  useMWG: { dflt: true, gen: (h) => (s) => h.symBool("useMWG" + s) },
  geolocation: { dflt: false, gen: (h) => (s) => h.symBool("geolocation" + s) },
  keepUTCTime: { dflt: true, gen: (h) => (s) => h.symBool("keepUTCTime" + s) },
  ignoreMinorErrors: { dflt: true, gen: (h) => (s) => h.symBool("ignoreMinorErrors" + s) },
  struct: { dflt: 1, gen: (h) => (s) => h.choice("struct" + s, [0, 1, 2, "undef"]) },
  imageHashType: { dflt: false, gen: (h) => (s) => h.choice("hash" + s, [false, "MD5", "SHA256", "SHA512"]) },
  numericTags: { dflt: undefined, gen: (h) => (s) => h.choice("numeric" + s, [[], ["Foo"], ["Bar", "*Duration*"]]) },
};
const DEFAULT_NUMERIC = ["*Duration*", "GPSAltitude", "GPSLatitude", "GPSLongitude", "GPSPosition", "GeolocationPosition", "Orientation"];
// how the call passes readArgs/writeArgs and options
const FORMS = ["plain", "options", "args", "argsOptions"];
const harnesses = {};
for (const under of Object.keys(READ)) {
  harnesses["read_" + under] = {
    claim: `read(): ${under} is the call's, else the instance's, else the documented default, and the arguments sent are exactly those the options ask for, whatever the others are`,
    bounds: "the option and the others each unset, set on the instance, on the call or both; readArgs by default, instance, option, deprecated argument or both",
    reach: ["sent"],
    witnessMax: 60,
    async run(h) {
      const inst = {};
      const call = {};
      const pres = h.choice("pres", PRES);
      const rest = h.choice("rest", PRES);
      const eff = {};
      for (const k of Object.keys(READ)) {
        const p = k === under ? pres : rest;
        // the options that are not under test carry fixed, unusual values
        const gen = k === under ? READ[k].gen(h) : (s) => ({ useMWG: s === "I", geolocation: s !== "I", keepUTCTime: s === "I", ignoreMinorErrors: s === "I", struct: s === "I" ? 2 : 0, imageHashType: s === "I" ? "SHA512" : "MD5", numericTags: s === "I" ? ["InstTag"] : ["CallTag", "XMP:Foo"] })[k];
        eff[k] = level(h, k, p, gen, inst, call, READ[k].dflt);
      }
      if (eff.numericTags === undefined) eff.numericTags = DEFAULT_NUMERIC;
      let readArgs = ["-fast"];
      if (h.bool("instArgs")) inst.readArgs = readArgs = ["-fast2", "-G"];
      let form = h.choice("form", FORMS);
      const hasCall = Object.keys(call).length > 0;
      if (hasCall && form === "plain") form = "options";
      if (hasCall && form === "args") form = "argsOptions";
      const given = h.choice("given", [[], ["-ee"], ["-api", "largefilesupport=1"]]);
      if (form === "options" && h.bool("optArgs")) call.readArgs = readArgs = ["-fast4"];
      if (form === "args" || form === "argsOptions") {
        readArgs = given;
        if (form === "argsOptions" && h.bool("optArgs")) call.readArgs = ["-ignored"];
      }
      const { et, sent } = fakeExifTool(h, inst);
      const before = Object.keys(call).join() + "|" + Object.keys(inst).join();
      const p = form === "plain" ? et.read(FILE) : form === "options" ? et.read(FILE, call) : form === "args" ? et.read(FILE, given) : et.read(FILE, given, call);
      await outcome(() => p);
      h.assert(sent.length === 1, "not sent once");
      if (sent.length !== 1) return;
      h.reach("sent");
      h.assert(Object.keys(call).join() + "|" + Object.keys(inst).join() === before, "the caller's options were modified");
      const l = argsOf(h, sent[0]);
      h.assert(takeOne(l, FILE), "the file is not sent");
      h.assert(takeOne(l, "-json"), "-json is not sent");
      h.assert(takeRun(l, readArgs), "other readArgs are sent");
      h.assert(h.eq(takeOne(l, "-ignoreMinorErrors"), eff.ignoreMinorErrors), "ignoreMinorErrors is not followed");
      h.assert(h.eq(takePair(l, "-use", "MWG"), eff.useMWG), "useMWG is not followed");
      h.assert(h.eq(takePair(l, "-api", "geolocation"), eff.geolocation), "geolocation is not followed");
      h.assert(h.eq(takePair(l, "-api", "keepUTCTime"), eff.keepUTCTime), "keepUTCTime is not followed");
      h.assert(takePair(l, "-api", "struct=" + (eff.struct === "undef" ? 0 : eff.struct)), "struct is not followed");
      if (eff.imageHashType !== false) {
        h.assert(takePair(l, "-api", "requesttags=imagedatahash"), "the image hash is not requested");
        h.assert(takePair(l, "-api", "imagehashtype=" + eff.imageHashType), "another image hash is requested");
      }
      const all = l.indexOf("-all");
      h.assert(all >= 0, "-all is not sent");
      for (const t of eff.numericTags) {
        const i = l.indexOf("-" + t + "#");
        h.assert(i >= 0, "a numeric tag is not requested as a number");
        h.assert(i < l.indexOf("-all"), "-all is sent before a numeric tag, and wins");
        takeOne(l, "-" + t + "#");
      }
      takeOne(l, "-all");
      h.assert(takePair(l, "-api", (x) => x.startsWith("Filter=")), "the UTF-8 filter is not sent");
      h.assert(l.length === 0, "other arguments are sent too");
    },
  };
}
harnesses.md5 = {
  claim: "the deprecated includeImageDataMD5 requests (or forbids) the MD5 image hash, wherever it is given, unless the same place gives imageHashType",
  bounds: "includeImageDataMD5 and imageHashType each unset or set on the instance and on the call",
  reach: ["hash", "none"],
  async run(h) {
    const inst = {};
    const call = {};
    let eff = false;
    for (const [o, s] of [[inst, "I"], [call, "C"]]) {
      if (h.bool("md5Set" + s)) eff = (o.includeImageDataMD5 = h.bool("md5" + s)) ? "MD5" : false;
      if (h.bool("hashSet" + s)) eff = o.imageHashType = h.choice("hash" + s, [false, "SHA256", "MD5"]);
    }
    const { et, sent } = fakeExifTool(h, inst);
    const deprecated = h.bool("deprecatedForm");
    await outcome(() => (deprecated ? et.read(FILE, ["-fast"], call) : et.read(FILE, call)));
    h.assert(sent.length === 1, "not sent once");
    const l = argsOf(h, sent[0]);
    h.reach(eff === false ? "none" : "hash");
    const got = l.filter((x) => x.startsWith("imagehashtype="));
    h.assert(got.length === (eff === false ? 0 : 1) && (eff === false || got[0] === "imagehashtype=" + eff), "another image hash is requested");
    h.assert(l.includes("requesttags=imagedatahash") === (eff !== false), "the hash is requested although it is off, or not although it is on");
  },
};
harnesses.badHash = {
  claim: "an imageHashType that does not exist rejects and sends nothing",
  bounds: "any text of up to 4 units, on the instance or the call",
  reach: ["rejected"],
  async run(h) {
    const t = h.str("t", { min: 0, max: 4 });
    h.assume(t !== "MD5");
    const on = h.bool("call");
    const { et, sent } = fakeExifTool(h, on ? {} : { imageHashType: t });
    const r = await outcome(() => (on ? et.read(FILE, { imageHashType: t }) : et.read(FILE)));
    h.reach("rejected");
    h.assert(!r.ok && sent.length === 0, "a hash type that does not exist was accepted");
  },
};
harnesses.readRaw = {
  claim: "readRaw(): readArgs, useMWG and ignoreMinorErrors are the call's, else the instance's, else the defaults; nothing but -json, the UTF-8 filter and these is sent",
  bounds: "each option unset, set on the instance, on the call or both, every call form",
  reach: ["sent"],
  async run(h) {
    const inst = {};
    const call = {};
    const useMWG = level(h, "useMWG", h.choice("p1", PRES), (s) => h.symBool("mwg" + s), inst, call, true);
    const ime = level(h, "ignoreMinorErrors", h.choice("p2", PRES), (s) => h.symBool("ime" + s), inst, call, true);
    let readArgs = ["-fast"];
    if (h.bool("instArgs")) inst.readArgs = readArgs = ["-fast2", "-G"];
    // an option of read() has no effect on readRaw()
    if (h.bool("noise")) Object.assign(inst, { struct: 2, geolocation: true, numericTags: ["Foo"], imageHashType: "MD5" });
    let form = h.choice("form", FORMS);
    if (Object.keys(call).length > 0) form = form === "plain" ? "options" : form === "args" ? "argsOptions" : form;
    const given = h.choice("given", [[], ["-ee"], ["-json", "-n"]]);
    if (form === "options" && h.bool("optArgs")) call.readArgs = readArgs = ["-fast4"];
    if (form.startsWith("args")) readArgs = given;
    const { et, sent } = fakeExifTool(h, inst);
    await outcome(() => (form === "plain" ? et.readRaw(FILE) : form === "options" ? et.readRaw(FILE, call) : form === "args" ? et.readRaw(FILE, given) : et.readRaw(FILE, given, call)));
    h.assert(sent.length === 1, "not sent once");
    if (sent.length !== 1) return;
    h.reach("sent");
    const l = argsOf(h, sent[0]);
    h.assert(takeOne(l, FILE), "the file is not sent");
    h.assert(takeRun(l, readArgs), "other readArgs are sent");
    h.assert(readArgs.includes("-json") || takeOne(l, "-json"), "-json is not sent");
    h.assert(h.eq(takeOne(l, "-ignoreMinorErrors"), ime), "ignoreMinorErrors is not followed");
    h.assert(h.eq(takePair(l, "-use", "MWG"), useMWG), "useMWG is not followed");
    h.assert(takePair(l, "-api", (x) => x.startsWith("Filter=")), "the UTF-8 filter is not sent");
    h.assert(l.length === 0, "other arguments are sent too");
  },
};
harnesses.write = {
  claim: "write() and editTags(): writeArgs, useMWG, struct and ignoreMinorErrors are the call's, else the instance's, else the defaults; write arguments come after the tags; deleteAllTags() sends -all= first and then what is retained",
  bounds: "each option unset, set on the instance, on the call or both, every call form",
  reach: ["write", "edit", "deleteAll"],
  witnessMax: 100,
  async run(h) {
    const inst = {};
    const call = {};
    const what = h.choice("what", ["write", "edit", "deleteAll", "retain"]);
    const del = what === "deleteAll" || what === "retain";
    const useMWG = level(h, "useMWG", h.choice("p1", PRES), (s) => h.symBool("mwg" + s), inst, call, true);
    const ime = level(h, "ignoreMinorErrors", h.choice("p2", PRES), (s) => h.symBool("ime" + s), inst, call, true);
    const struct = level(h, "struct", h.choice("p3", PRES), (s) => h.choice("struct" + s, s === "I" ? [0, "undef"] : [2, "undef"]), inst, call, 1);
    let writeArgs = [];
    if (h.bool("instArgs")) inst.writeArgs = writeArgs = ["-overwrite_original"];
    let form = what === "write" ? h.choice("form", FORMS) : "options";
    if (Object.keys(call).length > 0) form = form === "plain" ? "options" : form === "args" ? "argsOptions" : form;
    if (form === "options" && !del && h.bool("optArgs")) call.writeArgs = writeArgs = h.choice("oa", [[], ["-P", "-m"]]);
    if (form.startsWith("args")) {
      writeArgs = h.choice("given", [[], ["-n"]]);
      if (form === "argsOptions" && h.bool("optArgs")) call.writeArgs = ["-ignored"];
    }
    const { et, sent } = fakeExifTool(h, inst);
    const tags = { Title: "a", Artist: "b" };
    const before = Object.keys(call).join() + "|" + Object.keys(inst).join();
    await outcome(() =>
      what === "edit"
        ? et.editTags(FILE, [{ tag: "XMP-dc:Subject", operation: "add", value: "a" }], call)
        : what === "deleteAll"
          ? et.deleteAllTags(FILE, call)
          : what === "retain"
            ? et.deleteAllTags(FILE, { ...call, retain: ["Title", "XMP:Artist"] })
            : form === "plain"
              ? et.write(FILE, tags)
              : form === "options"
                ? et.write(FILE, tags, call)
                : form === "args"
                  ? et.write(FILE, tags, writeArgs)
                  : et.write(FILE, tags, writeArgs, call),
    );
    h.assert(sent.length === 1, "not sent once");
    if (sent.length !== 1) return;
    h.assert(Object.keys(call).join() + "|" + Object.keys(inst).join() === before, "the caller's options were modified");
    h.reach(del ? "deleteAll" : what);
    const l = argsOf(h, sent[0]);
    h.assert(takeOne(l, FILE), "the file is not sent");
    h.assert(h.eq(takeOne(l, "-ignoreMinorErrors"), ime), "ignoreMinorErrors is not followed");
    h.assert(h.eq(takePair(l, "-use", "MWG"), useMWG), "useMWG is not followed");
    h.assert(takePair(l, "-api", "struct=" + (struct === "undef" ? 2 : struct)), "struct is not followed");
    const fields = what === "write" ? ["-Title=a", "-Artist=b"] : what === "edit" ? ["-XMP-dc:Subject+=a"] : what === "retain" ? ["-all=", "-Title<Title", "-XMP:Artist<XMP:Artist"] : ["-all="];
    h.assert(takeRun(l, [...fields, ...(del ? [] : writeArgs)]), "the tags are not followed by the write arguments");
    h.assert(takePair(l, "-sep", "\x1f") && takeOne(l, "-E"), "values are sent without their encoding");
    takeOne(l, "-FileName<FileName");
    h.assert(l.length === 0, "other arguments are sent too");
  },
};
harnesses.isolated = {
  claim: "a call is sent exactly as it would be without the calls made before it, whatever their options and on whichever instance",
  bounds: "one of 8 earlier calls with options of its own, possibly refused, on the same or another instance, followed by one of 6 calls without",
  reach: ["same", "other"],
  async run(h) {
    const EARLIER = {
      retain: (et) => et.deleteAllTags(FILE, { retain: ["Title", "Artist"] }),
      writeArgs: (et) => et.write(FILE, { Title: "x" }, { writeArgs: ["-P"], useMWG: false, struct: 0, ignoreMinorErrors: false }),
      writeArgsList: (et) => et.write(FILE, { GPSLatitude: 5, GPSLongitude: -5 }, ["-n"]),
      edit: (et) => et.editTags(FILE, [{ tag: "XMP-dc:Subject", operation: "add", value: "a" }], { writeArgs: ["-P"], useMWG: false }),
      read: (et) => et.read(FILE, { readArgs: ["-fast2"], numericTags: ["Rating"], geolocation: true, keepUTCTime: true, imageHashType: "SHA256", useMWG: false, struct: 2, ignoreMinorErrors: false }),
      readMD5: (et) => et.read(FILE, ["-fast"], { includeImageDataMD5: true }),
      raw: (et) => et.readRaw(FILE, { readArgs: ["-fast2", "-G"], useMWG: false, ignoreMinorErrors: false }),
      rewrite: (et) => et.rewriteAllTags(FILE, "/g.jpg", { allowMakerNoteRepair: true, ignoreMinorErrors: false }),
    };
    const LATER = {
      deleteAll: (et) => et.deleteAllTags(FILE),
      write: (et) => et.write(FILE, { Title: "y" }),
      edit: (et) => et.editTags(FILE, [{ tag: "XMP-dc:Subject", operation: "add", value: "b" }]),
      read: (et) => et.read(FILE),
      raw: (et) => et.readRaw(FILE),
      rewrite: (et) => et.rewriteAllTags(FILE, "/g.jpg"),
    };
    const first = EARLIER[h.choice("first", Object.keys(EARLIER))];
    const later = LATER[h.choice("later", Object.keys(LATER))];
    const opts = h.choice("opts", [{}, { taskTimeoutMillis: 20000 }]);
    const alone = fakeExifTool(h, opts);
    const where = h.bool("same");
    const used = fakeExifTool(h, opts);
    await outcome(() => later(alone.et));
    await outcome(() => first((where ? used : fakeExifTool(h, {})).et));
    const n = used.sent.length;
    await outcome(() => later(used.et));
    h.reach(where ? "same" : "other");
    h.assert(alone.sent.length === 1 && used.sent.length === n + 1, "not sent once");
    if (alone.sent.length !== 1 || used.sent.length !== n + 1) return;
    h.assert(used.sent[n].command === alone.sent[0].command, "an earlier call's options leaked into this one");
  },
};
harnesses.others = {
  claim: "extractBinaryTag and its variants, extractBinaryTagToBuffer, rewriteAllTags and version() follow ignoreMinorErrors, forceWrite and allowMakerNoteRepair as the call gives them, else the instance, else the defaults, and send exactly their command",
  bounds: "each option unset, set on the instance, on the call or both",
  reach: ["file", "buffer", "rewrite", "version"],
  witnessMax: 100,
  async run(h) {
    const inst = {};
    const call = {};
    const what = h.choice("what", ["file", "thumb", "preview", "raw", "buffer", "rewrite", "version"]);
    const p2 = h.choice("p2", PRES);
    const ime = level(h, "ignoreMinorErrors", what === "version" ? (p2 === "call" || p2 === "both" ? "inst" : p2) : p2, (s) => h.symBool("ime" + s), inst, call, true);
    const toFile = ["file", "thumb", "preview", "raw"].includes(what);
    const force = toFile ? level(h, "forceWrite", h.choice("p3", PRES), (s) => h.symBool("force" + s), inst, call, false) : false;
    const repair = what === "rewrite" && h.bool("repairSet") ? (call.allowMakerNoteRepair = h.symBool("repair")) : false;
    const { et, sent } = fakeExifTool(h, inst);
    const out = tmpdir() + "/o.jpg";
    await outcome(() => {
      switch (what) {
        case "file": return et.extractBinaryTag("MPImage2", FILE, out, call);
        case "thumb": return et.extractThumbnail(FILE, out, call);
        case "preview": return et.extractPreview(FILE, out, call);
        case "raw": return et.extractJpgFromRaw(FILE, out, call);
        case "buffer": return et.extractBinaryTagToBuffer("PreviewImage", FILE, call);
        case "rewrite": return et.rewriteAllTags(FILE, out, call);
        default: return et.version();
      }
    });
    h.assert(sent.length === 1, "not sent once");
    if (sent.length !== 1) return;
    h.reach(toFile ? "file" : what);
    const l = argsOf(h, sent[0]);
    h.assert(h.eq(takeOne(l, "-ignoreMinorErrors"), ime), "ignoreMinorErrors is not followed");
    if (toFile) {
      const tag = { file: "MPImage2", thumb: "ThumbnailImage", preview: "PreviewImage", raw: "JpgFromRaw" }[what];
      h.assert(takeOne(l, "-b") && takeOne(l, "-" + tag), "another tag is extracted");
      const forced = takePair(l, "-W!", out);
      h.assert(forced || takePair(l, "-W", out), "the output file is not sent");
      h.assert(h.eq(forced, force), "forceWrite is not followed");
      h.assert(takeOne(l, FILE), "the file is not sent");
    } else if (what === "buffer") {
      h.assert(takeOne(l, "-b") && takeOne(l, "-json") && takeOne(l, "-PreviewImage") && takeOne(l, FILE), "another tag is extracted");
    } else if (what === "rewrite") {
      h.assert(h.eq(takeOne(l, "-F"), repair), "allowMakerNoteRepair is not followed");
      h.assert(takePair(l, "-out", out) && takeOne(l, FILE), "other files are sent");
      h.assert(takeRun(l, ["-all=", "-tagsfromfile", "@", "-all:all", "-unsafe", "-icc_profile"]), "the tags are not copied back after they were removed");
    } else h.assert(takeOne(l, "-ver"), "not a version command");
    h.assert(l.length === 0, "other arguments are sent too");
  },
};
harnesses.independent = {
  claim: "options of one call or instance never change another: a call without options sends the same command before and after one with options, and two instances keep their own",
  bounds: "read, readRaw, write and editTags, with every option set on the call between, or on another instance; default option arrays inspected",
  reach: ["calls", "instances"],
  async run(h) {
    const what = h.choice("what", ["read", "readRaw", "write", "edit"]);
    const odd = { useMWG: h.symBool("a"), ignoreMinorErrors: h.symBool("b"), struct: 2, geolocation: true, keepUTCTime: h.symBool("c"), imageHashType: "MD5", numericTags: ["Foo"], readArgs: ["-ee"], writeArgs: ["-P"] };
    const go = (et, o) => outcome(() => (what === "read" ? et.read(FILE, o) : what === "readRaw" ? et.readRaw(FILE, o) : what === "write" ? et.write(FILE, { GPSLatitude: -3, Title: "x" }, o) : et.editTags(FILE, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }], o)));
    if (h.bool("sameInstance")) {
      const { et, sent } = fakeExifTool(h, h.bool("inst") ? { readArgs: ["-fast2"], writeArgs: ["-n"] } : {});
      await go(et);
      await go(et, odd);
      await go(et);
      h.reach("calls");
      h.assert(sent.length === 3 && sent[0].command === sent[2].command, "one call's options changed the next call");
    } else {
      const a = fakeExifTool(h, {});
      await go(a.et);
      const b = fakeExifTool(h, odd);
      await go(b.et);
      await go(a.et);
      const c = fakeExifTool(h, {});
      await go(c.et);
      h.reach("instances");
      h.assert(a.sent[0].command === a.sent[1].command, "an instance's options changed another's");
      h.assert(a.sent[0].command === c.sent[0].command, "an instance's options changed the defaults");
    }
  },
};
harnesses.spawn = {
  claim: "the child process is the configured exiftool with the configured arguments, without a shell, in an environment of exactly exiftoolEnv, LANG=C and EXIFTOOL_HOME (the caller's, else this process's)",
  bounds: "exiftoolPath as text, promise or function, arguments, LANG and EXIFTOOL_HOME given or not, in the options or this process",
  reach: ["spawned"],
  async run(h) {
    const calls = [];
    const cp = { ...require("node:child_process"), spawn: (...a) => (calls.push(a), { fake: calls.length }) };
    cp.default = cp;
    h.shim("node:child_process", cp);
    const home = h.bool("home");
    const nop = () => proc;
    const proc = { pid: process.pid, platform: process.platform, versions: process.versions, version: process.version, arch: process.arch, cwd: () => "/", hrtime: process.hrtime, nextTick: process.nextTick, emitWarning() {}, kill: () => true, on: nop, once: nop, off: nop, removeListener: nop, env: { PATH: "/usr/bin", SECRET: "x", ...(home ? { EXIFTOOL_HOME: "/home/et" } : {}) } };
    proc.default = proc;
    h.shim("node:process", proc);
    h.shim("node:fs/promises", { ...require("node:fs/promises"), access: () => Promise.resolve() });
    const env = {};
    const val = h.str("val", { min: 1, max: 3, ranges: [[33, 126]] });
    if (h.bool("other")) env.FOO = val;
    if (h.bool("lang")) env.LANG = "de_DE";
    const ownHome = h.choice("ownHome", ["no", "yes", "blank"]);
    if (ownHome !== "no") env.EXIFTOOL_HOME = ownHome === "yes" ? "/mine" : "";
    const how = h.choice("path", ["text", "promise", "function", "asyncFunction"]);
    const P = "/opt/exiftool";
    const args = h.bool("args") ? ["-config", "x", "-stay_open", "True", "-@", "-"] : undefined;
    const perl = h.bool("ignoreShebang");
    const { et } = fakeExifTool(h, { exiftoolEnv: env, ignoreShebang: perl, exiftoolPath: how === "text" ? P : how === "promise" ? Promise.resolve(P) : how === "function" ? () => P : async () => P, ...(args ? { exiftoolArgs: args } : {}) });
    const r = await outcome(() => et.options.processFactory());
    h.reach("spawned");
    h.assert(r.ok && calls.length === 1 && r.value.fake === 1, "no process, or more than one, was started");
    const [cmd, a, o] = calls[0];
    const expect = args ?? ["-stay_open", "True", "-@", "-"];
    if (perl) {
      h.assert(/\/perl$/.test(cmd) && a[0] === P, "not started through perl");
      h.assert(a.slice(1).join("\n") === expect.join("\n"), "other arguments");
    } else h.assert(cmd === P && a.join("\n") === expect.join("\n"), "another program or other arguments");
    h.assert(!o.shell && !o.detached, "started through a shell or detached");
    const want = { ...env, LANG: "C" };
    if (home && ownHome !== "yes") want.EXIFTOOL_HOME = "/home/et";
    h.assert(Object.keys(o.env).sort().join() === Object.keys(want).sort().join() && Object.keys(want).every((k) => o.env[k] === want[k]), "another environment");
  },
};
exports.harnesses = harnesses;
