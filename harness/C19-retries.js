"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["the process pool settles each task exactly once (batchCluster.enqueueTask is a stand-in)"];
const { tmpdir } = require("node:os");
// name -> [call, what a successful command resolves to, retried?]
const CALLS = {
  write: [(et) => et.write("/f.jpg", { Title: "x" }), false],
  writeArgs: [(et) => et.write("/f.jpg", { Title: "x" }, ["-overwrite_original"]), false],
  editTags: [(et) => et.editTags("/f.jpg", [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]), false],
  editTagsRemove: [(et) => et.editTags("/f.jpg", [{ tag: "XMP-dc:Subject", operation: "remove", value: "x" }, { tag: "XMP-mwg-coll:Collections", operation: "remove", predicate: { CollectionURI: "u" } }]), false],
  writeNothing: [(et) => et.write("/f.jpg", {}), false],
  writeNull: [(et) => et.write("/f.jpg", { Title: null }, { writeArgs: ["-overwrite_original"] }), false],
  deleteAllTags: [(et) => et.deleteAllTags("/f.jpg"), false],
  deleteAllTagsRetain: [(et) => et.deleteAllTags("/f.jpg", { retain: ["Title"] }), false],
  read: [(et) => et.read("/f.jpg"), true],
  readRaw: [(et) => et.readRaw("/f.jpg"), true],
  version: [(et) => et.version(), true],
  rewriteAllTags: [(et) => et.rewriteAllTags("/f.jpg", "/g.jpg"), true],
  extractBinaryTagToBuffer: [(et) => et.extractBinaryTagToBuffer("ThumbnailImage", "/f.jpg"), true],
};
const harnesses = {};
harnesses.sends = {
  claim: "a write-type call sends its command once and reports its first failure; every other call is tried again after a failure, at most taskRetries times, each time with a new task for the same command, and stops at the first success",
  bounds: "13 calls; taskRetries any of 0..3; every pattern of failures over 4 attempts; failures as errors or other values, at once or after any delay 0..100 ms",
  reach: ["success", "failure", "retried", "once"],
  witnessMax: 120,
  async run(h) {
    const name = h.choice("call", Object.keys(CALLS));
    const [call, retried] = CALLS[name];
    const retries = h.int("retries", 0, 3);
    const results = [];
    const delayed = h.bool("delayed");
    const plainError = h.bool("plainError");
    const value = name === "extractBinaryTagToBuffer" ? Buffer.from("b") : { n: 1 };
    let inFlight = 0;
    let overlap = false;
    const { et, sent } = fakeExifTool(h, { taskRetries: retries }, (t) => {
      const i = results.length;
      const fail = h.bool("fail" + i);
      const r = fail ? { error: plainError ? "no " + i : new Error("no " + i) } : { value };
      results.push(r);
      if (inFlight > 0) overlap = true;
      inFlight++;
      const done = () => {
        inFlight--;
        if (fail) throw r.error;
        return r.value;
      };
      if (!delayed) return Promise.resolve().then(done);
      const ms = h.int("ms" + i, 0, 100);
      return new Promise((res) => h.timers().set(res, ms, [], false)).then(done);
    });
    const r = await outcome(() => call(et));
    h.assert(sent.length >= 1, "the command was never sent");
    h.assert(!overlap, "a command was sent again while the first was still running");
    const limit = retried ? retries + 1 : 1;
    h.assert(sent.length <= limit, retried ? "the command was sent more often than allowed" : "a write was sent again");
    const last = results[results.length - 1];
    h.reach(r.ok ? "success" : "failure");
    if (retried && sent.length > 1) h.reach("retried");
    if (!retried) h.reach("once");
    for (let i = 0; i + 1 < results.length; i++) h.assert("error" in results[i], "a command that had succeeded was sent again");
    h.assert(r.ok === ("value" in last), "the call's outcome is not the last attempt's");
    if (r.ok) h.assert(r.value === value, "another value was returned");
    else {
      h.assert(sent.length === limit, "the call gave up before its retries");
      h.assert(r.error === last.error, "another error was reported");
    }
    for (let i = 1; i < sent.length; i++) {
      h.assert(sent[i].command === sent[0].command, "the retry sent another command");
      for (let j = 0; j < i; j++) h.assert(sent[i] !== sent[j], "a settled task was sent again");
    }
  },
};
harnesses.independent = {
  claim: "concurrent calls do not share their retries: each has its own",
  bounds: "two reads in flight, taskRetries 0..2, every pattern of failures",
  reach: ["both"],
  async run(h) {
    const retries = h.int("retries", 0, 2);
    const n = { "/a.jpg": 0, "/b.jpg": 0 };
    const fails = { "/a.jpg": h.choice("fa", 4), "/b.jpg": h.choice("fb", 4) };
    const { et } = fakeExifTool(h, { taskRetries: retries }, (t) => {
      const f = t.sourceFile;
      const i = n[f]++;
      return Promise.resolve().then(() => {
        if (i < fails[f]) throw new Error("no");
        return f;
      });
    });
    const [a, b] = await Promise.all([outcome(() => et.read("/a.jpg")), outcome(() => et.read("/b.jpg"))]);
    h.reach("both");
    for (const [f, r] of [["/a.jpg", a], ["/b.jpg", b]]) {
      h.assert(h.eq(r.ok, fails[f] <= retries), "a call's failures were counted against another, or not at all");
      if (r.ok) h.assert(r.value === f, "a call returned another's result");
      h.assert(n[f] === (r.ok ? fails[f] + 1 : retries + 1), "sent too often or not often enough");
    }
  },
};
harnesses.missing = {
  claim: "a binary tag that is not there is reported after one attempt, not retried; a refused call (bad tag name) sends nothing",
  bounds: "extractBinaryTag, extractThumbnail, extractBinaryTagToBuffer and a bad tag name; taskRetries 0..3",
  reach: ["missing", "refused"],
  async run(h) {
    const retries = h.int("retries", 0, 3);
    const kind = h.choice("kind", ["file", "thumb", "buffer", "refused", "refusedEdit"]);
    const { et, sent } = fakeExifTool(h, { taskRetries: retries }, (t) => Promise.resolve().then(() => t.parser(kind === "buffer" ? '[{"SourceFile":"/f.jpg"}]' : "    0 output files created\n", "", true)));
    const r = await outcome(() => (kind === "file" ? et.extractBinaryTag("PreviewImage", "/f.jpg", tmpdir() + "/o.jpg") : kind === "thumb" ? et.extractThumbnail("/f.jpg", tmpdir() + "/o.jpg") : kind === "buffer" ? et.extractBinaryTagToBuffer("PreviewImage", "/f.jpg") : kind === "refused" ? et.extractBinaryTag("Bad Name", "/f.jpg", tmpdir() + "/o.jpg") : et.editTags("/f.jpg", [])));
    h.reach(kind.startsWith("refused") ? "refused" : "missing");
    h.assert(!r.ok, "the call resolved without its result");
    h.assert(r.error instanceof Error, "not an Error");
    h.assert(sent.length === (kind.startsWith("refused") ? 0 : 1), "sent more often than useful");
  },
};
harnesses.noPerl = {
  claim: "without a usable perl every call rejects saying so and sends nothing, however often it is made; with one, calls go through",
  bounds: "reads and writes, two calls, perl found at its usual place, elsewhere in PATH, or nowhere; checkPerl on or off",
  reach: ["found", "missing", "unchecked"],
  async run(h) {
    const where = h.choice("perl", ["usual", "path", "nowhere"]);
    const check = h.bool("check");
    const asked = [];
    h.shim("node:fs/promises", {
      ...require("node:fs/promises"),
      access: (p) => {
        asked.push(p);
        return where === "usual" && p === "/usr/bin/perl" ? Promise.resolve() : where === "path" && p !== "/usr/bin/perl" && p.endsWith("/perl") ? Promise.resolve() : Promise.reject(new Error("ENOENT"));
      },
    });
    const nop = () => proc;
    const proc = { pid: process.pid, platform: process.platform, versions: process.versions, version: process.version, arch: process.arch, cwd: () => "/", hrtime: process.hrtime, nextTick: process.nextTick, emitWarning() {}, kill: () => true, on: nop, once: nop, off: nop, removeListener: nop, env: { PATH: "/opt/bin:/usr/local/bin" } };
    proc.default = proc;
    h.shim("node:process", proc);
    const { et, sent } = fakeExifTool(h, { checkPerl: check, taskRetries: h.int("retries", 0, 1) }, () => Promise.resolve("ok"));
    const write = h.bool("write");
    const go = () => outcome(() => (write ? et.write("/f.jpg", { Title: "x" }) : et.readRaw("/f.jpg")));
    const a = await go();
    const b = await go();
    const ok = !check || where !== "nowhere";
    h.reach(!check ? "unchecked" : ok ? "found" : "missing");
    h.assert(a.ok === ok && b.ok === ok, "a call failed although perl is there, or went through without it");
    h.assert(sent.length === (ok ? 2 : 0), "a command was sent without perl, or not sent with it");
    if (!ok) h.assert(/Perl must be installed/.test(a.error.message) && /Perl must be installed/.test(b.error.message), "the error does not say what is missing");
    if (!check) h.assert(asked.length === 0, "perl was looked for although checkPerl is off");
  },
};
exports.harnesses = harnesses;
