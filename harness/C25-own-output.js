"use strict";
const { outcome } = require("./lib/et");
const { fakePool } = require("./lib/child");
exports.assumptions = [
  "batch-cluster is executed as shipped; the child process is a stand-in that answers each command in turn, standard error before the {ready} line, the way exiftool does in -stay_open mode",
  "ExifTool's JSON never has a raw line break inside a value (it escapes them)",
];
const fileOf = (args) => args.find((a) => a.startsWith("/"));
const harnesses = {};
const readAll = (et, files) => Promise.all(files.map((f) => outcome(() => et.readRaw(f))));
harnesses.own = {
  claim: "concurrent calls each get the output and the warnings of their own command, however the answers are delayed and cut, on one process or two",
  bounds: "three reads in flight, one or two processes, answer delays any 0..50 ms, standard output cut after any of 12 positions or into three pieces, standard error present or not, read before, between or right after (the pipes are separate)",
  reach: ["one", "two"],
  async run(h) {
    const procs = h.choice("procs", [1, 2]);
    const cut = h.choice("cut", [0, 1, 5, 20, 40, -1, -2, -5, -8, -9, -10]);
    const err = h.choice("err", ["no", "first", "between", "after"]);
    const ms = [h.int("ms0", 0, 50), h.int("ms1", 0, 50), h.int("ms2", 0, 50)];
    let n = 0;
    const { et, pool } = fakePool(h, { maxProcs: procs, minDelayBetweenSpawnMillis: procs === 1 ? 1500 : 0 }, (args) => {
      const f = fileOf(args);
      const d = ms[n++ % 3];
      const s = `[{"SourceFile":"${f}","Title":"T${f}"}]\n{ready}\n`;
      const at = cut < 0 ? s.length + cut : cut;
      const e = ["err", `Warning: W - ${f}\n`];
      return [...(err === "first" ? [e] : []), ["out", s.slice(0, at), d], ...(err === "between" ? [e] : []), ["out", s.slice(at), d], ...(err === "after" ? [e] : [])].filter((x) => x[1] !== "");
    });
    const files = ["/a.jpg", "/b.jpg", "/c.jpg"];
    const rs = await readAll(et, files);
    h.reach(pool.children.length === 1 ? "one" : "two");
    rs.forEach((r, i) => {
      h.assert(r.ok, "a read rejected");
      if (!r.ok) return;
      h.assert(r.value.SourceFile === files[i] && r.value.Title === "T" + files[i], "the tags of another command");
      const w = r.value.warnings ?? [];
      h.assert(w.length === (err === "no" ? 0 : 1) && (err === "no" || w[0] === "Warning: W - " + files[i]), "the warnings of another command");
    });
    h.assert(pool.crashed === undefined, "an exception escaped into the host");
  },
};
harnesses.text = {
  claim: "metadata that contains ExifTool's {ready} mark, or any part of it, is returned unchanged and does not disturb this or the next call, wherever the output is cut",
  bounds: "a value of 6..8 units over the letters of {ready}, blank and any non-ASCII, in the first, middle or last tag; output uncut, or cut before, inside or after the value; read and readRaw, another read queued",
  reach: ["read"],
  async run(h) {
    const s = h.str("s", { min: 6, max: 8, ranges: " {}adery\u00e9\u2028" });
    const where = h.choice("where", [0, 1, 2]);
    const cut = h.choice("cut", ["none", "before", "inside", "after", "afterQuote"]);
    const raw = h.bool("raw");
    const { et, pool } = fakePool(h, { maxProcs: 1 }, (args) => {
      const f = fileOf(args);
      if (f === "/b.jpg") return [["out", `[{"SourceFile":"/b.jpg","Title":"b"}]\n{ready}\n`]];
      const v = (k) => (k === where ? s : "x");
      const head = `[{"SourceFile":"/a.jpg","A":"` + (where > 0 ? v(0) + `","B":"` : "") + (where > 1 ? v(1) + `","C":"` : "");
      const tail = `"` + (where < 1 ? `,"B":"${"x"}"` : "") + (where < 2 ? `,"C":"x"` : "") + "}]\n{ready}\n";
      if (cut === "none") return [["out", head + s + tail]];
      if (cut === "before") return [["out", head], ["out", s + tail, 5]];
      if (cut === "inside") return [["out", head + s.slice(0, 3)], ["out", s.slice(3) + tail, 5]];
      if (cut === "after") return [["out", head + s], ["out", tail, 5]];
      return [["out", head + s + '"'], ["out", tail.slice(1), 5]];
    });
    const [a, b] = await Promise.all([outcome(() => (raw ? et.readRaw("/a.jpg") : et.read("/a.jpg"))), outcome(() => et.readRaw("/b.jpg"))]);
    h.reach("read");
    h.assert(a.ok, "the read rejected");
    if (a.ok) h.assert(a.value[["A", "B", "C"][where]] === s, "the value changed");
    h.assert(b.ok && b.value.Title === "b", "the next read was disturbed");
    h.assert(pool.crashed === undefined, "an exception escaped into the host");
  },
};
// a symbolic code point of 1..4 bytes as [bytes, text]
function codePoint(h, name, n) {
  const [lo, hi] = [[0x20, 0x7e], [0x80, 0x7ff], [0x800, 0xffff], [0x10000, 0x10ffff]][n - 1];
  const cp = h.int(name, lo, hi);
  if (n === 1) h.assume(h.and(cp !== 34, cp !== 92));
  if (n === 3) h.assume(h.or(cp < 0xd800, cp > 0xdfff));
  const bytes = n === 1 ? [cp] : [];
  if (n > 1) {
    bytes.push((n === 2 ? 0xc0 : n === 3 ? 0xe0 : 0xf0) + Math.floor(cp / 64 ** (n - 1)));
    for (let k = n - 2; k >= 0; k--) bytes.push(0x80 + (Math.floor(cp / 64 ** k) % 64));
  }
  return { bytes, units: n < 4 ? [cp] : [0xd800 + Math.floor((cp - 0x10000) / 1024), 0xdc00 + ((cp - 0x10000) % 1024)] };
}
harnesses.utf8 = {
  claim: "non-ASCII text arrives unchanged even when the operating system cuts the output inside a character",
  bounds: "a value of two symbolic code points of 1..4 bytes each, on standard output or in a warning on standard error, cut after every byte of it, in two or (thorough) also three pieces; between the pieces nothing, output on the other stream, or the whole answer of another process to another call",
  reach: ["out", "err", "between"],
  async run(h) {
    const B = h.globals.Buffer;
    const x = codePoint(h, "x", h.choice("nx", [1, 2, 3, 4]));
    const y = codePoint(h, "y", h.choice("ny", h.tier === "thorough" ? [1, 2, 3, 4] : [1, 3]));
    const text = [...x.bytes, ...y.bytes];
    const where = h.choice("where", ["out", "err"]);
    const cut = h.choice("cut", text.length + 1);
    const asText = h.bool("second") && h.tier === "thorough";
    const pieces = (pre, post) => {
      const all = [...B.from(pre), ...text, ...B.from(post)];
      const at = B.from(pre).length + cut;
      const mid = asText ? Math.min(at + 1, all.length) : all.length;
      return [all.slice(0, at), all.slice(at, mid), all.slice(mid)].filter((p) => p.length > 0).map((p) => B.from(p));
    };
    const between = h.choice("between", ["nothing", "stream", "call"]);
    const { et, pool } = fakePool(h, { maxProcs: between === "call" ? 2 : 1, minDelayBetweenSpawnMillis: 0 }, (args) => {
      if (fileOf(args) === "/b.jpg") {
        return [["out", B.from('[{"SourceFile":"/b.jpg","Title":"b\u00e9"}]\n{ready}\n'), 50]];
      }
      const ps = where === "out" ? pieces('[{"SourceFile":"/a.jpg","Title":"<', '>"}]\n{ready}\n').map((p) => ["out", p]) : pieces("Warning: <", "> - /a.jpg\n").map((p) => ["err", p]);
      const rest = where === "out" ? [] : [["out", B.from((between === "stream" ? "" : "[") + '{"SourceFile":"/a.jpg","Title":"t"}]\n{ready}\n')]];
      if (between === "stream") ps.splice(1, 0, where === "out" ? ["err", B.from("Notice \u00e9\n")] : ["out", B.from("[")]);
      if (between === "call") ps.slice(1).forEach((e) => e.push(100));
      return [...ps, ...rest];
    });
    const [r, r2] = await Promise.all([outcome(() => et.readRaw("/a.jpg")), between === "call" ? outcome(() => et.readRaw("/b.jpg")) : undefined]);
    h.reach(between === "nothing" ? where : "between");
    if (r2 !== undefined) h.assert(r2.ok && r2.value.Title === "b\u00e9", "the other call's text changed");
    h.assert(r.ok, "the read rejected");
    h.assert(pool.crashed === undefined, "an exception escaped into the host");
    if (!r.ok) return;
    const got = where === "out" ? r.value.Title : r.value.warnings?.[0];
    const pre = where === "out" ? "<" : "Warning: <";
    h.assert(typeof got === "string", "the text is missing");
    if (typeof got !== "string") return;
    const want = [...x.units, ...y.units];
    h.assert(got.length === pre.length + want.length + (where === "out" ? 1 : 10), "the text has another length");
    if (got.length !== pre.length + want.length + (where === "out" ? 1 : 10)) return;
    want.forEach((u, i) => h.assert(got.charCodeAt(pre.length + i) === u, "a character changed"));
  },
};
harnesses.stderrText = {
  claim: "whatever file name or text ExifTool quotes on standard error, the call reports exactly that line, the host process is not harmed and the next call gets its own output",
  bounds: "the quoted text: 6..8 units over the letters of {ready}; the words of a Perl module error with any unit between; the line whole or cut inside the text; an error or a warning",
  reach: ["error", "warning"],
  async run(h) {
    const kind = h.choice("kind", ["ready", "perl"]);
    const s = kind === "ready" ? h.str("s", { min: 6, max: 8, ranges: "{}adery" }) : h.choice("sp", ["", " ", "\u2028"]) + "Can't locate " + h.str("m", { min: 0, max: 2, ranges: [[32, 126]] }) + " in @INC";
    const warn = h.bool("warn");
    const cut = h.choice("cut", ["none", "before", "after", "inside"]);
    const line = (warn ? "Warning: Odd text - /" : "Error: File not found - /") + s;
    const { et, pool } = fakePool(h, { maxProcs: 1 }, (args) => {
      if (fileOf(args) === "/b.jpg") return [["out", '[{"SourceFile":"/b.jpg","Title":"b"}]\n{ready}\n']];
      const at = cut === "before" ? line.length - s.length : cut === "after" ? line.length : line.length - 3;
      const err = cut === "none" ? [["err", line + "\n"]] : [["err", line.slice(0, at)], ["err", line.slice(at) + "\n", 3]];
      return [...err, ["out", (warn ? '[{"SourceFile":"/a.jpg","Title":"a"}]\n' : "") + "{ready}\n", 3]];
    });
    const [a, b] = await Promise.all([outcome(() => et.readRaw("/a.jpg")), outcome(() => et.readRaw("/b.jpg"))]);
    h.reach(warn ? "warning" : "error");
    h.assert(pool.crashed === undefined && h.timers().uncaught === undefined, "an exception escaped into the host");
    h.assert(a.ok === warn, "the call's outcome is wrong");
    if (a.ok && warn) h.assert(a.value.warnings.length === 1 && a.value.warnings[0] === line && a.value.Title === "a", "the warning changed");
    if (!a.ok && !warn) h.assert(a.error.message === line.slice(7), "the error changed");
    h.assert(b.ok && b.value.Title === "b" && b.value.warnings.length === 0 && b.value.errors.length === 0, "the next read was disturbed");
  },
};
harnesses.crash = {
  claim: "when ExifTool dies during a call, a read is tried again on a new process (taskRetries permitting) and returns its own tags, a write is not repeated and rejects; calls waiting behind it are served by a new process",
  bounds: "death before any output, after part of it, or after standard error; delays any 0..50 ms; taskRetries 0..2; one or two deaths; a read queued behind",
  reach: ["retried", "rejected", "write"],
  async run(h) {
    const write = h.bool("write");
    const retries = h.choice("retries", [0, 1, 2]);
    const deaths = h.choice("deaths", [1, 2]);
    const when = h.choice("when", ["start", "part", "stderr", "almost"]);
    const d = h.int("d", 0, 50);
    let tries = 0;
    const { et, pool } = fakePool(h, { maxProcs: 1, taskRetries: retries, minDelayBetweenSpawnMillis: 0 }, (args) => {
      const f = fileOf(args);
      if (f === "/b.jpg") return [["out", '[{"SourceFile":"/b.jpg","Title":"b"}]\n{ready}\n']];
      tries++;
      const good = write ? "    1 image files updated\n" : '[{"SourceFile":"/a.jpg","Title":"a"}]\n';
      if (tries > deaths) return [["out", good + "{ready}\n", d]];
      return when === "start" ? [["exit", 1, d]] : when === "part" ? [["out", good.slice(0, 9), d], ["exit", 1, d]] : when === "almost" ? [["out", good + "{read", d], ["exit", 9, d]] : [["err", "Error: out of memory\n", d], ["exit", 1, 1]];
    });
    const [a, b] = await Promise.all([outcome(() => (write ? et.write("/a.jpg", { Title: "x" }) : et.readRaw("/a.jpg"))), outcome(() => et.readRaw("/b.jpg"))]);
    const attempts = write ? 1 : Math.min(1 + retries, deaths + 1);
    h.reach(write ? "write" : attempts > deaths ? "retried" : "rejected");
    h.assert(tries === attempts, "the command was sent another number of times");
    h.assert(a.ok === attempts > deaths, "the outcome is wrong");
    if (a.ok && !write) h.assert(a.value.SourceFile === "/a.jpg" && a.value.Title === "a", "other tags");
    h.assert(b.ok && b.value.Title === "b" && b.value.SourceFile === "/b.jpg", "the next read was disturbed");
    h.assert(pool.crashed === undefined, "an exception escaped into the host");
  },
};
harnesses.timeout = {
  claim: "a call ExifTool does not answer rejects after taskTimeoutMillis and not before; the process is not used again, and neither its late output nor its death reaches another call",
  bounds: "taskTimeoutMillis any 10..60000 or the default of 30 s, no answer, a late one, or one in time; a read queued behind",
  reach: ["timeout", "inTime"],
  async run(h) {
    const def = h.bool("default");
    const limit = def ? 30000 : h.int("limit", 10, 60000);
    const late = h.choice("late", ["never", "delay"]);
    const d = h.int("d", 0, 70000);
    const { et, pool } = fakePool(h, { maxProcs: 1, minDelayBetweenSpawnMillis: 0, ...(def ? {} : { taskTimeoutMillis: limit }) }, (args) => {
      if (fileOf(args) === "/b.jpg") return [["out", '[{"SourceFile":"/b.jpg","Title":"b"}]\n{ready}\n']];
      return late === "never" ? [["hang"]] : [["out", '[{"SourceFile":"/a.jpg","Title":"a"}]\n{ready}\n', d]];
    });
    h.assume(h.or(d < limit - 5, d > limit + 5));
    const T = h.timers();
    const t0 = T.now;
    let at = 0;
    const [a, b] = await Promise.all([outcome(() => et.readRaw("/a.jpg").finally(() => (at = T.now))), outcome(() => et.readRaw("/b.jpg"))]);
    const inTime = late === "delay" && d < limit;
    h.reach(inTime ? "inTime" : "timeout");
    h.assert(a.ok === inTime, "the outcome is wrong");
    if (a.ok) h.assert(a.value.Title === "a", "other tags");
    else h.assert(h.and(at - t0 >= limit, at - t0 <= limit + 100), "rejected at another time");
    h.assert(b.ok && b.value.Title === "b" && b.value.SourceFile === "/b.jpg", "the next read was disturbed");
    const served = pool.children.findIndex((c) => c.commands.some((x) => fileOf(x) === "/b.jpg"));
    h.assert(inTime ? served === 0 : served === 1, "served by another process");
    h.assert(pool.crashed === undefined, "an exception escaped into the host");
  },
};
harnesses.end = {
  claim: "end() tells every ExifTool process to exit in its own words, leaves none running even if it does not obey; a call in flight settles, with its own tags if at all, and later calls reject without sending anything",
  bounds: "a read in flight answering after any 0..1000 ms or idle; the process obeying, obeying only a signal, or only SIGKILL",
  reach: ["inFlight", "idle"],
  async run(h) {
    const inFlight = h.bool("inFlight");
    const d = h.int("d", 0, 1000);
    const obeys = h.choice("obeys", ["yes", "signal", "kill"]);
    const { et, pool } = fakePool(h, { maxProcs: 1 }, () => [["out", '[{"SourceFile":"/a.jpg","Title":"a"}]\n{ready}\n', d]]);
    pool.obeys = obeys === "yes";
    pool.unkillable = obeys === "kill";
    let p = outcome(() => et.readRaw("/a.jpg"));
    if (inFlight) while (!pool.children.some((c) => c.commands.length > 1)) await new Promise((r) => h.timers().set(r, 1, [], false));
    else h.assert((await p).ok, "the read rejected");
    await et.end();
    h.reach(inFlight ? "inFlight" : "idle");
    const a = await p;
    h.assert(!a.ok || a.value.Title === "a", "another call's output");
    h.assert(pool.children.length === 1 && pool.children[0].ended === "-stay_open\nFalse\n", "ExifTool was not told to exit");
    h.assert(!pool.children[0].alive || pool.kills.some((k) => k[1] === "SIGKILL"), "a process was left running");
    h.assert(et.ended, "not ended");
    const n = pool.children.length;
    const c = await outcome(() => et.readRaw("/b.jpg"));
    h.assert(!c.ok && pool.children.length === n && pool.children[0].commands.length === 2, "a call after end() was not refused");
    h.assert(pool.crashed === undefined, "an exception escaped into the host");
  },
};
exports.harnesses = harnesses;
