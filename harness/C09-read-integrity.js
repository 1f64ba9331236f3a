"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["ExifTool's JSON reaches the task's parser unchanged", "case-sensitive platform (the host of the check)"];

const SEG = "ab./-";
// reference path normalisation: split, drop empty and '.', resolve '..'
function segments(p) {
  const out = [];
  for (const s of p.split("/")) {
    if (s === "" || s === ".") continue;
    if (s === "..") out.pop();
    else out.push(s);
  }
  return out;
}
const harnesses = {};
harnesses.otherFile = {
  claim: "tags that ExifTool attributes to another file are never returned; the same file under another spelling of its path is accepted",
  bounds: "requested file /a/b; SourceFile '/' plus 0..4 units over a b . / - (thorough 0..6)",
  reach: ["rejected", "accepted"],
  maxDecisions: 6000,
  async run(h) {
    const tail = h.str("tail", { min: 0, max: h.tier === "thorough" ? 6 : 4, ranges: SEG });
    const src = "/" + tail;
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(h.jsonText([{ SourceFile: src, Artist: "me" }]), "", true)));
    const r = await outcome(() => et.read("/a/b"));
    const seg = segments(src);
    const trailing = tail.length > 0 && src.charCodeAt(src.length - 1) === 47;
    const same = seg.length === 2 && seg[0] === "a" && seg[1] === "b" && !trailing;
    h.observe("ok", r.ok);
    h.reach(r.ok ? "accepted" : "rejected");
    if (trailing) return; // directory spelling: outside the claim
    if (/\/\.?\.$/.test(src)) return;
    h.assert(h.eq(r.ok, same), "tags of another file were accepted, or the file's own tags rejected");
  },
};
harnesses.relative = {
  claim: "a relative SourceFile is taken for the requested file at most when it denotes it; any other is rejected",
  bounds: "SourceFile of 1..4 units over a b . / - not starting with '/', or with text before the requested path (thorough 1..5); request /a/b, in a working directory that has neither",
  reach: ["rejected"],
  async run(h) {
    const kind = h.choice("kind", ["tail", "before"]);
    const t = h.str("t", { min: 1, max: h.tier === "thorough" ? 5 : 4, ranges: kind === "tail" ? SEG : [[32, 45], [48, 126], [0xa1, 0xd7ff]] });
    h.assume(t.charCodeAt(0) !== 47);
    const src = kind === "tail" ? t : t + "/a/b";
    if (kind === "before") h.assume(t.trim() !== "");
    h.assume(!src.split("/").includes(".."));
    const { et } = fakeExifTool(h, {}, (x) => Promise.resolve().then(() => x.parser(h.jsonText([{ SourceFile: src, Artist: "me" }]), "", true)));
    const r = await outcome(() => et.read("/a/b"));
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(!r.ok, "tags of another file were accepted");
  },
};
harnesses.anyText = {
  claim: "a SourceFile that differs from the requested file in any character is rejected",
  bounds: "requested file /aXb with X any unit that is not a separator or dot; SourceFile the same path with one other unit substituted",
  reach: ["rejected", "accepted"],
  async run(h) {
    const x = h.str("x", { min: 1, max: 1 });
    const y = h.str("y", { min: 1, max: 1 });
    for (const c of [x, y]) h.assume(c !== "/" && c !== "\n" && c !== "\r" && c !== "\0");
    const at = h.choice("at", ["", "pre"]);
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(h.jsonText([{ SourceFile: "/p" + at + y + "b", Artist: "me" }]), "", true)));
    const r = await outcome(() => et.read("/p" + at + x + "b"));
    h.reach(r.ok ? "accepted" : "rejected");
    h.assert(h.eq(r.ok, x === y), "SourceFile comparison differs from equality");
    if (r.ok) h.assert(r.value.SourceFile === "/p" + at + x + "b" && r.value.Artist === "me", "the tags of the file were changed");
  },
};
harnesses.missing = {
  claim: "without SourceFile in the output the requested file is reported; relative names are reported resolved",
  bounds: "SourceFile absent, blank or given; relative and absolute request",
  reach: ["end"],
  async run(h) {
    const path = h.pkg("node:path");
    const file = h.choice("file", ["/q/a.jpg", "a.jpg", "./x/../a.jpg"]);
    const k = h.choice("k", ["absent", "blank", "given"]);
    const j = k === "absent" ? { Artist: "me" } : { SourceFile: k === "blank" ? " " : path.resolve(file), Artist: "me" };
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(JSON.stringify([j]), "", true)));
    const r = await outcome(() => et.read(file));
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    h.assert(r.value.SourceFile === path.resolve(file), "SourceFile is not the requested file");
    h.reach("end");
  },
};
harnesses.truncated = {
  claim: "truncated or concatenated output never yields tags: read and readRaw reject",
  bounds: "a JSON document cut at every position, or followed by extra text of 1..2 non-blank ASCII units",
  reach: ["rejected"],
  async run(h) {
    const doc = '[{"SourceFile":"/f.jpg","Artist":"me","Rating":3}]';
    const m = h.choice("m", ["read", "readRaw"]);
    const cut = h.choice("cut", doc.length + 1);
    const text = cut < doc.length ? doc.slice(0, cut) : doc + h.choice("junk", ["{", "[]", "x", "{ready}", "]"]);
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(text, "", true)));
    const r = await outcome(() => (m === "read" ? et.read("/f.jpg") : et.readRaw("/f.jpg")));
    h.assert(!r.ok, "damaged output was accepted");
    h.reach("rejected");
  },
};
harnesses.concurrent = {
  claim: "two reads in flight never exchange results: each promise gets the tags of its own file whatever the completion order",
  bounds: "two reads of distinct files, either completion order, either reply swapped (a swapped reply rejects)",
  reach: ["ok", "swapped"],
  async run(h) {
    const replies = [];
    const { et } = fakeExifTool(h, {}, (t) => new Promise((res, rej) => replies.push([t, res, rej])));
    const v = h.int("v", 0, 1000);
    const p1 = outcome(() => et.read("/a.jpg"));
    const p2 = outcome(() => et.read("/b.jpg"));
    for (let i = 0; i < 10 && replies.length < 2; i++) await null;
    const order = h.bool("order");
    const swap = h.bool("swap");
    const give = ([t, res, rej], f, x) => {
      try {
        res(t.parser(h.jsonText([{ SourceFile: f, Rating: x }]), "", true));
      } catch (e) {
        rej(e);
      }
    };
    const a = () => give(replies[0], swap ? "/b.jpg" : "/a.jpg", v);
    const b = () => give(replies[1], swap ? "/a.jpg" : "/b.jpg", v + 1);
    if (order) {
      a();
      b();
    } else {
      b();
      a();
    }
    const r1 = await p1;
    const r2 = await p2;
    h.reach(swap ? "swapped" : "ok");
    h.assert(r1.ok === !swap && r2.ok === !swap, "a reply for another file was accepted");
    if (swap) return;
    h.assert(h.and(r1.value.SourceFile === "/a.jpg", r1.value.Rating === v, r2.value.SourceFile === "/b.jpg", r2.value.Rating === v + 1), "results were exchanged");
  },
};
exports.harnesses = harnesses;
