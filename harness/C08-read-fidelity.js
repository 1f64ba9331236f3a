"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["ExifTool's JSON reaches the task's parser unchanged", "the harness's JSON text is what JSON.stringify renders for the given tags"];

function reader(h, options) {
  let out = "";
  const { et, sent } = fakeExifTool(h, options, (t) => Promise.resolve().then(() => t.parser(out, "", true)));
  return {
    sent,
    read: (tags, opts) => {
      out = h.jsonText([tags]);
      return outcome(() => et.read("/f.jpg", opts));
    },
    readRaw: (tags, opts) => {
      out = h.jsonText([tags]);
      return outcome(() => et.readRaw("/f.jpg", opts));
    },
    readText: (text, opts) => {
      out = text;
      return outcome(() => et.read("/f.jpg", opts));
    },
  };
}
const NAME = [[48, 57], [65, 90], [97, 122]];
function plainName(h, n, max) {
  const first = h.str(n + "0", { min: 1, max: 1, ranges: [[65, 90]] });
  const rest = h.str(n, { min: 0, max, ranges: NAME });
  return first + rest;
}
const lc = (c) => (c >= 65 && c <= 90 ? c + 32 : c);
// case-insensitive containment as one formula
function containsFold(h, s, w) {
  let r = false;
  for (let i = 0; i + w.length <= s.length; i++) {
    let m = true;
    for (let j = 0; j < w.length; j++) {
      const c = s.charCodeAt(i + j);
      const l = w.charCodeAt(j);
      m = h.and(m, h.or(c === l, c === l - 32));
    }
    r = h.or(r, m);
  }
  return r;
}
function ordinary(h, name) {
  for (const w of ["when", "date", "time", "subsec", "creat", "modif"]) h.assume(h.not(containsFold(h, name, w)));
  h.assume(h.not(name.startsWith("GPS")));
  h.assume(h.not(name.endsWith("Valid")));
  h.assume(name !== "Error" && name !== "Warning");
}
const NULLISH = ["undef", "null", "undefined"];
const harnesses = {};
harnesses.text = {
  claim: "a text value of a tag that is neither a date/time, GPS, boolean nor binary placeholder comes back unchanged under its own name",
  bounds: "tag names of 1..5 letters/digits, values of 0..4 UTF-16 units (thorough 1..7 and 0..6); 'undef', 'null', 'undefined' (trimmed) are dropped",
  reach: ["kept", "dropped"],
  maxDecisions: 6000,
  async run(h) {
    const name = plainName(h, "name", h.tier === "thorough" ? 6 : 4);
    ordinary(h, name);
    const word = h.choice("word", ["free", ...NULLISH]);
    const v = word === "free" ? h.str("v", { min: 0, max: h.tier === "thorough" ? 6 : 4 }) : h.choice("pad", ["", " ", "x"]) + word + h.choice("tail", ["", "\n", "x"]);
    const r = await reader(h, {}).read(h.symObj([["SourceFile", "/f.jpg"], ["Artist", "me"], [name, v], ["Last", 7]]));
    h.assert(r.ok, "read rejected readable output");
    if (!r.ok) return;
    const t = r.value;
    h.assert(h.and(t.SourceFile === "/f.jpg", t.Artist === "me" || name === "Artist", t.Last === 7 || name === "Last"), "another tag changed");
    h.assume(name !== "Artist" && name !== "Last" && name !== "SourceFile");
    const s = v.trim();
    const nul = h.or(s === "undef", s === "null", s === "undefined");
    const got = t[name];
    h.reach(got === undefined ? "dropped" : "kept");
    h.assert(h.eq(got === undefined, nul), "a value was dropped, or a placeholder kept");
    if (got !== undefined) h.assert(got === v, "the text changed");
    h.assert(t.errors.length === 0 && t.warnings.length === 0, "complaints were invented");
  },
};
harnesses.typed = {
  claim: "numbers, booleans, lists and structures come back with their JSON type and content",
  bounds: "integers -9999999..9999999, decimals, booleans, lists of text and numbers, nested structures with text of 0..3 units",
  reach: ["end"],
  async run(h) {
    const s = h.str("s", { min: 0, max: 3 });
    const n = h.int("n", -9999999, 9999999);
    const b = h.bool("b");
    const st = s.trim();
    h.assume(st !== "null");
    const m = h.choice("m", ["read", "readRaw"]);
    const r = await reader(h, {})[m]({ SourceFile: "/f.jpg", Num: n, Dec: -0.0625, Flag: b, List: [s, n, "z"], Deep: { A: s, B: [{ C: n, D: b }], E: { F: s } } });
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    const t = r.value;
    h.reach("end");
    h.assert(h.and(t.Num === n, t.Dec === -0.0625, t.Flag === b), "a number or boolean changed");
    h.assert(Array.isArray(t.List) && t.List.length === 3, "a list changed its length");
    h.assert(h.and(t.List[0] === s, t.List[1] === n, t.List[2] === "z"), "a list element changed");
    h.assert(Object.keys(t.Deep).join() === "A,B,E" && Array.isArray(t.Deep.B) && t.Deep.B.length === 1, "a structure changed its shape");
    h.assert(h.and(t.Deep.A === s, t.Deep.B[0].C === n, t.Deep.B[0].D === b, t.Deep.E.F === s), "a structure field changed");
  },
};
harnesses.fields = {
  claim: "fields of structures keep their text: only a field that is itself named *Valid, or a date/time field, is converted",
  bounds: "structure tag among ordinary, *Valid and *Valid* names; field names of 1..5 letters plus *Valid names, values the yes/no words and text of 0..4 letters/digits; the same inside a list of structures",
  reach: ["kept", "converted"],
  async run(h) {
    const parent = h.choice("parent", ["Deep", "GradeValid", "ValidGrade", "Valid"]);
    const k = h.choice("k", ["sym", "Valid", "isValid", "Validity"]);
    let f = k;
    if (k === "sym") {
      f = plainName(h, "f", 5);
      ordinary(h, f);
      h.assume(!f.endsWith("Valid"));
    }
    const w = h.choice("w", ["sym", "yes", "No", "1", "0", "on", "OFF", "true", "False"]);
    const v = w === "sym" ? h.str("v", { min: 0, max: 4, ranges: [[48, 57], [65, 90], [97, 122]] }) : w;
    h.assume(v !== "null");
    const list = h.bool("list");
    const st = h.symObj([[f, v]]);
    const r = await reader(h, {}).read(h.symObj([["SourceFile", "/f.jpg"], [parent, list ? [st] : st]]));
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    const o = list ? r.value[parent][0] : r.value[parent];
    h.assert(Object.keys(o).length === 1, "a structure changed its shape");
    const got = o[f];
    const lv = v.toLowerCase();
    const yes = h.or(lv === "yes", lv === "true", lv === "on", lv === "1");
    const no = h.or(lv === "no", lv === "false", lv === "off", lv === "0");
    if ((k === "Valid" || k === "isValid") && h.or(yes, no)) {
      h.reach("converted");
      h.assert(typeof got === "boolean", "a Valid field was not converted");
      if (typeof got === "boolean") h.assert(h.eq(got, yes), "a Valid field has the wrong truth value");
    } else {
      h.reach("kept");
      h.assert(got === v, "a structure field changed");
    }
  },
};
harnesses.keys = {
  claim: "read returns exactly the tags ExifTool printed plus errors/warnings and, when a zone is known, zone/tz/tzSource",
  bounds: "three tags with symbolic names (1..3 letters/digits), any values among text, 0, false, empty text",
  reach: ["end"],
  async run(h) {
    const names = [];
    for (let i = 0; i < 2; i++) {
      const n = plainName(h, "n" + i, 2);
      ordinary(h, n);
      names.push(n);
    }
    h.assume(names[0] !== names[1]);
    const vals = [h.choice("v0", ["x", 0, false, ""]), h.choice("v1", ["y", 1, true, " "])];
    const r = await reader(h, {}).read(h.symObj([["SourceFile", "/f.jpg"], [names[0], vals[0]], [names[1], vals[1]]]));
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    h.reach("end");
    h.assert(Object.keys(r.value).length === 5, "a tag was dropped or invented");
    h.assert(h.and(r.value[names[0]] === vals[0], r.value[names[1]] === vals[1]), "a value changed");
  },
};
harnesses.prototypeNames = {
  claim: "tags and fields that are named like a member of every object are returned like any other, and change nothing else",
  bounds: "ten such names, as a tag (those ExifTool can print), a structure field, a field of a structure in a list, or deeper; text, number or structure as value; read, readRaw",
  reach: ["tag", "field"],
  async run(h) {
    const raw = h.bool("raw");
    const at = h.choice("at", ["tag", "field", "list", "deep"]);
    const name = h.choice("name", ["constructor", "toString", "valueOf", "hasOwnProperty", "isPrototypeOf", "toLocaleString", "__defineGetter__", "length", "0", ...(at === "tag" ? [] : ["__proto__"])]);
    const kind = h.choice("kind", ["text", "number", "struct"]);
    const x = kind === "number" ? h.int("n", -99, 99) : h.str("s", { min: 1, max: 2, ranges: [[97, 122]] });
    const v = kind === "struct" ? { Inner: x } : x;
    const o = JSON.stringify({ K: 1 }).slice(1, -1) + ',"' + name + '":' + h.jsonText(v);
    const body = at === "tag" ? o : at === "field" ? '"T":{' + o + "}" : at === "list" ? '"T":[{' + o + "}]" : '"T":{"U":{' + o + "}}";
    const { et } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser('[{"SourceFile":"/f.jpg",' + body + "}]", "", true)));
    const r = await outcome(() => (raw ? et.readRaw("/f.jpg") : et.read("/f.jpg")));
    h.assert(r.ok, "the read rejected");
    if (!r.ok) return;
    h.reach(at === "tag" ? "tag" : "field");
    const t = r.value;
    const own = at === "tag" ? t : at === "field" ? t.T : at === "list" ? t.T?.[0] : t.T?.U;
    h.assert(own?.K === 1, "the field before it is missing");
    const d = Object.getOwnPropertyDescriptor(own ?? {}, name);
    h.assert(d !== undefined && d.enumerable === true, "the value is missing");
    if (d === undefined) return;
    h.assert(kind === "struct" ? Object.keys(d.value).length === 1 && d.value.Inner === x : d.value === x, "the value changed");
    if (at !== "tag") h.assert(Object.keys(own).length === 2, "the structure changed its shape");
    h.assert(own.Inner === undefined && Object.getPrototypeOf(own) === Object.getPrototypeOf(t) && ({}).Inner === undefined, "the value leaked into the prototype");
  },
};
harnesses.raw = {
  claim: "readRaw returns every value as printed, dates and GPS included",
  bounds: "tag names of 1..4 units plus date, GPS and Valid names; values of 0..4 units",
  reach: ["end"],
  async run(h) {
    const name = h.choice("fixed", [undefined, "DateTimeOriginal", "GPSLatitude", "SubSecTime", "SomethingValid", "ThumbnailImage", "CreateDate"]) ?? plainName(h, "name", 3);
    h.assume(name !== "Error" && name !== "Warning" && name !== "Zz");
    const v = h.choice("vk", ["free", "date", "gps", "bin", "undef"]);
    const val = { date: "2024:01:02 03:04:05", gps: "12 deg 30' 0.00\" N", bin: "(Binary data 5 bytes, use -b option to extract)", undef: "undef" }[v] ?? h.str("v", { min: 0, max: 4 });
    const r = await reader(h, {}).readRaw(h.symObj([["SourceFile", "/f.jpg"], [name, val], ["Zz", 1]]));
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    h.reach("end");
    h.assert(h.and(r.value[name] === val, r.value.Zz === 1), "readRaw changed a value");
    h.assert(Object.keys(r.value).length === 5, "a tag was dropped or invented");
  },
};
harnesses.valid = {
  claim: "*Valid tags become booleans exactly for yes/no words (any case, padded)",
  bounds: "values of 0..4 units over the letters of the words, digits and blanks, plus the words themselves in mixed case",
  reach: ["true", "false", "text"],
  async run(h) {
    const free = h.bool("free");
    const v = free ? h.str("v", { min: 0, max: 3, ranges: "01 noyesNOf" }) : h.choice("word", ["true", "False", "TRUE ", "yes", " No", "on", "Off", "maybe", "10"]);
    const r = await reader(h, {}).read({ SourceFile: "/f.jpg", PreviewImageValid: v });
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    const got = r.value.PreviewImageValid;
    const s = v.trim().toLowerCase();
    const T = h.or(s === "true", s === "yes", s === "1", s === "on");
    const F = h.or(s === "false", s === "no", s === "0", s === "off");
    if (got === true) {
      h.reach("true");
      h.assert(T, "a value became true");
    } else if (got === false) {
      h.reach("false");
      h.assert(F, "a value became false");
    } else {
      h.reach("text");
      h.assert(h.not(h.or(T, F)), "a yes/no word stayed text");
      h.assert(got === v, "the text changed");
    }
  },
};
harnesses.binary = {
  claim: "ExifTool's binary placeholders become BinaryField with the printed size and raw text",
  bounds: "sizes 0..9999999999, placeholder wordings of ExifTool, in a plain tag and inside a list",
  reach: ["end"],
  async run(h) {
    const BinaryField = h.entry("BinaryField", "BinaryField");
    const n = h.choice("big", [undefined, 9999999999, 1234567890]) ?? h.int("n", 0, 99999);
    const raw = h.choice("form", ["(Binary data ", "(large binary "]) === "(Binary data " ? "(Binary data " + n + " bytes, use -b option to extract)" : "(Binary " + n + " bytes)";
    const r = await reader(h, {}).read({ SourceFile: "/f.jpg", ThumbnailImage: raw, List: ["a", raw] });
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    h.reach("end");
    for (const f of [r.value.ThumbnailImage, r.value.List[1]]) {
      h.assert(f instanceof BinaryField, "a binary placeholder is not a BinaryField");
      h.assert(h.and(f.bytes === n, f.rawValue === raw), "the size or text of a binary field changed");
    }
    h.assert(r.value.List[0] === "a", "another element changed");
  },
};
harnesses.version = {
  claim: "ExifToolVersion keeps its printed digits (13.30 is not 13.3), also with group-prefixed names",
  bounds: "versions 10.00..13.99 with one or two fractional digits, with and without -G, before or behind another tag with Version in its name",
  reach: ["end"],
  async run(h) {
    const major = h.choice("major", ["9", "12", "13"]);
    const d1 = h.choice("d1", ["0", "3", "9"]);
    const d2 = h.choice("d2", ["", "0", "1", "5"]);
    const v = major + "." + d1 + d2;
    const g = h.bool("g");
    const key = g ? "ExifTool:ExifToolVersion" : "ExifToolVersion";
    const sp = h.choice("sp", ["", " "]);
    const near = h.choice("near", ["FirmwareVersion", "XExifToolVersion", "ExifToolVersionX", "ExifVersion", "exiftoolversion"]);
    const other = '"' + (g ? "A:" : "") + near + '": 1.50';
    const order = h.bool("before") ? [other, '"' + key + '":' + sp + v] : ['"' + key + '":' + sp + v, other];
    const r = await reader(h, {}).readText('[{\n  "SourceFile": "/f.jpg",\n  ' + order.join(",\n  ") + ',\n  "Rating": 5.0\n}]\n', g ? { readArgs: ["-fast", "-G"] } : undefined);
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    h.reach("end");
    h.assert(r.value[key] === v, "the version lost digits");
    h.assert(r.value.Rating === 5 && r.value[(g ? "A:" : "") + near] === 1.5, "another tag changed");
  },
};
harnesses.grouped = {
  claim: "with -G, group-prefixed names are kept, and values are typed as for the bare name",
  bounds: "group of 1..4 letters, tag name of 1..4 letters/digits, text value of 0..3 units",
  reach: ["end"],
  async run(h) {
    const ExifDateTime = h.entry("ExifDateTime", "ExifDateTime");
    const group = h.str("group", { min: 1, max: 4, ranges: [[65, 90], [97, 122]] });
    const name = plainName(h, "name", 3);
    ordinary(h, name);
    const v = h.str("v", { min: 0, max: 3 });
    h.assume(v.trim() !== "null");
    const r = await reader(h, {}).read(h.symObj([["SourceFile", "/f.jpg"], [group + ":" + name, v], [group + ":CreateDate", "2024:01:02 03:04:05+01:00"]]), { readArgs: ["-G"] });
    h.assert(r.ok, "readable output rejected");
    if (!r.ok) return;
    h.reach("end");
    h.assert(r.value[group + ":" + name] === v, "a grouped value changed or was dropped");
    h.assert(r.value[group + ":CreateDate"] instanceof ExifDateTime, "a grouped date is not parsed");
  },
};
exports.harnesses = harnesses;
