"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["-listx output has the form ExifTool 13 prints; which of two tables describing one tag name wins is not claimed", "the cache directory is an in-memory stand-in"];
const PROTO = ["__proto__", "constructor", "toString", "valueOf", "hasOwnProperty", "isPrototypeOf"];
const ENT = { "&lt;": "<", "&gt;": ">", "&amp;": "&", "&quot;": '"', "&#39;": "'", "&apos;": "'" };
// a memory file system for the cache
function memFs(files, broken) {
  return {
    existsSync: (p) => (p.endsWith(".json") ? files.has(p) : broken !== "noDir"),
    readFileSync: (p, ...a) => {
      if (!files.has(p)) throw new Error("ENOENT");
      return files.get(p);
    },
    writeFileSync: (p, d) => {
      if (broken === "write") throw new Error("ENOSPC");
      files.set(p, d);
    },
    mkdirSync: (p) => {
      if (broken === "mkdir" || broken === "noDir") throw new Error("EACCES");
    },
  };
}
function tool(h, xml, version, files, broken) {
  const { et, sent } = fakeExifTool(h, {}, (t) => Promise.resolve().then(() => t.parser(t.command.startsWith("-ver") ? (version ?? "13.59") + "\n" : xml, "", true)), memFs(files ?? new Map(), broken));
  return { et, sent, listed: () => sent.filter((t) => t.command.startsWith("-listx")).length };
}
const table = (body) => `<?xml version='1.0' encoding='UTF-8'?>\n<taginfo>\n\n<table name='AAC::Main' g0='AAC' g1='AAC' g2='Audio'>\n <desc lang='en'>AAC</desc>\n <desc lang='de'>AACde</desc>\n${body}</table>\n</taginfo>\n`;
const tag = (name, descs, more) => ` <tag id='B' name='${name}' type='?' writable='false'>\n${descs.map(([l, d]) => `  <desc lang='${l}'>${d}</desc>\n`).join("")}${more ?? ""} </tag>\n`;
const VALUES = "  <values>\n   <key id='0'>\n    <val lang='en'>Main</val>\n    <val lang='de'>Haupt</val>\n   </key>\n  </values>\n";
const harnesses = {};
harnesses.text = {
  claim: "the description of a tag is exactly the one ExifTool prints for it in the asked language, with XML entities decoded once; a tag without one in that language has none",
  bounds: "text of an entity between up to 1 and up to 4 units of any BMP text but markup and blanks (quick: 1 and 3), languages en, de, fr and zh_cn in either order, present or not, before or after another tag, with values; get, getAsync and getAll",
  reach: ["described", "none"],
  async run(h) {
    const lang = h.choice("lang", ["en", "de", "zh_cn"]);
    const T = [[33, 33], [35, 37], [40, 59], [61, 61], [63, 126], [0xc0, 0x167f], [0x1681, 0x1fff], [0x2070, 0x2fff], [0x3001, 0xd7ff]];
    const pre = h.str("pre", { min: 1, max: 1, ranges: T });
    const ent = h.choice("ent", ["", ...Object.keys(ENT)]);
    const post = h.str("post", { min: 0, max: h.tier === "thorough" ? 4 : 3, ranges: T });
    const printed = pre + ent + post;
    const want = pre + (ent === "" ? "" : ENT[ent]) + post;
    const present = h.bool("present");
    const others = ["en", "de", "zh_cn", "zh_tw", "fr"].filter((l) => l !== lang).map((l) => [l, "other " + l]);
    const order = h.choice("order", ["first", "last"]);
    const descs = !present ? others : order === "first" ? [[lang, printed], ...others] : [...others, [lang, printed]];
    const own = tag("ZzOwn", descs, h.bool("values") ? VALUES : "");
    const neighbour = tag("ZzNext", [["en", "n en"], ["de", "n de"], ["zh_cn", "n zh"]]);
    const { et } = tool(h, table(h.bool("ownFirst") ? own + neighbour : neighbour + own));
    const { TagDescriptions } = h.R("TagDescriptions");
    const d = new TagDescriptions(et, { language: lang, disableDiskCache: true });
    const how = h.choice("how", ["get", "async", "all"]);
    let v;
    if (how === "async") v = await d.getAsync("ZzOwn");
    else if (how === "all") v = (await d.getAll()).get("ZzOwn");
    else {
      await d.preload();
      v = d.get("ZzOwn");
    }
    h.reach(present ? "described" : "none");
    if (present) {
      h.assert(v !== undefined, "the description is missing");
      if (v !== undefined) h.assert(v.desc === want, "another description is returned");
    } else h.assert(v === undefined, "another language's or tag's description is returned");
    h.assert((await d.getAsync("ZzNext"))?.desc === { en: "n en", de: "n de", zh_cn: "n zh" }[lang], "the neighbour's description changed");
  },
};
harnesses.names = {
  claim: "a name that no tag has is not described, even one of Object.prototype, before and after loading; every printed tag is found under exactly its own name",
  bounds: "names of 1..4 letters, digits, _ and -, the printed one with any one unit replaced, names of Object.prototype; en and de",
  reach: ["own", "unknown", "proto"],
  async run(h) {
    const lang = h.choice("lang", ["en", "de"]);
    const N = [[45, 45], [48, 57], [65, 90], [95, 95], [97, 122]];
    const kind = h.choice("kind", ["own", "unknown", "proto"]);
    const name = "Zz" + h.str("n", { min: 1, max: 2, ranges: N });
    const { et } = tool(h, table(tag(name, [["en", "d"], ["de", "d"]])));
    const { TagDescriptions } = h.R("TagDescriptions");
    const d = new TagDescriptions(et, { language: lang, disableDiskCache: true });
    const asked = kind === "own" ? name : kind === "proto" ? h.choice("p", PROTO) : "Zz" + h.str("m", { min: 1, max: 2, ranges: N });
    if (kind === "unknown") h.assume(asked !== name);
    h.assert(d.get(asked) === undefined, "described before anything is loaded");
    const a = await d.getAsync(asked);
    const g = d.get(asked);
    const all = (await d.getAll()).get(asked);
    h.reach(kind);
    for (const v of [a, g, all]) h.assert(kind === "own" ? v !== undefined && v.desc === "d" : v === undefined, "a tag is not found under its name, or something is found under another");
  },
};
harnesses.curated = {
  claim: "in English the curated descriptions win over ExifTool's, loaded or not, from the cache or not; in another language ExifTool's are returned",
  bounds: "eight curated tags, language en by default or given or de, loaded, not loaded, or from the cache",
  reach: ["curated", "other"],
  async run(h) {
    const name = h.choice("name", ["Aperture", "Title", "Artist", "GPSLatitudeRef", "ISO", "WhiteBalance", "Keywords", "DateTimeOriginal"]);
    const lang = h.choice("lang", [undefined, "en", "de"]);
    const en = lang !== "de";
    const xml = table(tag(name, [["en", "printed"], ["de", "gedruckt"]]));
    const files = new Map();
    const { et } = tool(h, xml, undefined, files);
    const { TagDescriptions } = h.R("TagDescriptions");
    const mk = () => new TagDescriptions(et, { cacheDir: "/cache", ...(lang === undefined ? {} : { language: lang }) });
    const d = mk();
    const early = d.get(name);
    h.assert(en ? early !== undefined && early.desc !== "printed" : early === undefined, "not the curated description before loading, or one in another language");
    const again = h.bool("cache");
    if (again) await d.preload();
    const e = again ? mk() : d;
    const a = await e.getAsync(name);
    await e.preload();
    const g = e.get(name);
    const all = (await e.getAll()).get(name);
    h.reach(en ? "curated" : "other");
    for (const v of [a, g, all]) {
      h.assert(v !== undefined, "the description is missing");
      if (v !== undefined) h.assert(en ? v.desc === early.desc && v.see === early.see : v.desc === "gedruckt", "another description is returned");
    }
  },
};
harnesses.cache = {
  claim: "a second instance answers the same from the disk cache without asking ExifTool; a cache of another version or language, damaged or unreadable, is not used and the answer is the same; failing to write it is not an error",
  bounds: "the cache as written, truncated at every point, with another version or language inside, not an object, or descriptions missing; reading, writing or creating the directory failing; caching switched off",
  reach: ["hit", "miss", "off"],
  witnessMax: 60,
  async run(h) {
    const xml = table(tag("ZzOwn", [["en", "own"], ["de", "eigen &lt;b&gt;"]]) + tag("ZzNext", [["de", "next"]]));
    const files = new Map();
    const kind = h.choice("kind", ["same", "truncated", "version", "language", "null", "list", "noDescriptions", "nullDescriptions", "read", "write", "noDir", "off"]);
    const first = tool(h, xml, undefined, files, ["write", "noDir"].includes(kind) ? kind : undefined);
    const { TagDescriptions } = h.R("TagDescriptions");
    const o = { cacheDir: "/cache", language: "de", disableDiskCache: kind === "off" };
    const a = new TagDescriptions(first.et, o);
    const ra = await outcome(() => a.getAll());
    h.assert(ra.ok && first.listed() === 1, "the descriptions were not loaded");
    h.assert(files.size === (["write", "noDir", "off"].includes(kind) ? 0 : 1), "the cache was not written, or although it is off");
    if (!ra.ok) return;
    const key = [...files.keys()][0];
    let version = "13.59";
    let lang = "de";
    if (key !== undefined) {
      h.assert(key.startsWith("/cache/"), "the cache lies outside the given directory");
      const text = files.get(key);
      const parsed = JSON.parse(text);
      const put = (x) => files.set(key, JSON.stringify(x));
      if (kind === "truncated") files.set(key, text.slice(0, h.choice("cut", Math.min(text.length, 400))));
      else if (kind === "version") put({ ...parsed, version: "13.58" });
      else if (kind === "language") put({ ...parsed, language: "fr" });
      else if (kind === "null") files.set(key, "null");
      else if (kind === "list") files.set(key, "[]");
      else if (kind === "noDescriptions") put({ version, language: lang });
      else if (kind === "nullDescriptions") put({ version, language: lang, descriptions: null });
    }
    // broken from here on
    if (kind === "read") {
      files.get = () => {
        throw new Error("EIO");
      };
    }
    const n0 = first.listed();
    const b = new TagDescriptions(first.et, o);
    const rb = await outcome(() => b.getAll());
    h.assert(rb.ok, "a bad cache makes the call fail");
    if (!rb.ok) return;
    const asked = first.listed() - n0;
    h.reach(kind === "same" ? "hit" : kind === "off" ? "off" : "miss");
    h.assert(asked === (kind === "same" ? 0 : 1), "ExifTool was asked although the cache is good, or not asked although it is not");
    h.assert(rb.value.size === 2 && rb.value.get("ZzOwn")?.desc === "eigen <b>" && rb.value.get("ZzNext")?.desc === "next", "the descriptions differ");
    h.assert(b.get("ZzOwn")?.desc === "eigen <b>" && b.isLoaded && b.size === 2, "not loaded");
  },
};
harnesses.versions = {
  claim: "caches of different ExifTool versions and languages in one directory never mix",
  bounds: "two versions and two languages, loaded in either order, three times",
  reach: ["mixed"],
  async run(h) {
    const files = new Map();
    const VS = ["13.59", "13.60"];
    const LS = ["de", "fr"];
    const tools = {};
    for (const v of VS) tools[v] = tool(h, table(tag("ZzOwn", LS.map((l) => [l, v + l]))), v, files);
    const { TagDescriptions } = h.R("TagDescriptions");
    for (let i = 0; i < 3; i++) {
      const v = h.choice("v" + i, VS);
      const l = h.choice("l" + i, LS);
      const d = new TagDescriptions(tools[v].et, { cacheDir: "/cache", language: l });
      h.assert((await d.getAsync("ZzOwn"))?.desc === v + l, "another version's or language's description is returned");
    }
    h.reach("mixed");
  },
};
harnesses.once = {
  claim: "however many lookups are in flight, ExifTool is asked once, and again only after clear(); clear() forgets what was loaded",
  bounds: "two or three concurrent lookups of each kind, then clear and another",
  reach: ["once"],
  async run(h) {
    const { et, listed } = tool(h, table(tag("ZzOwn", [["en", "own"]])));
    const { TagDescriptions } = h.R("TagDescriptions");
    const d = new TagDescriptions(et, { disableDiskCache: true });
    h.assert(!d.isLoaded && d.size === 0 && d.get("ZzOwn") === undefined, "loaded before it was asked for");
    const kinds = [];
    const n = h.choice("n", [2, 3]);
    for (let i = 0; i < n; i++) kinds.push(h.choice("k" + i, ["async", "all", "preload"]));
    const rs = await Promise.all(kinds.map((k) => (k === "async" ? d.getAsync("ZzOwn") : k === "all" ? d.getAll().then((m) => m.get("ZzOwn")) : d.preload().then(() => d.get("ZzOwn")))));
    h.reach("once");
    for (const r of rs) h.assert(r?.desc === "own", "a lookup has another answer");
    h.assert(listed() === 1 && d.isLoaded && d.size > 0, "ExifTool was asked more than once");
    d.clear();
    h.assert(!d.isLoaded && d.size === 0 && d.get("ZzOwn") === undefined, "clear() did not forget");
    h.assert((await d.getAsync("ZzOwn"))?.desc === "own" && listed() === 2, "not loaded again after clear()");
  },
};
exports.harnesses = harnesses;
