"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
const { fakePool } = require("./lib/child");
exports.assumptions = ["luxon and batch-cluster are executed as shipped; no process is started"];
const harnesses = {};
harnesses.setting = {
  claim: "a setting has the last value set, or its default after reset; exactly the current subscribers are told, once per change, the old and the new value, and never without a change; settings do not share subscribers",
  bounds: "four (thorough: six) steps, each a set of any of three values, a reset, a subscription, or an unsubscription, of two settings and up to three listeners",
  reach: ["set", "reset", "told"],
  async run(h) {
    const Setting = h.entry("ExifTool", "Setting");
    const d = h.int("d", 0, 2);
    const s = [new Setting(d), new Setting(7)];
    const val = [d, 7];
    const log = [];
    const want = [];
    const subs = []; // { k, off, on }
    const steps = h.tier === "thorough" ? 6 : 4;
    for (let i = 0; i < steps; i++) {
      const op = h.choice("op" + i, subs.length < 3 ? ["set", "reset", "sub", "unsub", "set1"] : ["set", "reset", "unsub", "set1"]);
      const told = (k, v) => {
        if (h.bool("same" + i)) h.assume(h.eq(val[k], v));
        else {
          h.assume(h.not(h.eq(val[k], v)));
          subs.forEach((b, j) => {
            if (b.on && b.k === k) want.push([j, val[k], v]);
          });
        }
        val[k] = v;
      };
      if (op === "set" || op === "set1") {
        const k = op === "set" ? 0 : 1;
        const v = h.int("v" + i, 0, 2);
        told(k, v);
        s[k].value = v;
        h.reach("set");
      } else if (op === "reset") {
        told(0, d);
        s[0].reset();
        h.reach("reset");
      } else if (op === "sub") {
        const k = subs.length === 2 ? 1 : 0;
        const j = subs.length;
        const b = { k, on: true };
        b.off = s[k].onChange((o, n) => {
          log.push([j, o, n]);
        });
        subs.push(b);
      } else if (subs.length > 0) {
        const j = h.choice("which" + i, subs.length);
        subs[j].off();
        subs[j].on = false;
      }
      for (const k of [0, 1]) h.assert(h.and(s[k].value === val[k], s[k].valueOf() === val[k]), "the setting has another value");
      h.assert(s[0].toString() === String(val[0]), "the setting's text is another value");
      h.assert(s[0].defaultValue === d && s[1].defaultValue === 7, "the default changed");
    }
    h.assert(log.length === want.length, "a subscriber was told too often or not at all");
    if (log.length !== want.length) return;
    if (log.length > 0) h.reach("told");
    log.forEach((l, i) => h.assert(h.and(l[0] === want[i][0], l[1] === want[i][1], l[2] === want[i][2]), "a subscriber was told other values"));
  },
};
const V = "-1100 -1000 -0930 -0900 -0830 -0800 -0700 -0600 -0500 -0400 -0330 -0300 -0230 -0200 -0100 +0000 +0100 +0200 +0300 +0330 +0400 +0430 +0500 +0530 +0545 +0600 +0630 +0700 +0800 +0830 +0845 +0900 +0930 +0945 +1000 +1030 +1100 +1200 +1245 +1300 +1345 +1400".split(" ");
const ARCHAIC = "-1030 -0430 -0044 +0020 +0030 +0124 +0130 +0230 +0451 +0540 +0720 +0730".split(" ");
const mins = (s) => (s[0] === "-" ? -1 : 1) * (Number(s.slice(1, 3)) * 60 + Number(s.slice(3)));
const VALID = V.map(mins);
const ARCH = ARCHAIC.map(mins);
const any = (h, list, o) => list.reduce((r, v) => h.or(r, o === v), false);
harnesses.history = {
  claim: "whatever was set, reset and asked before, offsets, abbreviations and inference follow the settings in force now, and Settings.reset() restores every one",
  bounds: "up to two (thorough: three) changes of the offset, abbreviation and distance settings or a reset of one or all, with the caches filled after each; then any offset -840..840, any difference -60..60 from an offset, an abbreviation",
  reach: ["zone", "none", "reset"],
  async run(h) {
    const TZ = h.R("Timezones");
    const Settings = h.entry("ExifTool", "Settings");
    let archaic = false, baker = false, max = 30, cst = undefined;
    const ask = () => {
      TZ.normalizeZone("+05:00");
      TZ.inferLikelyOffsetMinutes(61);
      TZ.extractZone("10:30:00 CST");
    };
    if (h.bool("filled")) ask();
    const n = h.tier === "thorough" ? 3 : 2;
    for (let i = 0; i < n; i++) {
      const op = h.choice("op" + i, ["none", "archaic", "baker", "max", "cst", "resetAll", "resetArchaic", "resetBaker"]);
      if (op === "none") break;
      if (op === "archaic") Settings.allowArchaicTimezoneOffsets.value = archaic = !archaic;
      else if (op === "baker") Settings.allowBakerIslandTime.value = baker = !baker;
      else if (op === "max") Settings.maxValidOffsetMinutes.value = max = max === 30 ? 7 : 12;
      else if (op === "cst") Settings.tzAbbreviationOffsets.value = { CST: (cst = cst === undefined ? -360 : 480) };
      else if (op === "resetArchaic") (archaic = false), Settings.allowArchaicTimezoneOffsets.reset();
      else if (op === "resetBaker") (baker = false), Settings.allowBakerIslandTime.reset();
      else {
        Settings.reset();
        (archaic = false), (baker = false), (max = 30), (cst = undefined);
        h.reach("reset");
      }
      if (h.bool("ask" + i)) ask();
    }
    const q = h.choice("q", ["offset", "infer", "abbr"]);
    if (q === "offset") {
      const o = h.int("o", -840, 840);
      const good = h.or(any(h, VALID, o), h.and(archaic, any(h, ARCH, o)), h.and(baker, o === -720));
      const z = TZ.normalizeZone(o);
      h.reach(z === undefined ? "none" : "zone");
      h.assert(h.eq(z !== undefined, good), "an offset is judged by other settings than those in force");
      h.assert(h.eq(TZ.validTzOffsetMinutes(o), good), "validTzOffsetMinutes follows other settings");
    } else if (q === "infer") {
      const at = h.choice("at", [60, 345, -720, -630, 451]);
      const d = h.int("d", -60, 60);
      const list = VALID.concat(archaic ? ARCH.concat([-(25 + 21 / 60)]) : [], baker ? [-720] : []);
      const r = TZ.inferLikelyOffsetMinutes(at + d);
      let near = false;
      for (const v of list) near = h.or(near, h.abs(at + d - v) <= max);
      h.assert(h.eq(r !== undefined, near), "an offset is inferred by other settings than those in force");
      if (r !== undefined) h.assert(any(h, list, r), "an offset not enabled was inferred");
    } else {
      const x = TZ.extractZone("10:30:00 CST");
      h.assert(x?.zone === (cst === undefined ? undefined : cst === -360 ? "UTC-6" : "UTC+8"), "the abbreviation follows other settings than those in force");
      h.assert(TZ.extractZone("10:30:00 PDT")?.zone === "UTC-7", "a built-in abbreviation was lost");
    }
  },
};
const LEVELS = ["trace", "debug", "info", "warn", "error"];
// a logger that has the levels chosen, as an object or a class instance (levels on the prototype)
function someLogger(h, got, name) {
  const kind = h.choice(name + "Kind", ["object", "class"]);
  const missing = h.choice(name + "Missing", ["none", "trace", "debug", "all"]);
  const has = LEVELS.filter((l) => missing !== "all" && l !== missing);
  const levels = {};
  for (const l of has)
    levels[l] = function (...a) {
      got.push([l, a[0]]);
    };
  return { logger: kind === "object" ? levels : Object.create(levels), has };
}
harnesses.logger = {
  claim: "a logger given as an object or a function, complete or not, works: calls succeed as without one, and messages of the levels it has reach it, from the process pool and from the tasks",
  bounds: "object, class instance or function returning either; any one or all levels missing; given to the constructor, through Settings before or after, or not; a good read and a damaged one",
  reach: ["ctor", "settings", "none"],
  async run(h) {
    const how = h.choice("how", ["none", "ctorObject", "ctorThunk", "settingsBefore", "settingsAfter"]);
    const got = [];
    const { logger, has } = how === "none" ? { logger: undefined, has: [] } : someLogger(h, got, "l");
    const Settings = h.entry("ExifTool", "Settings");
    const thunk = () => logger;
    if (how === "settingsBefore") Settings.logger.value = thunk;
    const { et, pool } = fakePool(h, { maxProcs: 1, taskRetries: 0, ...(how === "ctorObject" ? { logger } : how === "ctorThunk" ? { logger: thunk } : {}) }, (args) => {
      const f = args.find((a) => a.startsWith("/"));
      return [["out", f === "/bad.jpg" ? "nonsense\n{ready}\n" : `[{"SourceFile":"${f}","Title":"t"}]\n{ready}\n`]];
    });
    if (how === "settingsAfter") Settings.logger.value = thunk;
    h.reach(how === "none" ? "none" : how.startsWith("ctor") ? "ctor" : "settings");
    const raw = h.bool("raw");
    const a = await outcome(() => (raw ? et.readRaw("/a.jpg") : et.read("/a.jpg")));
    h.assert(a.ok && a.value.Title === "t", "a call failed because of the logger");
    const before = got.length;
    const b = await outcome(() => (raw ? et.readRaw("/bad.jpg") : et.read("/bad.jpg")));
    h.assert(!b.ok && b.error instanceof SyntaxError, "a damaged output is reported differently with a logger");
    const lvl = raw ? "error" : "warn";
    const seen = got.slice(before).some(([l, m]) => l === lvl && String(m).includes("Invalid JSON"));
    h.assert(seen === has.includes(lvl), "the task's message did not reach the logger in force");
    await et.end();
    h.assert(got.some(([l]) => l === "info") === has.includes("info"), "the process pool's messages did not reach the logger in force");
    h.assert(pool.crashed === undefined, "an exception escaped into the host");
  },
};
harnesses.redirect = {
  claim: "changing Settings.logger redirects messages at once, of instances that already exist too, and reset stops it; an instance's own logger stays its own",
  bounds: "two loggers set in either order and optionally reset; the instance made before, between or with its own logger",
  reach: ["second", "reset", "own"],
  async run(h) {
    const Settings = h.entry("ExifTool", "Settings");
    const logs = [[], [], []];
    const mk = (k) => Object.fromEntries(LEVELS.map((l) => [l, (m) => logs[k].push(m)]));
    const L = [mk(0), mk(1), mk(2)];
    const own = h.bool("own");
    const made = h.choice("made", ["before", "between"]);
    const asked = [];
    const opts = { maxProcs: 1, taskRetries: 0, ...(own ? { logger: () => L[2] } : {}) };
    const make = () => fakePool(h, opts, () => [["out", "nonsense\n{ready}\n"]]);
    let f = made === "before" ? make() : undefined;
    Settings.logger.value = () => L[0];
    f ??= make();
    Settings.logger.value = () => L[1];
    const reset = h.bool("reset");
    if (reset) Settings.logger.reset();
    logs.forEach((l) => (l.length = 0));
    await outcome(() => f.et.read("/a.jpg"));
    await f.et.end();
    h.reach(reset ? "reset" : "second");
    if (own) h.reach("own");
    h.assert(logs[0].length === 0, "messages still go to a replaced logger");
    const json = (l) => l.some((m) => String(m).includes("Invalid JSON"));
    h.assert(json(logs[1]) === !reset, "task messages do not go to the logger in force");
    h.assert(logs[2].length > 0 === own, "the instance's own logger got nothing, or another's messages");
    if (!own) h.assert(logs[1].length > 0 === !reset, "pool messages do not go to the logger in force");
    void asked;
  },
};
exports.harnesses = harnesses;
