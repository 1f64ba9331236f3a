"use strict";
// Intl with a symbolic time zone name: a name is accepted iff it is one of the
// names ICU knows (zones.json, any letter case) or a numeric offset. Each
// accepted name becomes a path of its own.
const Y = require("./sym");
const T = require("./term");
const { isSym } = Y;
const { fields } = require("./datemodel");
const decide = (t) => Y.truthy(Y.mkBool(t));
const NAMES = [...new Set(require("./zones.json").map((n) => n.toLowerCase()))];
const OFFSET = /^[+\-\u2212](?:[01][0-9]|2[0-3])(?::?[0-5][0-9])?$/;

function zoneName(s) {
  const cs = Y.csOf(s);
  const rs = cs.map((c) => (typeof c === "number" ? [c, c] : T.rangeOf(c) ?? [0, 0xffff]));
  const within = (r, l) => (l >= r[0] && l <= r[1]) || (l >= 97 && l <= 122 && l - 32 >= r[0] && l - 32 <= r[1]);
  const eqc = (c, l) => {
    const up = l >= 97 && l <= 122 ? l - 32 : l;
    if (typeof c === "number") return c === l || c === up ? T.TRUE : T.FALSE;
    return up === l ? T.eq(c, T.int(l)) : T.or(T.eq(c, T.int(l)), T.eq(c, T.int(up)));
  };
  const cands = [];
  for (const n of NAMES) {
    if (n.length !== cs.length) continue;
    let ok = true;
    for (let i = 0; ok && i < n.length; i++) ok = within(rs[i], n.charCodeAt(i));
    if (ok) cands.push([n, T.and(...cs.map((c, i) => eqc(c, n.charCodeAt(i))))]);
  }
  if (cands.length > 0 && decide(T.or(...cands.map((c) => c[1])))) {
    for (const [n, t] of cands) if (decide(t)) return n;
  }
  if (Y.truthy(Y.reTest(OFFSET, s))) return String(Y.concretize(s, "numeric Intl time zone"));
  return null;
}
function DateTimeFormat(locales, options) {
  if (options && isSym(options.timeZone)) {
    const z = zoneName(options.timeZone);
    if (z === null) throw new RangeError("Invalid time zone specified");
    options = { ...options, timeZone: z };
  }
  const f = new Intl.DateTimeFormat(locales, options);
  const zone = options?.timeZone;
  // the numeric rendering luxon reads offsets from, for symbolic instants
  if (zone !== undefined && options.hour12 === false && options.era === "short" && options.second === "2-digit") {
    f.formatToParts = (d) => {
      if (d === undefined || d._t === undefined) return Intl.DateTimeFormat.prototype.formatToParts.call(f, d);
      const x = fields(T.add(d._t, T.int(offsetAt(zone, d._t))));
      const part = (type, t) => ({ type, value: Y.mkNum(t) });
      return [part("month", x.m), part("day", x.d), part("year", x.y), { type: "era", value: "AD" }, part("hour", x.H), part("minute", x.Mi), part("second", x.S)];
    };
  }
  return f;
}
// ---- zone offsets at symbolic instants: the transitions come from ICU ----
const rules = new Map();
const DAY = 86400000;
function nativeOffset(f, ts) {
  const p = {};
  for (const { type, value } of f.formatToParts(new Date(ts))) p[type] = value;
  const y = Number(p.year);
  return Date.UTC(p.era === "BC" ? 1 - y : y, Number(p.month) - 1, Number(p.day), Number(p.hour) % 24, Number(p.minute), Number(p.second)) - Math.floor(ts / 1000) * 1000;
}
// [[from, offset ms], ...] covering lo..hi
function transitions(zone, lo, hi) {
  const key = zone + " " + lo + " " + hi;
  let r = rules.get(key);
  if (r !== undefined) return r;
  const f = new Intl.DateTimeFormat("en-US", { hour12: false, timeZone: zone, year: "numeric", month: "2-digit", day: "2-digit", hour: "2-digit", minute: "2-digit", second: "2-digit", era: "short" });
  let o = nativeOffset(f, lo);
  r = [[lo, o]];
  for (let t = lo; t < hi; t += DAY) {
    const n = Math.min(t + DAY, hi);
    const o2 = nativeOffset(f, n);
    if (o2 === o) continue;
    let a = t;
    let b = n;
    while (b - a > 1000) {
      const m = Math.floor((a + b) / 2000) * 1000;
      if (nativeOffset(f, m) === o) a = m;
      else b = m;
    }
    r.push([b, o2]);
    o = o2;
  }
  rules.set(key, r);
  return r;
}
function offsetAt(zone, t) {
  const rg = T.rangeOf(t);
  if (!rg || rg[1] - rg[0] > 250 * 366 * DAY) {
    const v = Y.concretize(Y.mkNum(t), "zone offset of an unbounded instant");
    return transitions(zone, v, v)[0][1];
  }
  // whole blocks of days, so that the lists are shared
  const B = 512 * DAY;
  const tr = [];
  for (let b = Math.floor(rg[0] / B) * B; b <= rg[1]; b += B) {
    for (const e of transitions(zone, b, b + B)) if (tr.length === 0 || tr[tr.length - 1][1] !== e[1]) tr.push(e);
  }
  let a = 0;
  let b = tr.length - 1;
  while (a < b) {
    const m = (a + b + 1) >> 1;
    if (decide(T.le(T.int(tr[m][0]), t))) a = m;
    else b = m - 1;
  }
  return tr[a][1];
}
DateTimeFormat.prototype = Intl.DateTimeFormat.prototype;
DateTimeFormat.supportedLocalesOf = Intl.DateTimeFormat.supportedLocalesOf;
const IntlModel = Object.create(Intl, { DateTimeFormat: { value: DateTimeFormat, writable: true, configurable: true } });
module.exports = { IntlModel };
