"use strict";
// Symbolic values and the models of JavaScript built-ins over them.
const T = require("./term");
const { Matcher, Unsupported, inSet, SPACE, DIGIT } = require("./regex");

let cx = null; // current path context (explore.js)
const setContext = (c) => {
  cx = c;
};
const getContext = () => cx;

class Abort extends Error {
  constructor(reason, detail) {
    super(reason);
    this.reason = reason;
    this.detail = detail;
  }
}

class Sym {}
class SymBool extends Sym {
  constructor(t) {
    super();
    this.t = t;
  }
  toString() {
    return decide(this.t) ? "true" : "false";
  }
  valueOf() {
    return this;
  }
  toJSON() {
    return cx.numMarker(this);
  }
  [Symbol.toPrimitive](hint) {
    return hint === "number" ? (decide(this.t) ? 1 : 0) : hint === "string" ? String(decide(this.t)) : decide(this.t);
  }
}
class SymNum extends Sym {
  constructor(t) {
    super();
    this.t = t;
  }
  toString(radix) {
    if (radix !== undefined && radix !== 10) return concretize(this, "toString(radix)").toString(radix);
    return numToStr(this);
  }
  toFixed(d = 0) {
    return toFixedModel(this, d);
  }
  valueOf() {
    return this;
  }
  toJSON() {
    return cx.numMarker(this);
  }
  toLocaleString(...a) {
    return concretize(this, "toLocaleString").toLocaleString(...a);
  }
  [Symbol.toPrimitive](hint) {
    if (hint === "string") return cx.marker(numToStr(this));
    return concretize(this, "native number coercion");
  }
}

const isSym = (x) => x instanceof Sym;
const decide = (t) => cx.decide(t);
const RAW0 = "\uE000";
const RAW1 = "\uE001";
const hasMarker = (s) => cx !== null && cx.markers.length !== 0 && s.indexOf(RAW0) !== -1;

function mkBool(t) {
  if (t === T.TRUE) return true;
  if (t === T.FALSE) return false;
  return new SymBool(t);
}
function mkNum(t) {
  if (t.op === "int") return t.val;
  if (t.op === "rat") return Number(t.val.n) / Number(t.val.d);
  return new SymNum(t);
}
function mkStr(cs) {
  let conc = true;
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i];
    if (typeof c !== "number") {
      if (c.op === "int") {
        cs = cs.slice();
        for (let j = i; j < cs.length; j++) if (typeof cs[j] !== "number" && cs[j].op === "int") cs[j] = cs[j].val;
        return mkStr(cs);
      }
      conc = false;
      break;
    }
  }
  if (conc) {
    let s = "";
    for (let i = 0; i < cs.length; i += 8192) s += String.fromCharCode(...cs.slice(i, i + 8192));
    return s;
  }
  return new SymStr(cs);
}
function codeUnits(s) {
  const a = new Array(s.length);
  for (let i = 0; i < s.length; i++) a[i] = s.charCodeAt(i);
  return a;
}
// native string possibly carrying markers -> native or SymStr
function lift(s) {
  if (typeof s !== "string" || !hasMarker(s)) return s;
  const cs = [];
  let i = 0;
  while (i < s.length) {
    const j = s.indexOf(RAW0, i);
    if (j < 0) {
      cs.push(...codeUnits(s.slice(i)));
      break;
    }
    cs.push(...codeUnits(s.slice(i, j)));
    const k = s.indexOf(RAW1, j);
    const id = k < 0 ? NaN : Number(s.slice(j + 1, k));
    const sym = cx.markers[id];
    if (sym === undefined) {
      cs.push(s.charCodeAt(j));
      i = j + 1;
      continue;
    }
    cs.push(...(typeof sym === "string" ? codeUnits(sym) : sym.cs));
    i = k + 1;
  }
  return mkStr(cs);
}
const csOf = (x) => {
  if (x instanceof SymStr) return x.cs;
  const l = lift(x);
  return l instanceof SymStr ? l.cs : codeUnits(l);
};
const ct = (c) => (typeof c === "number" ? T.int(c) : c);
function cEq(a, b) {
  if (typeof a === "number" && typeof b === "number") return a === b ? T.TRUE : T.FALSE;
  return T.eq(ct(a), ct(b));
}
function csEq(a, b) {
  if (a.length !== b.length) return T.FALSE;
  // cheap concrete mismatch first
  for (let i = 0; i < a.length; i++) if (typeof a[i] === "number" && typeof b[i] === "number" && a[i] !== b[i]) return T.FALSE;
  const fs = [];
  for (let i = 0; i < a.length; i++) {
    const f = cEq(a[i], b[i]);
    if (f === T.FALSE) return f;
    fs.push(f);
  }
  return T.and(...fs);
}
function csLt(a, b) {
  // lexicographic less-than over code units
  let acc = a.length < b.length ? T.TRUE : T.FALSE;
  for (let i = Math.min(a.length, b.length) - 1; i >= 0; i--) {
    const x = ct(a[i]);
    const y = ct(b[i]);
    acc = T.or(T.lt(x, y), T.and(T.eq(x, y), acc));
  }
  return acc;
}
const isStrLike = (x) => typeof x === "string" || x instanceof SymStr;

// integer index argument -> concrete number
function cidx(x, dflt) {
  if (x === undefined) return dflt;
  if (x instanceof SymNum) return concretize(x, "string index");
  x = Number(x);
  return Number.isNaN(x) ? 0 : Math.trunc(x);
}

class SymStr extends Sym {
  constructor(cs) {
    super();
    this.cs = cs;
  }
  get length() {
    return this.cs.length;
  }
  toString() {
    return this;
  }
  valueOf() {
    return this;
  }
  toJSON() {
    return cx.jsonMarker(this);
  }
  [Symbol.toPrimitive](hint) {
    if (hint === "number") {
      const n = strToNumber(this);
      return n instanceof SymNum ? concretize(n, "native string->number") : n;
    }
    return cx.marker(this);
  }
  *[Symbol.iterator]() {
    const cs = this.cs;
    for (let i = 0; i < cs.length; ) {
      const w = cpWidth(cs, i);
      yield mkStr(cs.slice(i, i + w));
      i += w;
    }
  }
}
function cpWidth(cs, i) {
  if (i + 1 >= cs.length) return 1;
  const f = T.and(inSet(cs[i], [[0xd800, 0xdbff]]), inSet(cs[i + 1], [[0xdc00, 0xdfff]]));
  return decide(f) ? 2 : 1;
}

// ------- string methods; `this` is SymStr or native (with symbolic args)
const S = {
  toString() {
    return this;
  },
  valueOf() {
    return this;
  },
  charAt(i) {
    i = cidx(i, 0);
    const cs = csOf(this);
    return i >= 0 && i < cs.length ? mkStr([cs[i]]) : "";
  },
  at(i) {
    i = cidx(i, 0);
    const cs = csOf(this);
    if (i < 0) i += cs.length;
    return i >= 0 && i < cs.length ? mkStr([cs[i]]) : undefined;
  },
  charCodeAt(i) {
    i = cidx(i, 0);
    const cs = csOf(this);
    if (i < 0 || i >= cs.length) return NaN;
    return mkNum(ct(cs[i]));
  },
  codePointAt(i) {
    i = cidx(i, 0);
    const cs = csOf(this);
    if (i < 0 || i >= cs.length) return undefined;
    if (cpWidth(cs, i) === 1) return mkNum(ct(cs[i]));
    return mkNum(T.add(T.mul(T.int(1024), T.sub(ct(cs[i]), T.int(0xd800))), ct(cs[i + 1]), T.int(0x10000 - 0xdc00)));
  },
  slice(a, b) {
    const cs = csOf(this);
    return mkStr(cs.slice(cidx(a, 0), cidx(b, cs.length)));
  },
  substring(a, b) {
    const cs = csOf(this);
    const n = cs.length;
    a = Math.min(Math.max(cidx(a, 0), 0), n);
    b = Math.min(Math.max(cidx(b, n), 0), n);
    return mkStr(cs.slice(Math.min(a, b), Math.max(a, b)));
  },
  substr(a, len) {
    const cs = csOf(this);
    a = cidx(a, 0);
    if (a < 0) a = Math.max(0, cs.length + a);
    len = cidx(len, cs.length);
    return mkStr(cs.slice(a, a + Math.max(0, len)));
  },
  concat(...xs) {
    return xs.reduce((p, x) => concat(p, toStr(x)), this);
  },
  startsWith(x, pos) {
    const cs = csOf(this);
    const xs = csOf(toStr(x));
    pos = cidx(pos, 0);
    return mkBool(pos + xs.length > cs.length ? T.FALSE : csEq(cs.slice(pos, pos + xs.length), xs));
  },
  endsWith(x, end) {
    let cs = csOf(this);
    const xs = csOf(toStr(x));
    cs = cs.slice(0, cidx(end, cs.length));
    return mkBool(xs.length > cs.length ? T.FALSE : csEq(cs.slice(cs.length - xs.length), xs));
  },
  includes(x, pos) {
    const cs = csOf(this);
    const xs = csOf(toStr(x));
    const fs = [];
    for (let i = Math.max(0, cidx(pos, 0)); i + xs.length <= cs.length; i++) fs.push(csEq(cs.slice(i, i + xs.length), xs));
    return mkBool(T.or(...fs));
  },
  indexOf(x, pos) {
    const cs = csOf(this);
    const xs = csOf(toStr(x));
    for (let i = Math.max(0, cidx(pos, 0)); i + xs.length <= cs.length; i++) if (decide(csEq(cs.slice(i, i + xs.length), xs))) return i;
    return -1;
  },
  lastIndexOf(x, pos) {
    const cs = csOf(this);
    const xs = csOf(toStr(x));
    for (let i = Math.min(cs.length - xs.length, cidx(pos, Infinity)); i >= 0; i--) if (decide(csEq(cs.slice(i, i + xs.length), xs))) return i;
    return -1;
  },
  trimStart() {
    const cs = csOf(this);
    let i = 0;
    while (i < cs.length && decide(inSet(cs[i], SPACE))) i++;
    return mkStr(cs.slice(i));
  },
  trimEnd() {
    const cs = csOf(this);
    let i = cs.length;
    while (i > 0 && decide(inSet(cs[i - 1], SPACE))) i--;
    return mkStr(cs.slice(0, i));
  },
  trim() {
    return S.trimEnd.call(S.trimStart.call(this));
  },
  normalize(form) {
    return normalizeForm(this, form === undefined ? "NFC" : form);
  },
  toLowerCase() {
    return mapCase(this, "toLowerCase");
  },
  toUpperCase() {
    return mapCase(this, "toUpperCase");
  },
  toLocaleLowerCase() {
    return mapCase(this, "toLowerCase");
  },
  toLocaleUpperCase() {
    return mapCase(this, "toUpperCase");
  },
  repeat(n) {
    n = cidx(n, 0);
    if (n < 0 || n === Infinity) throw new RangeError("Invalid count value: " + n);
    const cs = csOf(this);
    let out = [];
    for (let i = 0; i < n; i++) out = out.concat(cs);
    return mkStr(out);
  },
  padStart(n, fill = " ") {
    return pad(this, n, fill, true);
  },
  padEnd(n, fill = " ") {
    return pad(this, n, fill, false);
  },
  localeCompare(o, locales, options) {
    const a = csOf(this);
    const b = csOf(toStr(o));
    if (a.length === b.length) {
      if (decide(T.and(...a.map((c, x) => cEq(c, b[x]))))) return 0;
      const s = options && options.sensitivity;
      if (s === "base" || s === "accent") {
        const ea = csOf(mapCase(mkStr(a), "toLowerCase"));
        const eb = csOf(mapCase(mkStr(b), "toLowerCase"));
        if (ea.length === eb.length && decide(T.and(...ea.map((c, x) => T.or(cEq(c, eb[x])))))) return 0;
      }
    }
    return String(concretize(this, "localeCompare")).localeCompare(String(concretize(toStr(o), "localeCompare")), locales, options);
  },
  isWellFormed() {
    const cs = csOf(this);
    const fs = [];
    for (let i = 0; i < cs.length; i++) {
      const hi = inSet(cs[i], [[0xd800, 0xdbff]]);
      const lo = inSet(cs[i], [[0xdc00, 0xdfff]]);
      const nextLo = i + 1 < cs.length ? inSet(cs[i + 1], [[0xdc00, 0xdfff]]) : T.FALSE;
      const prevHi = i > 0 ? inSet(cs[i - 1], [[0xd800, 0xdbff]]) : T.FALSE;
      fs.push(T.or(T.not(hi), nextLo), T.or(T.not(lo), prevHi));
    }
    return mkBool(T.and(...fs));
  },
  split(sep, limit) {
    const cs = csOf(this);
    const lim = limit === undefined ? Infinity : cidx(limit);
    let out = [];
    if (sep === undefined) return [this].slice(0, lim);
    if (sep instanceof RegExp) {
      if (cs.length === 0) {
        return reTest(sep, "") ? [] : [""];
      }
      const m = matcher(sep, cs);
      if (m === null) return String(concretize(this, "split regex")).split(sep, limit);
      let p = 0;
      let q = 0;
      while (q < cs.length) {
        if (!decide(m.M(m.prog, 0, q, null))) {
          q++;
          continue;
        }
        const caps = m.walk(m.prog, q, null);
        const e = Math.min(caps[1], cs.length);
        if (e === p) {
          q++;
          continue;
        }
        out.push(mkStr(cs.slice(p, q)));
        for (let g = 1; g <= m.ngroups; g++) out.push(capStr(cs, caps, g));
        p = q = e;
      }
      out.push(mkStr(cs.slice(p)));
      return out.slice(0, lim);
    }
    const ss = csOf(toStr(sep));
    if (ss.length === 0) return cs.map((c) => mkStr([c])).slice(0, lim);
    let p = 0;
    let q = 0;
    while (q + ss.length <= cs.length) {
      if (decide(csEq(cs.slice(q, q + ss.length), ss))) {
        out.push(mkStr(cs.slice(p, q)));
        p = q = q + ss.length;
      } else q++;
    }
    out.push(mkStr(cs.slice(p)));
    return out.slice(0, lim);
  },
  search(re) {
    if (!(re instanceof RegExp)) re = new RegExp(re);
    const cs = csOf(this);
    const m = matcher(re, cs);
    if (m === null) return String(concretize(this, "search")).search(re);
    const c = m.exec(0, re.sticky);
    return c === null ? -1 : c[0];
  },
  match(re) {
    if (re == null) re = /(?:)/;
    if (!(re instanceof RegExp)) re = new RegExp(re);
    if (!re.global) return reExec(re, this);
    re.lastIndex = 0;
    const out = [];
    for (const m of allMatches(re, this)) out.push(m[0]);
    return out.length === 0 ? null : out;
  },
  matchAll(re) {
    return allMatches(re, this)[Symbol.iterator]();
  },
  replace(pat, rep) {
    return replaceModel(this, pat, rep, false);
  },
  replaceAll(pat, rep) {
    return replaceModel(this, pat, rep, true);
  },
};
S.trimLeft = S.trimStart;
S.trimRight = S.trimEnd;
for (const k of Object.keys(S)) Object.defineProperty(SymStr.prototype, k, { value: S[k], configurable: true, writable: true });

function pad(s, n, fill, start) {
  n = cidx(n, 0);
  const cs = csOf(s);
  const f = csOf(toStr(fill));
  if (cs.length >= n || f.length === 0) return s;
  const p = [];
  while (p.length < n - cs.length) p.push(f[p.length % f.length]);
  return mkStr(start ? p.concat(cs) : cs.concat(p));
}

// one-unit case mappings as [lo, hi, step, delta] runs
const caseRunSets = {};
function caseRuns(fn) {
  if (caseRunSets[fn]) return caseRunSets[fn];
  const m = [];
  for (let c = 128; c <= 0xffff; c++) {
    if (c === 0x3a3 || (c >= 0xd800 && c <= 0xdfff)) continue;
    const t = String.fromCharCode(c)[fn]();
    if (t.length === 1 && t.charCodeAt(0) !== c) m.push([c, t.charCodeAt(0) - c]);
  }
  const runs = [];
  for (const [c, d] of m) {
    const r = runs[runs.length - 1];
    if (r && r[3] === d && r[2] !== 2 && c === r[1] + 1) {
      r[1] = c;
      r[2] = 1;
    } else if (r && r[3] === d && r[2] !== 1 && c === r[1] + 2) {
      r[1] = c;
      r[2] = 2;
    } else runs.push([c, c, 0, d]);
  }
  return (caseRunSets[fn] = runs);
}
function caseTerm(c, fn) {
  let d = T.int(0);
  const rg = T.rangeOf(c);
  for (const [lo, hi, step, delta] of caseRuns(fn)) {
    if (rg && (hi < rg[0] || lo > rg[1])) continue;
    let f = inSet(c, [[lo, hi]]);
    if (step === 2) f = T.and(f, T.eq(T.mod(c, 2), T.int(lo % 2)));
    d = T.ite(f, T.int(delta), d);
  }
  return T.add(c, d);
}
const caseSets = {};
function caseChanging(fn) {
  if (caseSets[fn]) return caseSets[fn];
  const rs = [];
  for (let c = 128; c <= 0xffff; c++) {
    if (c === 0x3a3) rs.push([c, c]);
    else if (String.fromCharCode(c)[fn]() !== String.fromCharCode(c)) rs.push([c, c]);
  }
  const { normRanges } = require("./regex");
  return (caseSets[fn] = normRanges(rs.concat([[0xd800, 0xdfff]])));
}
const caseOddSets = {};
function caseOdd(fn) {
  if (caseOddSets[fn]) return caseOddSets[fn];
  const rs = [[0xd800, 0xdfff], [0x3a3, 0x3a3]];
  for (let c = 128; c <= 0xffff; c++) if ((c < 0xd800 || c > 0xdfff) && String.fromCharCode(c)[fn]().length !== 1) rs.push([c, c]);
  const { normRanges } = require("./regex");
  return (caseOddSets[fn] = normRanges(rs));
}
function mapCase(s, fn) {
  const up = fn === "toUpperCase";
  const cs = csOf(s);
  const out = [];
  for (const c of cs) {
    if (typeof c === "number") {
      if (c < 128) out.push(String.fromCharCode(c)[fn]().charCodeAt(0));
      else out.push(...codeUnits(String.fromCharCode(c)[fn]()));
      continue;
    }
    const r = T.rangeOf(c);
    const ascii = (r && r[1] < 128) || decide(T.lt(c, T.int(128)));
    if (ascii) {
      const f = inSet(c, up ? [[97, 122]] : [[65, 90]]);
      out.push(T.ite(f, T.add(c, T.int(up ? -32 : 32)), c));
    } else if (!decide(inSet(c, caseChanging(fn)))) {
      out.push(c);
    } else {
      const odd = caseOdd(fn);
      if (!decide(inSet(c, odd))) {
        out.push(caseTerm(c, fn));
        continue;
      }
      const v = cx.pin(c, "case mapping of a non-ASCII character");
      out.push(...codeUnits(String.fromCharCode(v)[fn]()));
    }
  }
  return mkStr(out);
}
// Unicode normal forms: below U+0300 nothing combines, so units that are stable
// on their own stay; the others are pinned.
const stableSets = {};
function normalizeForm(s, form) {
  if (!["NFC", "NFD", "NFKC", "NFKD"].includes(form)) throw new RangeError("The normalization form should be one of NFC, NFD, NFKC, NFKD.");
  let rs = stableSets[form];
  if (rs === undefined) {
    rs = [];
    for (let c = 0; c < 0x300; c++) if (String.fromCharCode(c).normalize(form) === String.fromCharCode(c)) rs.push([c, c]);
    rs = stableSets[form] = require("./regex").normRanges(rs);
    const ch = [];
    for (let c = 0; c < 0x10000; c++) if (String.fromCharCode(c).normalize(form) !== String.fromCharCode(c)) ch.push([c, c]);
    stableSets[form + "x"] = require("./regex").normRanges(ch);
  }
  const changing = stableSets[form + "x"];
  let cs = csOf(s).map((c) => (typeof c === "number" || decide(inSet(c, rs)) ? c : (decide(inSet(c, changing)), cx.pin(c, "normal form of a character"))));
  for (let i = cs.length - 1; i > 0; i--) if (typeof cs[i] === "number" && cs[i] >= 0x300 && typeof cs[i - 1] !== "number") cs[i - 1] = cx.pin(cs[i - 1], "normal form of a character");
  const out = [];
  for (let i = 0; i < cs.length; ) {
    if (typeof cs[i] !== "number") {
      out.push(cs[i++]);
      continue;
    }
    let j = i;
    while (j < cs.length && typeof cs[j] === "number") j++;
    out.push(...codeUnits(String.fromCharCode(...cs.slice(i, j)).normalize(form)));
    i = j;
  }
  return mkStr(out);
}
function concat(a, b) {
  if (typeof a === "string" && typeof b === "string") return a + b;
  return mkStr(csOf(a).concat(csOf(b)));
}

// ------- regular expressions
function matcher(re, cs) {
  try {
    return new Matcher(re, cs, decide);
  } catch (e) {
    if (e instanceof Unsupported) {
      cx.note("regex outside the fragment: " + re + " (" + e.message + ")");
      return null;
    }
    throw e;
  }
}
function capStr(cs, caps, g) {
  const a = caps[2 * g];
  const b = caps[2 * g + 1];
  return a < 0 || b < 0 ? undefined : mkStr(cs.slice(a, b));
}
function matchObj(re, m, s, cs, caps) {
  const out = [];
  for (let g = 0; g <= m.ngroups; g++) out.push(capStr(cs, caps, g));
  out.index = caps[0];
  out.input = s;
  out.groups = undefined;
  const names = Object.keys(m.names);
  if (names.length) {
    out.groups = Object.create(null);
    for (const n of names) {
      const ids = [].concat(m.names[n]);
      out.groups[n] = undefined;
      for (const id of ids) if (out[id] !== undefined) out.groups[n] = out[id];
    }
  }
  return out;
}
function reExec(re, s) {
  s = lift(toStr(s));
  if (typeof s === "string") return re.exec(s);
  const cs = s.cs;
  const m = matcher(re, cs);
  if (m === null) return re.exec(concretize(s, "regex"));
  const g = re.global || re.sticky;
  const from = g ? re.lastIndex : 0;
  const caps = from > cs.length ? null : m.exec(from, re.sticky);
  if (caps === null) {
    if (g) re.lastIndex = 0;
    return null;
  }
  if (g) re.lastIndex = caps[1];
  return matchObj(re, m, s, cs, caps);
}
function reTest(re, s) {
  s = lift(toStr(s));
  if (typeof s === "string") return re.test(s);
  if (re.global || re.sticky) return reExec(re, s) !== null;
  const m = matcher(re, s.cs);
  if (m === null) return re.test(concretize(s, "regex"));
  return mkBool(m.anyMatch(0, false));
}
function allMatches(re, s) {
  s = lift(toStr(s));
  const cs = csOf(s);
  const out = [];
  const m = matcher(re, cs);
  if (m === null) return [...String(concretize(s, "regex")).matchAll(re)];
  let p = 0;
  while (p <= cs.length) {
    const caps = m.exec(p, re.sticky);
    if (caps === null) break;
    out.push(matchObj(re, m, s, cs, caps));
    p = caps[1] === caps[0] ? caps[1] + (re.unicode && caps[1] < cs.length ? cpWidth(cs, caps[1]) : 1) : caps[1];
  }
  return out;
}
function expandReplacement(rep, m, s, cs) {
  // rep native string with $ patterns
  rep = lift(rep);
  if (typeof rep !== "string") {
    // symbolic replacement: exact only when it holds no "$"
    if (decide(T.or(...rep.cs.map((c) => cEq(c, 36))))) rep = concretize(rep, "replacement pattern with $");
    else return rep.cs;
  }
  let out = [];
  for (let i = 0; i < rep.length; i++) {
    if (rep[i] === "$" && i + 1 < rep.length) {
      const d = rep[i + 1];
      if (d === "$") {
        out.push(36);
        i++;
        continue;
      }
      if (d === "&") {
        out = out.concat(csOf(m[0]));
        i++;
        continue;
      }
      if (d === "`") {
        out = out.concat(cs.slice(0, m.index));
        i++;
        continue;
      }
      if (d === "'") {
        out = out.concat(cs.slice(m.index + m[0].length));
        i++;
        continue;
      }
      const dm = /^\d\d?/.exec(rep.slice(i + 1));
      if (dm) {
        let num = dm[0];
        if (+num >= m.length && num.length === 2) num = num[0];
        if (+num >= 1 && +num < m.length) {
          if (m[+num] !== undefined) out = out.concat(csOf(m[+num]));
          i += num.length;
          continue;
        }
      }
      const nm = /^<([^>]*)>/.exec(rep.slice(i + 1));
      if (nm && m.groups) {
        const v = m.groups[nm[1]];
        if (v !== undefined) out = out.concat(csOf(v));
        i += nm[0].length;
        continue;
      }
    }
    out.push(rep.charCodeAt(i));
  }
  return out;
}
function replaceModel(s, pat, rep, all) {
  s = lift(s);
  const cs = csOf(s);
  let ms;
  if (pat instanceof RegExp) {
    if (pat.global) {
      pat.lastIndex = 0;
      ms = allMatches(pat, s);
    } else {
      const m = reExec(pat, s);
      ms = m === null ? [] : [m];
    }
  } else {
    pat = toStr(pat);
    const n = pat.length;
    ms = [];
    const ps = csOf(pat);
    for (let i = 0; i + n <= cs.length; ) {
      if (decide(csEq(cs.slice(i, i + n), ps))) {
        const m = [mkStr(cs.slice(i, i + n))];
        m.index = i;
        ms.push(m);
        if (!all) break;
        i += Math.max(1, n);
      } else i++;
    }
  }
  if (ms.length === 0) return s;
  let out = [];
  let p = 0;
  for (const m of ms) {
    out = out.concat(cs.slice(p, m.index));
    if (typeof rep === "function") {
      const args = [...m, m.index, s];
      if (m.groups) args.push(m.groups);
      out = out.concat(csOf(toStr(rep(...args))));
    } else out = out.concat(expandReplacement(isStrLike(rep) ? rep : toStr(rep), m, s, cs));
    p = m.index + m[0].length;
  }
  out = out.concat(cs.slice(p));
  return mkStr(out);
}

// ------- numbers
function numToStr(n) {
  const t = n.t;
  if (t.sort === "Real") {
    if (t.op === "to_real") return numToStr(new SymNum(t.args[0]));
    return realToStr(n);
  }
  const memo = cx.digits.get(t);
  if (memo !== undefined) return memo;
  const negative = decide(T.lt(t, T.int(0)));
  const a = negative ? T.neg(t) : t;
  // shared division by ten of terms like 10*x+y keeps digits linear
  let k = 1;
  while (k < 16 && !decide(T.lt(a, T.int(10 ** k)))) k++;
  const ds = [];
  const r = T.rangeOf(a);
  if (k === 1) ds.push(T.add(a, T.int(48)));
  else {
    const vs = [];
    for (let i = 0; i < k; i++) vs.push(cx.fresh("dig", i === k - 1 ? 1 : 0, 9));
    let sum = T.int(0);
    for (let i = 0; i < k; i++) sum = T.add(sum, T.mul(T.int(10 ** i), vs[i]));
    cx.assertTerm(T.eq(sum, a), true);
    for (let i = k - 1; i >= 0; i--) ds.push(T.add(vs[i], T.int(48)));
  }
  const s = mkStr(negative ? [45, ...ds] : ds);
  cx.digits.set(t, s);
  cx.digitRuns.set(runKey(ds), a);
  return s;
}
// a run of digit units that was rendered from a known number
const runKey = (ds) => ds.map((d) => (typeof d === "number" ? "#" + d : d.op === "int" ? "#" + d.val : d.id)).join();
// decimal rendering of a Real known to be an integer multiple of 10^-p
function realToStr(n) {
  for (let p = 0; p <= 9; p++) {
    const scaled = T.mul(T.rat(10n ** BigInt(p), 1n), n.t);
    const fl = T.floor(scaled);
    if (decide(T.eq(T.toReal(fl), scaled))) {
      const neg = decide(T.lt(fl, T.int(0)));
      const a = neg ? T.neg(fl) : fl;
      if (p >= 7 && decide(T.lt(a, T.int(10 ** (p - 6))))) break; // exponent form
      const ip = cx.fresh("ip", 0, 1e9);
      const fp = cx.fresh("fp", 0, 10 ** p - 1);
      cx.assertTerm(T.eq(T.add(T.mul(T.int(10 ** p), ip), fp), a), true);
      const is = numToStr(new SymNum(ip));
      if (p === 0) return neg ? concat("-", is) : is;
      let fs = [];
      const vs = [];
      for (let i = 0; i < p; i++) vs.push(cx.fresh("fd", 0, 9));
      let sum = T.int(0);
      for (let i = 0; i < p; i++) sum = T.add(sum, T.mul(T.int(10 ** (p - 1 - i)), vs[i]));
      cx.assertTerm(T.eq(sum, fp), true);
      fs = vs.map((v) => T.add(v, T.int(48)));
      cx.digitRuns.set(runKey([...csOf(is), ...fs]), a);
      return mkStr([...(neg ? [45] : []), ...csOf(is), 46, ...fs]);
    }
  }
  return String(concretize(n, "decimal rendering of a real"));
}
function toFixedModel(n, d) {
  d = cidx(d, 0);
  const sc = T.mul(T.rat(10n ** BigInt(d), 1n), T.toReal(n.t));
  const neg = decide(T.lt(sc, T.rat(0, 1)));
  const a = neg ? T.neg(sc) : sc;
  const k = T.floor(T.add(a, T.rat(1, 2)));
  let s = toStr(mkNum(k));
  let cs = csOf(s);
  while (cs.length <= d) cs = [48, ...cs];
  if (d > 0) cs = [...cs.slice(0, cs.length - d), 46, ...cs.slice(cs.length - d)];
  return mkStr(neg ? [45, ...cs] : cs);
}
const digitVal = (c) => (typeof c === "number" ? T.int(c - 48) : T.sub(c, T.int(48)));
// scan decimal digits from i (forking); returns end index
function scanDigits(cs, i) {
  while (i < cs.length && decide(inSet(cs[i], DIGIT))) i++;
  return i;
}
function digitsTerm(cs, a, b) {
  const known = cx.digitRuns.get(runKey(cs.slice(a, b)));
  if (known !== undefined) return known;
  let t = T.int(0);
  if (b - a > 15) {
    // leave the safe-integer range to concrete evaluation
    const s = concretize(mkStr(cs.slice(a, b)), "more than 15 digits");
    const v = Number(s);
    return Number.isSafeInteger(v) ? T.int(v) : T.realOfNumber(v);
  }
  for (let i = a; i < b; i++) t = T.add(T.mul(T.int(10), t), digitVal(cs[i]));
  return t;
}
// StrDecimalLiteral prefix parse; returns {num, end} or null
function scanDecimal(cs, i) {
  let neg = false;
  if (i < cs.length && decide(cEq(cs[i], 45))) {
    neg = true;
    i++;
  } else if (i < cs.length && decide(cEq(cs[i], 43))) i++;
  const inf = codeUnits("Infinity");
  if (i + 8 <= cs.length && decide(csEq(cs.slice(i, i + 8), inf))) return { num: neg ? -Infinity : Infinity, end: i + 8 };
  const a = i;
  i = scanDigits(cs, i);
  const ip = i - a;
  let fp = 0;
  let f0 = i;
  if (i < cs.length && decide(cEq(cs[i], 46))) {
    f0 = i + 1;
    const e = scanDigits(cs, f0);
    fp = e - f0;
    if (ip > 0 || fp > 0) i = e;
  }
  if (ip === 0 && fp === 0) return null;
  let exp = 0;
  if (i < cs.length && decide(T.or(cEq(cs[i], 101), cEq(cs[i], 69)))) {
    let j = i + 1;
    let eneg = false;
    if (j < cs.length && decide(cEq(cs[j], 45))) {
      eneg = true;
      j++;
    } else if (j < cs.length && decide(cEq(cs[j], 43))) j++;
    const e = scanDigits(cs, j);
    if (e > j) {
      exp = Number(concretize(mkStr(cs.slice(j, e)), "exponent"));
      if (eneg) exp = -exp;
      i = e;
    }
  }
  if (exp !== 0) {
    const s = concretize(mkStr(cs.slice(a, i)), "exponent form");
    const v = Number(s);
    return { num: neg ? -v : v, end: i };
  }
  let t = digitsTerm(cs, a, a + ip);
  if (fp > 0) {
    const f = digitsTerm(cs, f0, f0 + fp);
    if (fp > 15 || t.sort === "Real") {
      const v = Number(concretize(mkStr(cs.slice(a, i)), "long decimal"));
      return { num: neg ? -v : v, end: i };
    }
    const total = cx.digitRuns.get(runKey([...cs.slice(a, a + ip), ...cs.slice(f0, f0 + fp)])) ?? T.add(T.mul(T.int(10 ** fp), t), f);
    t = T.mul(T.rat(1, 10n ** BigInt(fp)), T.toReal(total));
  }
  if (neg && decide(T.eq(t, t.sort === "Real" ? T.rat(0, 1) : T.int(0)))) return { num: -0, end: i };
  return { num: mkNum(neg ? T.neg(t) : t), end: i };
}
function strToNumber(s) {
  s = S.trim.call(s);
  const cs = csOf(s);
  if (cs.length === 0) return 0;
  if (cs.length > 2 && decide(cEq(cs[0], 48)) && decide(T.or(...[120, 88, 111, 79, 98, 66].map((c) => cEq(cs[1], c))))) {
    return Number(concretize(s, "prefixed number literal"));
  }
  const r = scanDecimal(cs, 0);
  if (r === null || r.end !== cs.length) return NaN;
  return r.num;
}
function parseFloatModel(s) {
  s = toStr(s);
  if (typeof s === "string") return parseFloat(s);
  const cs = csOf(S.trimStart.call(s));
  const r = scanDecimal(cs, 0);
  return r === null ? NaN : r.num;
}
function parseIntModel(s, radix) {
  // whole numbers print as their digits
  if (s instanceof SymNum && s.t.sort === "Int" && (radix === undefined || radix === 10)) return s;
  s = toStr(s);
  if (radix instanceof SymNum) radix = concretize(radix, "radix");
  if (typeof s === "string") return parseInt(s, radix);
  const cs = csOf(S.trimStart.call(s));
  let i = 0;
  let neg = false;
  if (i < cs.length && decide(cEq(cs[i], 45))) {
    neg = true;
    i++;
  } else if (i < cs.length && decide(cEq(cs[i], 43))) i++;
  const rdx = radix === undefined || radix === 0 ? 10 : Number(radix);
  if ((radix === undefined || radix === 0 || rdx === 16) && i + 1 < cs.length && decide(cEq(cs[i], 48)) && decide(T.or(cEq(cs[i + 1], 120), cEq(cs[i + 1], 88)))) {
    return parseInt(concretize(mkStr(cs), "hex prefix"), radix);
  }
  if (rdx === 16) {
    let j = i;
    let t = T.int(0);
    while (j < cs.length && decide(inSet(cs[j], [[48, 57], [65, 70], [97, 102]]))) {
      const c = ct(cs[j]);
      const v = T.ite(T.le(c, T.int(57)), T.sub(c, T.int(48)), T.ite(T.le(c, T.int(70)), T.sub(c, T.int(55)), T.sub(c, T.int(87))));
      t = T.add(T.mul(T.int(16), t), v);
      if (++j - i > 12) break;
    }
    if (j === i) return NaN;
    return mkNum(neg ? T.neg(t) : t);
  }
  if (rdx !== 10) return parseInt(concretize(mkStr(cs), "radix"), radix);
  const e = scanDigits(cs, i);
  if (e === i) return NaN;
  const t = digitsTerm(cs, i, e);
  if (neg && decide(T.eq(t, t.sort === "Real" ? T.rat(0, 1) : T.int(0)))) return -0;
  return mkNum(neg ? T.neg(t) : t);
}

// ------- conversions
function toStr(x) {
  if (typeof x === "string") return lift(x);
  if (x instanceof SymStr) return x;
  if (x instanceof SymNum) return numToStr(x);
  if (x instanceof SymBool) return decide(x.t) ? "true" : "false";
  if (x !== null && (typeof x === "object" || typeof x === "function")) return toStr(toPrim(x, "string"));
  return String(x);
}
function toPrim(x, hint) {
  if (x === null || (typeof x !== "object" && typeof x !== "function") || isSym(x)) return x;
  const ex = x[Symbol.toPrimitive];
  if (ex != null) return ex.call(x, hint);
  if (Array.isArray(x) && x.toString === Array.prototype.toString) return A.join.call(x, ",");
  for (const m of hint === "string" ? ["toString", "valueOf"] : ["valueOf", "toString"]) {
    const f = x[m];
    if (typeof f === "function") {
      if (f === Error.prototype.toString) {
        const msg = toStr(x.message ?? "");
        const name = toStr(x.name ?? "Error");
        if (name === "") return msg;
        if (msg === "") return name;
        return concat(concat(name, ": "), msg);
      }
      const r = f.call(x);
      if (r === null || (typeof r !== "object" && typeof r !== "function") || isSym(r)) return lift(r);
    }
  }
  throw new TypeError("Cannot convert object to primitive value");
}
function toNumber(x) {
  if (x instanceof SymNum) return x;
  if (x instanceof SymStr) return strToNumber(x);
  if (x instanceof SymBool) return mkNum(T.ite(x.t, T.int(1), T.int(0)));
  if (typeof x === "string") {
    const l = lift(x);
    return typeof l === "string" ? Number(l) : strToNumber(l);
  }
  if (x !== null && (typeof x === "object" || typeof x === "function")) return toNumber(toPrim(x, "number"));
  return Number(x);
}
const numTerm = (x) => {
  if (x instanceof SymNum) return x.t;
  if (Number.isInteger(x) && Math.abs(x) <= Number.MAX_SAFE_INTEGER) return T.int(x);
  return T.realOfNumber(x);
};
function truthy(x) {
  if (x instanceof SymBool) return decide(x.t);
  if (x instanceof SymNum) return !decide(T.eq(x.t, x.t.sort === "Int" ? T.int(0) : T.rat(0, 1)));
  if (x instanceof SymStr) return x.cs.length > 0;
  if (typeof x === "string" && hasMarker(x)) return lift(x).length > 0;
  return !!x;
}
// formula of truthiness, no forking
function truthTerm(x) {
  if (x instanceof SymBool) return x.t;
  if (x instanceof SymNum) return T.not(T.eq(x.t, x.t.sort === "Int" ? T.int(0) : T.rat(0, 1)));
  if (x instanceof SymStr) return T.TRUE;
  if (typeof x === "string") return lift(x).length > 0 ? T.TRUE : T.FALSE;
  return x ? T.TRUE : T.FALSE;
}
function typeOf(x) {
  if (x instanceof SymStr) return "string";
  if (x instanceof SymNum) return "number";
  if (x instanceof SymBool) return "boolean";
  return typeof x;
}

// strict equality as a formula
function eqTerm(a, b) {
  const sa = isSym(a);
  const sb = isSym(b);
  if (!sa && !sb) {
    if (typeof a === "string" && typeof b === "string" && (hasMarker(a) || hasMarker(b))) return csEq(csOf(a), csOf(b));
    return a === b ? T.TRUE : T.FALSE;
  }
  const ta = typeOf(a);
  if (ta !== typeOf(b)) return T.FALSE;
  if (ta === "string") return csEq(csOf(a), csOf(b));
  if (ta === "number") {
    if (!sa && !Number.isFinite(a)) return T.FALSE;
    if (!sb && !Number.isFinite(b)) return T.FALSE;
    return T.eq(numTerm(a), numTerm(b));
  }
  if (ta === "boolean") return T.eq(truthTerm(a), truthTerm(b));
  return T.FALSE;
}
function looseEqTerm(a, b) {
  if (!isSym(a) && !isSym(b)) {
    if (typeof a === "string" && typeof b === "string") return eqTerm(a, b);
    return a == b ? T.TRUE : T.FALSE;
  }
  if (a == null || b == null) return T.FALSE;
  const ta = typeOf(a);
  const tb = typeOf(b);
  if (ta === tb) return eqTerm(a, b);
  if (ta === "object" || ta === "function") return looseEqTerm(toPrim(a, "default"), b);
  if (tb === "object" || tb === "function") return looseEqTerm(a, toPrim(b, "default"));
  return eqTerm(toNumber(a), toNumber(b));
}
function arith(op, a, b) {
  a = toNumber(a);
  b = toNumber(b);
  const sa = a instanceof SymNum;
  const sb = b instanceof SymNum;
  if (!sa && !sb) {
    switch (op) {
      case "+": return a + b;
      case "-": return a - b;
      case "*": return a * b;
      case "/": return a / b;
      case "%": return a % b;
      case "**": return a ** b;
      case "&": return a & b;
      case "|": return a | b;
      case "^": return a ^ b;
      case "<<": return a << b;
      case ">>": return a >> b;
      case ">>>": return a >>> b;
    }
  }
  if ((!sa && Number.isNaN(a)) || (!sb && Number.isNaN(b))) return "&|^<<>>>".includes(op) ? arith(op, sa ? a : 0, sb ? b : 0) : NaN;
  if ((!sa && !Number.isFinite(a)) || (!sb && !Number.isFinite(b))) {
    if (op === "+") return sa ? b : a;
    if (op === "-") return sa ? -b : a;
    if (op === "/" && !sb === true) return 0;
    return arith(op, sa ? concretize(a, "arith with infinity") : a, sb ? concretize(b, "arith with infinity") : b);
  }
  const x = numTerm(a);
  const y = numTerm(b);
  switch (op) {
    case "+": return mkNum(T.add(x, y));
    case "-": return mkNum(T.sub(x, y));
    case "*":
      if (!T.isConst(x) && !T.isConst(y)) {
        const c = concretize(a, "product of two symbolic numbers");
        return arith("*", c, b);
      }
      return mkNum(T.mul(x, y));
    case "/": {
      if (sb) {
        const c = concretize(b, "symbolic divisor");
        return arith("/", a, c);
      }
      if (b === 0) return decide(T.eq(x, x.sort === "Int" ? T.int(0) : T.rat(0, 1))) ? NaN : decide(T.lt(x, T.int(0))) ? -Infinity : Infinity;
      const r = T.ratOf(y);
      const q = T.mul(T.rat(r.d, r.n), T.toReal(x));
      return simplifyReal(q);
    }
    case "%": {
      if (sb || !Number.isInteger(b) || b === 0) return arith("%", concretize(a, "symbolic modulus"), sb ? concretize(b, "symbolic modulus") : b);
      const n = Math.abs(b);
      if (x.sort === "Real") {
        const q = T.mul(T.rat(1, n), x);
        if (decide(T.le(T.rat(0, 1), x))) return mkNum(T.sub(x, T.mul(T.rat(n, 1), T.toReal(T.floor(q)))));
        const nx = T.neg(x);
        return mkNum(T.neg(T.sub(nx, T.mul(T.rat(n, 1), T.toReal(T.floor(T.mul(T.rat(1, n), nx)))))));
      }
      const r = T.rangeOf(x);
      if (r && r[0] >= 0) return mkNum(T.mod(x, n));
      if (decide(T.le(T.int(0), x))) return mkNum(T.mod(x, n));
      return mkNum(T.neg(T.mod(T.neg(x), n)));
    }
    case "|":
      if (!sb && b === 0) return truncModel(a);
      if (!sa && a === 0) return truncModel(b);
      break;
    case "&":
      if (!sb && b > 0 && ((b + 1) & b) === 0 && x.sort === "Int" && rangeNonNeg(x)) return mkNum(T.mod(x, b + 1));
      break;
    case ">>":
    case ">>>":
      if (!sb && b >= 0 && b < 31 && x.sort === "Int" && rangeNonNeg(x)) return mkNum(T.div(x, 2 ** b));
      break;
    case "<<":
      if (!sb && b >= 0 && b < 31 && x.sort === "Int" && rangeNonNeg(x) && decide(T.lt(x, T.int(2 ** (31 - b))))) return mkNum(T.mul(T.int(2 ** b), x));
      break;
    case "**":
      if (!sb && b === 2) return arith("*", a, a);
      break;
  }
  return arith(op, sa ? concretize(a, "operator " + op) : a, sb ? concretize(b, "operator " + op) : b);
}
const rangeNonNeg = (x) => {
  const r = T.rangeOf(x);
  if (r != null && r[0] >= 0 && r[1] < 2 ** 31) return true;
  return decide(T.and(T.le(T.int(0), x), T.lt(x, T.int(2 ** 31))));
};
// a Real that is syntactically an integer combination stays Real; comparisons coerce
function simplifyReal(q) {
  if (q.op === "*" && q.args[0].op === "rat" && q.args[0].val.d === 1n && q.args[1].op === "to_real")
    return mkNum(T.mul(T.int(Number(q.args[0].val.n)), q.args[1].args[0]));
  if (q.op === "to_real") return mkNum(q.args[0]);
  return mkNum(q);
}
function truncModel(a) {
  if (!(a instanceof SymNum)) return Math.trunc(a);
  const t = a.t;
  if (t.sort === "Int") return a;
  if (decide(T.le(T.rat(0, 1), t))) return mkNum(T.floor(t));
  return mkNum(T.neg(T.floor(T.neg(t))));
}
function compare(op, a, b) {
  if (!isSym(a) && !isSym(b) && !(typeof a === "string" && hasMarker(a)) && !(typeof b === "string" && hasMarker(b))) {
    switch (op) {
      case "<": return a < b;
      case "<=": return a <= b;
      case ">": return a > b;
      case ">=": return a >= b;
    }
  }
  a = toPrim(a, "number");
  b = toPrim(b, "number");
  if (isStrLike(a) && isStrLike(b)) {
    const x = csOf(a);
    const y = csOf(b);
    switch (op) {
      case "<": return mkBool(csLt(x, y));
      case ">": return mkBool(csLt(y, x));
      case "<=": return mkBool(T.not(csLt(y, x)));
      case ">=": return mkBool(T.not(csLt(x, y)));
    }
  }
  a = toNumber(a);
  b = toNumber(b);
  const sa = a instanceof SymNum;
  const sb = b instanceof SymNum;
  const nat = (v) => (v === Infinity || v === -Infinity || Number.isNaN(v));
  if ((!sa && nat(a)) || (!sb && nat(b)) || (!sa && !sb)) {
    const x = sa ? 0 : a;
    const y = sb ? 0 : b;
    switch (op) {
      case "<": return x < y;
      case "<=": return x <= y;
      case ">": return x > y;
      case ">=": return x >= y;
    }
  }
  const x = numTerm(a);
  const y = numTerm(b);
  switch (op) {
    case "<": return mkBool(T.lt(x, y));
    case "<=": return mkBool(T.le(x, y));
    case ">": return mkBool(T.gt(x, y));
    case ">=": return mkBool(T.ge(x, y));
  }
}

// pick concrete values for a symbolic one, marking the path as narrowed unless
// every value has been enumerated
function concretize(x, why) {
  if (x instanceof SymStr) {
    const cs = x.cs.map((c) => (typeof c === "number" ? c : cx.pin(c, why)));
    return mkStr(cs);
  }
  if (x instanceof SymNum) {
    if (x.t.sort === "Real") return cx.pinReal(x.t, why);
    return cx.pin(x.t, why);
  }
  if (x instanceof SymBool) return decide(x.t);
  if (typeof x === "string") return concretizeIf(lift(x), why);
  return x;
}
const concretizeIf = (x, why) => (isSym(x) ? concretize(x, why) : x);

// ------- arrays
const sameTerm = (a, b) => {
  if (typeof a === "number" && typeof b === "number" && Number.isNaN(a) && Number.isNaN(b)) return T.TRUE;
  return eqTerm(a, b);
};
const A = {
  join(sep = ",") {
    const sp = toStr(sep);
    let out = "";
    for (let i = 0; i < this.length; i++) {
      if (i > 0) out = concat(out, sp);
      const e = this[i];
      if (e != null) out = concat(out, toStr(e));
    }
    return out;
  },
  toString() {
    return A.join.call(this, ",");
  },
  includes(x, from) {
    let start = from === undefined ? 0 : cidx(from, 0);
    if (start < 0) start = Math.max(0, this.length + start);
    return mkBool(T.or(...Array.prototype.slice.call(this, start).map((e) => sameTerm(e, x))));
  },
  indexOf(x, from) {
    let start = from === undefined ? 0 : cidx(from, 0);
    if (start < 0) start = Math.max(0, this.length + start);
    for (let i = start; i < this.length; i++) if (i in this && decide(eqTerm(this[i], x))) return i;
    return -1;
  },
  lastIndexOf(x) {
    for (let i = this.length - 1; i >= 0; i--) if (i in this && decide(eqTerm(this[i], x))) return i;
    return -1;
  },
  filter(f, th) {
    const out = [];
    for (let i = 0; i < this.length; i++) {
      if (!(i in this)) continue;
      const e = this[i];
      if (truthy(f.call(th, e, i, this))) out.push(e);
    }
    return out;
  },
  find(f, th) {
    for (let i = 0; i < this.length; i++) {
      const e = this[i];
      if (truthy(f.call(th, e, i, this))) return e;
    }
    return undefined;
  },
  findIndex(f, th) {
    for (let i = 0; i < this.length; i++) if (truthy(f.call(th, this[i], i, this))) return i;
    return -1;
  },
  findLast(f, th) {
    for (let i = this.length - 1; i >= 0; i--) {
      const e = this[i];
      if (truthy(f.call(th, e, i, this))) return e;
    }
    return undefined;
  },
  findLastIndex(f, th) {
    for (let i = this.length - 1; i >= 0; i--) if (truthy(f.call(th, this[i], i, this))) return i;
    return -1;
  },
  some(f, th) {
    for (let i = 0; i < this.length; i++) if (i in this && truthy(f.call(th, this[i], i, this))) return true;
    return false;
  },
  every(f, th) {
    for (let i = 0; i < this.length; i++) if (i in this && !truthy(f.call(th, this[i], i, this))) return false;
    return true;
  },
  sort(cmp) {
    const c = cmp ?? ((a, b) => {
      if (a === undefined) return b === undefined ? 0 : 1;
      if (b === undefined) return -1;
      const x = toStr(a);
      const y = toStr(b);
      return truthy(compare("<", x, y)) ? -1 : truthy(compare("<", y, x)) ? 1 : 0;
    });
    // stable insertion sort, forking only on comparator results
    for (let i = 1; i < this.length; i++) {
      const v = this[i];
      let j = i - 1;
      while (j >= 0 && truthy(compare(">", c(this[j], v), 0))) {
        this[j + 1] = this[j];
        j--;
      }
      this[j + 1] = v;
    }
    return this;
  },
  toSorted(cmp) {
    return A.sort.call([...this], cmp);
  },
  at(i) {
    i = cidx(i, 0);
    return this[i < 0 ? this.length + i : i];
  },
  with(i, v) {
    const c = [...this];
    c[cidx(i, 0)] = v;
    return c;
  },
};

// ------- keyed collections aware of symbolic keys
class ModelSet extends Set {
  has(x) {
    x = lift(x);
    if (!isSym(x) && !this._sym) return super.has(x);
    const fs = [];
    for (const e of super.values()) fs.push(sameTerm(e, x));
    return mkBool(T.or(...fs));
  }
  add(x) {
    x = lift(x);
    if (!isSym(x) && !this._sym) {
      super.add(x);
      return this;
    }
    if (!truthy(this.has(x))) {
      if (isSym(x)) Object.defineProperty(this, "_sym", { value: true, writable: true, configurable: true, enumerable: false });
      super.add(x);
    }
    return this;
  }
  delete(x) {
    x = lift(x);
    if (!isSym(x) && !this._sym) return super.delete(x);
    for (const e of super.values()) if (decide(sameTerm(e, x))) return super.delete(e);
    return false;
  }
}
class ModelMap extends Map {
  _find(k) {
    for (const e of super.keys()) if (decide(sameTerm(e, k))) return [e];
    return null;
  }
  has(k) {
    k = lift(k);
    if (!isSym(k) && !this._sym) return super.has(k);
    const fs = [];
    for (const e of super.keys()) fs.push(sameTerm(e, k));
    return mkBool(T.or(...fs));
  }
  get(k) {
    k = lift(k);
    if (!isSym(k) && !this._sym) return super.get(k);
    const f = this._find(k);
    return f === null ? undefined : super.get(f[0]);
  }
  set(k, v) {
    k = lift(k);
    if (!isSym(k) && !this._sym) {
      super.set(k, v);
      return this;
    }
    const f = this._find(k);
    if (f !== null) super.set(f[0], v);
    else {
      if (isSym(k)) Object.defineProperty(this, "_sym", { value: true, writable: true, configurable: true, enumerable: false });
      super.set(k, v);
    }
    return this;
  }
  delete(k) {
    k = lift(k);
    if (!isSym(k) && !this._sym) return super.delete(k);
    const f = this._find(k);
    return f === null ? false : super.delete(f[0]);
  }
}

// ------- property access with symbolic keys
function allKeys(o) {
  const ks = new Set();
  for (let p = o; p != null; p = Object.getPrototypeOf(p)) for (const k of Object.getOwnPropertyNames(p)) ks.add(k);
  if (o !== null && typeof o === "object" && "__proto__" in o) ks.add("__proto__");
  return ks;
}
const hasMarkerKeys = (o) => {
  if (cx.markers.length === 0 || o === null || typeof o !== "object") return false;
  for (const k in o) if (hasMarker(k)) return true;
  return false;
};
function getIdx(o, k) {
  if (o instanceof SymStr) {
    if (typeof k === "number") return k >= 0 && k < o.cs.length ? mkStr([o.cs[k]]) : undefined;
    if (k instanceof SymNum) return getIdx(o, concretize(k, "string index"));
    return o[k];
  }
  if (typeof o === "string" && hasMarker(o)) return getIdx(lift(o), k);
  if (k instanceof SymNum) {
    if (Array.isArray(o)) {
      for (let i = 0; i < o.length; i++) if (decide(T.eq(k.t, T.int(i)))) return o[i];
      return undefined;
    }
    // an object: property names are the canonical decimal strings
    for (const n of allKeys(o)) if (/^-?\d+$/.test(n) && decide(T.eq(k.t, T.int(Number(n))))) return o[n];
    return undefined;
  }
  if (typeof k === "string" && k.length && hasMarker(k)) {
    if (o != null && Object.prototype.hasOwnProperty.call(o, k)) return o[k];
    k = lift(k);
  }
  if (k instanceof SymStr) {
    if (o == null) throw new TypeError("Cannot read properties of " + o);
    const f = findKey(o, k);
    return f === undefined ? undefined : o[f];
  }
  if (typeof k === "string" && o !== null && typeof o === "object" && !Array.isArray(o) && cx !== null && cx.markers.length && !Object.prototype.hasOwnProperty.call(o, k)) {
    for (const m in o) if (hasMarker(m) && decide(csEq(csOf(m), codeUnits(k)))) return o[m];
  }
  return o[k];
}
function findKey(o, k) {
  const cs = k.cs;
  if (typeof o === "string" || Array.isArray(o)) {
    for (let i = 0; i < o.length; i++) if (decide(csEq(codeUnits(String(i)), cs))) return String(i);
  }
  for (const n of allKeys(Object(o))) {
    const nc = hasMarker(n) ? csOf(n) : n.length === cs.length ? codeUnits(n) : null;
    if (nc !== null && nc.length === cs.length && decide(csEq(nc, cs))) return n;
  }
  return undefined;
}
function setIdx(o, k, v) {
  if (k instanceof SymNum) k = Array.isArray(o) ? concretize(k, "array index") : numToStr(k);
  if (typeof k === "string" && k.length && hasMarker(k)) {
    if (Object.prototype.hasOwnProperty.call(o, k)) {
      o[k] = v;
      return v;
    }
    k = lift(k);
  }
  if (k instanceof SymStr) {
    const cs = k.cs;
    for (const n of Object.getOwnPropertyNames(o).concat("__proto__" in o ? ["__proto__"] : [])) {
      const nc = csOf(n);
      if (nc.length === cs.length && decide(csEq(nc, cs))) {
        o[n] = v;
        return v;
      }
    }
    o[cx.marker(k)] = v;
    return v;
  }
  if (typeof k === "string" && cx !== null && cx.markers.length && o !== null && typeof o === "object" && !Array.isArray(o) && !Object.prototype.hasOwnProperty.call(o, k)) {
    for (const m of Object.keys(o)) if (hasMarker(m) && decide(csEq(csOf(m), codeUnits(k)))) {
      o[m] = v;
      return v;
    }
  }
  o[k] = v;
  return v;
}
function deleteIdx(o, k) {
  k = lift(k);
  if (k instanceof SymStr) {
    for (const n of Object.getOwnPropertyNames(o)) {
      const nc = csOf(n);
      if (nc.length === k.cs.length && decide(csEq(nc, k.cs))) return delete o[n];
    }
    return true;
  }
  return delete o[k];
}
function hasIn(k, o) {
  if (typeof k === "string" && hasMarker(k) && k in o) return true;
  k = lift(k);
  if (k instanceof SymStr) return findKey(o, k) !== undefined;
  if (k instanceof SymNum) k = numToStr(k);
  if (k instanceof SymStr) return findKey(o, k) !== undefined;
  if (typeof k === "string" && hasMarkerKeys(o) && !(k in o)) {
    for (const m in o) if (hasMarker(m) && decide(csEq(csOf(m), codeUnits(k)))) return true;
    return false;
  }
  return k in o;
}
function hasOwn(o, k) {
  if (typeof k === "string" && hasMarker(k) && Object.prototype.hasOwnProperty.call(o, k)) return true;
  k = lift(k);
  if (k instanceof SymNum) k = numToStr(k);
  if (k instanceof SymStr) {
    for (const n of Object.getOwnPropertyNames(o)) {
      const nc = csOf(n);
      if (nc.length === k.cs.length && decide(csEq(nc, k.cs))) return true;
    }
    return false;
  }
  if (typeof k === "string" && hasMarkerKeys(o) && !Object.prototype.hasOwnProperty.call(o, k)) {
    for (const m in o) if (hasMarker(m) && decide(csEq(csOf(m), codeUnits(k)))) return true;
    return false;
  }
  return Object.prototype.hasOwnProperty.call(o, k);
}

// does a value (shallowly, arrays and plain objects deeply) hold symbolic parts?
function deepSym(x, depth = 6) {
  if (isSym(x)) return true;
  if (typeof x === "string") return hasMarker(x);
  if (depth === 0 || x === null || typeof x !== "object") return false;
  if (Array.isArray(x)) return x.some((e) => deepSym(e, depth - 1));
  for (const k of Object.keys(x)) if (hasMarker(k) || deepSym(x[k], depth - 1)) return true;
  return false;
}

module.exports = {
  Abort, Sym, SymBool, SymNum, SymStr, isSym, setContext, getContext, mkBool, mkNum, mkStr, codeUnits, lift, csOf, csEq, csLt, cEq, concat, S, A,
  toStr, toPrim, toNumber, truthy, truthTerm, typeOf, eqTerm, looseEqTerm, arith, compare, concretize, concretizeIf, reExec, reTest, allMatches,
  strToNumber, parseFloatModel, parseIntModel, truncModel, numTerm, ModelSet, ModelMap, getIdx, setIdx, deleteIdx, hasIn, hasOwn, hasMarker, deepSym,
  isStrLike, sameTerm, RAW0, RAW1, numToStr, replaceModel, inSet,
};
