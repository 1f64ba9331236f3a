"use strict";
// JavaScript regular expressions over symbolic strings.
// A pattern is parsed and compiled to a backtracking program; match existence
// from a program point is a boolean formula M(pc, i); captures are recovered
// by walking the program in JavaScript's priority order and asking, at every
// choice point, whether the preferred alternative still leads to a match.
const T = require("./term");

class Unsupported extends Error {}

// ---------- character sets: sorted disjoint ranges of UTF-16 code units
function normRanges(rs) {
  rs = rs.filter((r) => r[0] <= r[1]).sort((a, b) => a[0] - b[0]);
  const out = [];
  for (const r of rs) {
    const l = out[out.length - 1];
    if (l && r[0] <= l[1] + 1) l[1] = Math.max(l[1], r[1]);
    else out.push([r[0], r[1]]);
  }
  return out;
}
function negRanges(rs, max = 0xffff) {
  const out = [];
  let p = 0;
  for (const [a, b] of rs) {
    if (a > p) out.push([p, a - 1]);
    p = b + 1;
  }
  if (p <= max) out.push([p, max]);
  return out;
}
const DIGIT = [[48, 57]];
const WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
const SPACE = normRanges([[9, 13], [32, 32], [0xa0, 0xa0], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]]);
const NEWLINE = [[10, 10], [13, 13], [0x2028, 0x2029]];

// case-insensitive closure, derived from the host engine (non-unicode mode)
let canonTable = null;
function canon(c) {
  const s = String.fromCharCode(c);
  const u = s.toUpperCase();
  if (u.length !== 1) return c;
  const cu = u.charCodeAt(0);
  if (c >= 128 && cu < 128) return c;
  return cu;
}
function caseClose(rs) {
  if (canonTable === null) {
    canonTable = new Map();
    for (let c = 0; c <= 0xffff; c++) {
      const k = canon(c);
      let a = canonTable.get(k);
      if (!a) canonTable.set(k, (a = []));
      a.push(c);
    }
  }
  const add = [];
  let total = 0;
  for (const [a, b] of rs) total += b - a + 1;
  if (total > 30000) {
    // big (usually negated) set: compute the complement's kept part instead
    const neg = negRanges(rs);
    // c stays excluded only if no member of its canon class is included
    const inSet = (x) => rs.some(([p, q]) => x >= p && x <= q);
    const outNeg = [];
    for (const [a, b] of neg)
      for (let c = a; c <= b; c++) {
        if (!canonTable.get(canon(c)).some(inSet)) outNeg.push([c, c]);
      }
    return negRanges(normRanges(outNeg));
  }
  for (const [a, b] of rs) for (let c = a; c <= b; c++) for (const x of canonTable.get(canon(c))) add.push([x, x]);
  return normRanges(rs.map((r) => [r[0], r[1]]).concat(add));
}

// ---------- parser
function parse(src, flags) {
  let i = 0;
  const icase = flags.includes("i");
  const unicode = flags.includes("u") || flags.includes("v");
  const dotAll = flags.includes("s");
  const multiline = flags.includes("m");
  let ngroups = 0;
  const names = {};
  const set = (rs) => ({ t: "set", rs: icase ? caseClose(normRanges(rs)) : normRanges(rs) });
  function alt() {
    const alts = [seq()];
    while (src[i] === "|") {
      i++;
      alts.push(seq());
    }
    return alts.length === 1 ? alts[0] : { t: "alt", alts };
  }
  function seq() {
    const items = [];
    while (i < src.length && src[i] !== "|" && src[i] !== ")") items.push(term());
    return { t: "seq", items };
  }
  function term() {
    const g0 = ngroups;
    const a = atom();
    return quant(a, g0);
  }
  function quant(a, g0) {
    let min, max;
    const c = src[i];
    if (c === "*") [min, max] = [0, Infinity];
    else if (c === "+") [min, max] = [1, Infinity];
    else if (c === "?") [min, max] = [0, 1];
    else if (c === "{") {
      const m = /^\{(\d+)(?:(,)(\d*))?\}/.exec(src.slice(i));
      if (!m) {
        return a;
      }
      min = +m[1];
      max = m[2] ? (m[3] === "" ? Infinity : +m[3]) : min;
      i += m[0].length - 1;
    } else return a;
    i++;
    let greedy = true;
    if (src[i] === "?") {
      greedy = false;
      i++;
    }
    return { t: "rep", body: a, min, max, greedy, g0, g1: ngroups };
  }
  function classEscape(c) {
    switch (c) {
      case "d": return DIGIT;
      case "D": return negRanges(DIGIT);
      case "w": return WORD;
      case "W": return negRanges(WORD);
      case "s": return SPACE;
      case "S": return negRanges(SPACE);
    }
    return null;
  }
  function charEscape() {
    // after the backslash; returns code unit
    const c = src[i++];
    switch (c) {
      case "n": return 10;
      case "r": return 13;
      case "t": return 9;
      case "v": return 11;
      case "f": return 12;
      case "0":
        if (/\d/.test(src[i] ?? "")) throw new Unsupported("octal escape");
        return 0;
      case "x": {
        const h = /^[0-9a-fA-F]{2}/.exec(src.slice(i));
        if (!h) return 120;
        i += 2;
        return parseInt(h[0], 16);
      }
      case "u": {
        let h = /^[0-9a-fA-F]{4}/.exec(src.slice(i));
        if (h) {
          i += 4;
          return parseInt(h[0], 16);
        }
        h = /^\{([0-9a-fA-F]+)\}/.exec(src.slice(i));
        if (h && unicode) {
          i += h[0].length;
          return parseInt(h[1], 16);
        }
        return 117;
      }
      case "c": {
        const l = src[i];
        if (/[A-Za-z]/.test(l)) {
          i++;
          return l.charCodeAt(0) % 32;
        }
        i--;
        return 92;
      }
    }
    return c.charCodeAt(0);
  }
  function propEscape(neg) {
    const m = /^\{([^}]+)\}/.exec(src.slice(i));
    if (!m || !unicode) throw new Unsupported("\\p");
    i += m[0].length;
    const re = new RegExp(`^\\p{${m[1]}}$`, "u");
    const rs = [];
    for (let c = 0; c <= 0x10ffff; c++) {
      if (re.test(String.fromCodePoint(c)) !== neg) rs.push([c, c]);
    }
    return normRanges(rs);
  }
  function cpSet(rs) {
    // unicode mode: a set over code points -> alternation over code units
    if (!unicode) return set(rs);
    if (icase) {
      for (const [a, b] of rs) if (b > 0x7f && !(a === 0 && b === 0x10ffff)) {
        // approximate: host check would be needed
        throw new Unsupported("unicode ignoreCase set");
      }
    }
    const bmp = [];
    const astral = [];
    for (const [a, b] of normRanges(rs)) {
      if (a <= 0xffff) bmp.push([a, Math.min(b, 0xffff)]);
      if (b > 0xffff) astral.push([Math.max(a, 0x10000), b]);
    }
    return { t: "uset", bmp: icase ? caseClose(normRanges(bmp)) : normRanges(bmp), astral };
  }
  function klass() {
    // after '['
    let neg = false;
    if (src[i] === "^") {
      neg = true;
      i++;
    }
    const rs = [];
    const max = unicode ? 0x10ffff : 0xffff;
    function one() {
      if (src[i] === "\\") {
        i++;
        if (src[i] === "b") {
          i++;
          return 8;
        }
        const ce = classEscape(src[i]);
        if (ce) {
          const up = src[i] === "D" || src[i] === "W" || src[i] === "S";
          i++;
          if (unicode && up) return { rs: ce.concat([[0x10000, 0x10ffff]]) };
          return { rs: ce };
        }
        if ((src[i] === "p" || src[i] === "P") && unicode) {
          const n = src[i] === "P";
          i++;
          return { rs: propEscape(n) };
        }
        if (src[i] === "-") {
          i++;
          return 45;
        }
        return charEscape();
      }
      if (unicode) {
        const cp = src.codePointAt(i);
        i += cp > 0xffff ? 2 : 1;
        return cp;
      }
      return src.charCodeAt(i++);
    }
    while (src[i] !== "]") {
      if (i >= src.length) throw new Unsupported("unterminated class");
      const a = one();
      if (src[i] === "-" && src[i + 1] !== "]" && typeof a === "number") {
        const save = i;
        i++;
        const b = one();
        if (typeof b === "number") {
          rs.push([a, b]);
          continue;
        }
        i = save;
        rs.push([a, a]);
        continue;
      }
      if (typeof a === "number") rs.push([a, a]);
      else rs.push(...a.rs);
    }
    i++;
    let r = normRanges(rs);
    if (icase && neg && !unicode) r = caseClose(r);
    if (neg) r = negRanges(r, max);
    if (icase && neg && !unicode) return { t: "set", rs: r };
    return cpSet(r);
  }
  function atom() {
    const c = src[i];
    if (c === "(") {
      i++;
      if (src[i] === "?") {
        if (src[i + 1] === ":") {
          i += 2;
          const b = alt();
          i++;
          return b;
        }
        if (src[i + 1] === "=" || src[i + 1] === "!") {
          const neg = src[i + 1] === "!";
          i += 2;
          const b = alt();
          i++;
          return { t: "look", neg, body: b };
        }
        if (src[i + 1] === "<" && (src[i + 2] === "=" || src[i + 2] === "!")) {
          const neg = src[i + 2] === "!";
          i += 3;
          const b = alt();
          i++;
          return { t: "behind", neg, body: b };
        }
        const m = /^\?<([^>]+)>/.exec(src.slice(i));
        if (m) {
          i += m[0].length;
          const n = ++ngroups;
          if (names[m[1]] !== undefined) names[m[1]] = [].concat(names[m[1]], n);
          else names[m[1]] = n;
          const b = alt();
          i++;
          return { t: "cap", n, body: b };
        }
        throw new Unsupported("group " + src.slice(i, i + 4));
      }
      const n = ++ngroups;
      const b = alt();
      i++;
      return { t: "cap", n, body: b };
    }
    if (c === "[") {
      i++;
      return klass();
    }
    if (c === ".") {
      i++;
      if (dotAll) return cpSet([[0, unicode ? 0x10ffff : 0xffff]]);
      return cpSet(negRanges(NEWLINE, unicode ? 0x10ffff : 0xffff));
    }
    if (c === "^") {
      i++;
      return { t: "bol", multiline };
    }
    if (c === "$") {
      i++;
      return { t: "eol", multiline };
    }
    if (c === "\\") {
      i++;
      const e = src[i];
      if (e === "b" || e === "B") {
        i++;
        return { t: "wordb", neg: e === "B" };
      }
      if (/[1-9]/.test(e)) throw new Unsupported("backreference");
      if (e === "k" && Object.keys(names).length) throw new Unsupported("named backreference");
      const ce = classEscape(e);
      if (ce) {
        i++;
        if (unicode && /[DWS]/.test(e)) return cpSet(ce.concat([[0x10000, 0x10ffff]]));
        return set(ce);
      }
      if ((e === "p" || e === "P") && unicode) {
        i++;
        return cpSet(propEscape(e === "P"));
      }
      const u = charEscape();
      return cpSet([[u, u]]);
    }
    if (unicode) {
      const cp = src.codePointAt(i);
      i += cp > 0xffff ? 2 : 1;
      return cpSet([[cp, cp]]);
    }
    i++;
    return set([[c.charCodeAt(0), c.charCodeAt(0)]]);
  }
  const ast = alt();
  if (i < src.length) throw new Unsupported("trailing ) in regex");
  return { ast, ngroups, names };
}

// ---------- compiler
function canBeEmpty(n) {
  switch (n.t) {
    case "set": case "uset": return false;
    case "seq": return n.items.every(canBeEmpty);
    case "alt": return n.alts.some(canBeEmpty);
    case "cap": return canBeEmpty(n.body);
    case "rep": return n.min === 0 || canBeEmpty(n.body);
    default: return true;
  }
}
function compile(ast, maxLen) {
  const prog = [];
  let nloops = 0;
  const emit = (x) => prog.push(x) - 1;
  function c(n) {
    switch (n.t) {
      case "set": emit({ op: "set", rs: n.rs }); break;
      case "uset": emit({ op: "uset", bmp: n.bmp, astral: n.astral }); break;
      case "seq": n.items.forEach(c); break;
      case "alt": {
        const jumps = [];
        n.alts.forEach((a, k) => {
          if (k < n.alts.length - 1) {
            const s = emit({ op: "split", x: 0, y: 0 });
            prog[s].x = prog.length;
            c(a);
            jumps.push(emit({ op: "jmp", x: 0 }));
            prog[s].y = prog.length;
          } else c(a);
        });
        for (const j of jumps) prog[j].x = prog.length;
        break;
      }
      case "cap":
        emit({ op: "save", n: 2 * n.n });
        c(n.body);
        emit({ op: "save", n: 2 * n.n + 1 });
        break;
      case "rep": {
        const reset = () => {
          if (n.g1 > n.g0) emit({ op: "clear", a: n.g0 + 1, b: n.g1 });
        };
        const emptyable = canBeEmpty(n.body);
        for (let k = 0; k < n.min; k++) {
          reset();
          c(n.body);
        }
        if (n.max === Infinity) {
          const s = emit({ op: "split", x: 0, y: 0 });
          const id = emptyable ? nloops++ : -1;
          if (emptyable) emit({ op: "lpush", id });
          reset();
          c(n.body);
          if (emptyable) emit({ op: "lcheck", id });
          emit({ op: "jmp", x: s });
          if (n.greedy) [prog[s].x, prog[s].y] = [s + 1, prog.length];
          else [prog[s].x, prog[s].y] = [prog.length, s + 1];
        } else {
          const cnt = Math.min(n.max - n.min, maxLen + 1);
          const splits = [];
          for (let k = 0; k < cnt; k++) {
            const s = emit({ op: "split", x: 0, y: 0 });
            splits.push(s);
            const id = emptyable ? nloops++ : -1;
            if (emptyable) emit({ op: "lpush", id });
            reset();
            c(n.body);
            if (emptyable) emit({ op: "lcheck", id });
          }
          for (const s of splits) {
            if (n.greedy) [prog[s].x, prog[s].y] = [s + 1, prog.length];
            else [prog[s].x, prog[s].y] = [prog.length, s + 1];
          }
        }
        break;
      }
      case "look": {
        emit({ op: "look", neg: n.neg, prog: compile(n.body, maxLen) });
        break;
      }
      case "behind": {
        emit({ op: "behind", neg: n.neg, prog: compile(n.body, maxLen) });
        break;
      }
      case "bol": emit({ op: "bol", multiline: n.multiline }); break;
      case "eol": emit({ op: "eol", multiline: n.multiline }); break;
      case "wordb": emit({ op: "wordb", neg: n.neg }); break;
      default: throw new Unsupported(n.t);
    }
  }
  c(ast);
  emit({ op: "match" });
  return prog;
}

const cache = new Map();
function compiled(re, len) {
  const key = re.flags + "/" + re.source;
  let p = cache.get(key);
  if (p === undefined) {
    try {
      p = { parsed: parse(re.source, re.flags), progs: new Map() };
    } catch (e) {
      if (!(e instanceof Unsupported)) throw e;
      p = { error: e };
    }
    cache.set(key, p);
  }
  if (p.error) throw p.error;
  const b = len <= 16 ? 16 : len <= 64 ? 64 : len;
  let prog = p.progs.get(b);
  if (prog === undefined) p.progs.set(b, (prog = compile(p.parsed.ast, b)));
  return { prog, ngroups: p.parsed.ngroups, names: p.parsed.names };
}

// membership formula of one code unit (number or Int term)
function inSet(c, rs) {
  if (typeof c === "number") {
    for (const [a, b] of rs) if (c >= a && c <= b) return T.TRUE;
    return T.FALSE;
  }
  let memo = c._sets;
  if (memo === undefined) memo = c._sets = new Map();
  const m = memo.get(rs);
  if (m !== undefined) return m;
  const neg = negRanges(rs);
  let f;
  if (neg.length < rs.length) f = T.not(T.or(...neg.map((r) => rng(c, r))));
  else f = T.or(...rs.map((r) => rng(c, r)));
  memo.set(rs, f);
  return f;
}
function rng(c, [a, b]) {
  if (a === b) return T.eq(c, T.int(a));
  return T.and(T.le(T.int(a), c), T.le(c, T.int(b)));
}
const HI = [[0xd800, 0xdbff]];
const LO = [[0xdc00, 0xdfff]];

class Matcher {
  // cs: array of numbers / Int terms. decide(formula) -> boolean
  constructor(re, cs, decide) {
    const { prog, ngroups, names } = compiled(re, cs.length);
    this.prog = prog;
    this.ngroups = ngroups;
    this.names = names;
    this.cs = cs;
    this.n = cs.length;
    this.decide = decide;
    this.memo = new Map();
  }
  anchor(op, i, ins) {
    const n = this.n;
    if (op === "bol") {
      if (i === 0) return T.TRUE;
      return ins.multiline ? inSet(this.cs[i - 1], NEWLINE) : T.FALSE;
    }
    if (op === "eol") {
      if (i === n) return T.TRUE;
      return ins.multiline ? inSet(this.cs[i], NEWLINE) : T.FALSE;
    }
    const a = i > 0 ? inSet(this.cs[i - 1], WORD) : T.FALSE;
    const b = i < n ? inSet(this.cs[i], WORD) : T.FALSE;
    const x = T.not(T.eq(a, b));
    return ins.neg ? T.not(x) : x;
  }
  // existence of a match of `prog` from pc at i with loop marks
  M(prog, pc, i, marks, endAt = -1) {
    let key = prog === this.prog ? "" : this.pid(prog) + ":";
    key += pc + "," + i + "," + endAt;
    if (marks !== null) key += JSON.stringify(marks);
    const memo = this.memo.get(key);
    if (memo === 0) return T.FALSE; // on the stack: empty cycle
    if (memo !== undefined) return memo;
    this.memo.set(key, 0);
    const r = this.M1(prog, pc, i, marks, endAt);
    this.memo.set(key, r);
    return r;
  }
  pid(prog) {
    if (prog._id === undefined) prog._id = Matcher.nextProg++;
    return prog._id;
  }
  M1(prog, pc, i, marks, endAt) {
    const ins = prog[pc];
    switch (ins.op) {
      case "match": return endAt === -1 || endAt === i ? T.TRUE : T.FALSE;
      case "set": {
        if (i >= this.n) return T.FALSE;
        const f = inSet(this.cs[i], ins.rs);
        if (f === T.FALSE) return f;
        return T.and(f, this.M(prog, pc + 1, i + 1, marks, endAt));
      }
      case "uset": {
        return T.or(...this.uset(ins, i).map(([f, k]) => T.and(f, this.M(prog, pc + 1, i + k, marks, endAt))));
      }
      case "jmp": return this.M(prog, ins.x, i, marks, endAt);
      case "save": case "clear": return this.M(prog, pc + 1, i, marks, endAt);
      case "lpush": return this.M(prog, pc + 1, i, { ...marks, [ins.id]: i }, endAt);
      case "lcheck": {
        if (marks[ins.id] === i) return T.FALSE;
        const m = { ...marks };
        delete m[ins.id];
        return this.M(prog, pc + 1, i, Object.keys(m).length ? m : null, endAt);
      }
      case "split": return T.or(this.M(prog, ins.x, i, marks, endAt), this.M(prog, ins.y, i, marks, endAt));
      case "look": {
        const f = this.M(ins.prog, 0, i, null);
        return T.and(ins.neg ? T.not(f) : f, this.M(prog, pc + 1, i, marks, endAt));
      }
      case "behind": {
        const f = this.behind(ins, i);
        return T.and(ins.neg ? T.not(f) : f, this.M(prog, pc + 1, i, marks, endAt));
      }
      default: {
        const f = this.anchor(ins.op, i, ins);
        if (f === T.FALSE) return f;
        return T.and(f, this.M(prog, pc + 1, i, marks, endAt));
      }
    }
  }
  behind(ins, i) {
    const fs = [];
    for (let j = i; j >= 0; j--) fs.push(this.M(ins.prog, 0, j, null, i));
    return T.or(...fs);
  }
  // unicode-mode single code point at i: list of [condition, width]
  uset(ins, i) {
    const out = [];
    if (i >= this.n) return out;
    const c = this.cs[i];
    if (i + 1 < this.n) {
      const pair = T.and(inSet(c, HI), inSet(this.cs[i + 1], LO));
      if (pair !== T.FALSE && ins.astral.length) {
        const fs = ins.astral.map(([a, b]) => {
          const h = typeof c === "number" ? T.int(c) : c;
          const l = typeof this.cs[i + 1] === "number" ? T.int(this.cs[i + 1]) : this.cs[i + 1];
          if (a === 0x10000 && b === 0x10ffff) return T.TRUE;
          const cp = T.add(T.mul(T.int(1024), T.sub(h, T.int(0xd800))), T.sub(l, T.int(0xdc00)), T.int(0x10000));
          return T.and(T.le(T.int(a), cp), T.le(cp, T.int(b)));
        });
        out.push([T.and(pair, T.or(...fs)), 2]);
      }
      const f = T.and(inSet(c, ins.bmp), T.not(pair));
      if (f !== T.FALSE) out.push([f, 1]);
    } else {
      const f = inSet(c, ins.bmp);
      if (f !== T.FALSE) out.push([f, 1]);
    }
    return out;
  }
  anyMatch(from, sticky) {
    if (sticky) return from <= this.n ? this.M(this.prog, 0, from, null) : T.FALSE;
    const fs = [];
    for (let s = from; s <= this.n; s++) fs.push(this.M(this.prog, 0, s, null));
    return T.or(...fs);
  }
  // returns capture array (indices) or null; forks through decide
  exec(from, sticky) {
    if (from > this.n) return null;
    for (let s = from; s <= (sticky ? from : this.n); s++) {
      if (this.decide(this.M(this.prog, 0, s, null))) return this.walk(this.prog, s, null);
    }
    return null;
  }
  walk(prog, start, caps0) {
    const caps = caps0 ?? new Array(2 * (this.ngroups + 1)).fill(-1);
    let pc = 0;
    let i = start;
    let marks = null;
    for (;;) {
      const ins = prog[pc];
      switch (ins.op) {
        case "match":
          if (caps0 === null) {
            caps[0] = start;
            caps[1] = i;
          }
          return caps;
        case "set": i++; pc++; break;
        case "uset": {
          const opts = this.uset(ins, i);
          if (opts.length === 2) {
            const two = T.and(opts[0][0], this.M(prog, pc + 1, i + 2, marks));
            i += this.decide(two) ? 2 : 1;
          } else i += opts[0][1];
          pc++;
          break;
        }
        case "jmp": pc = ins.x; break;
        case "save": caps[ins.n] = i; pc++; break;
        case "clear":
          for (let g = ins.a; g <= ins.b; g++) caps[2 * g] = caps[2 * g + 1] = -1;
          pc++;
          break;
        case "lpush": marks = { ...marks, [ins.id]: i }; pc++; break;
        case "lcheck": {
          marks = { ...marks };
          delete marks[ins.id];
          if (Object.keys(marks).length === 0) marks = null;
          pc++;
          break;
        }
        case "split": pc = this.decide(this.M(prog, ins.x, i, marks)) ? ins.x : ins.y; break;
        case "look":
          if (!ins.neg) this.walk(ins.prog, i, caps);
          pc++;
          break;
        default: pc++;
      }
    }
  }
}
Matcher.nextProg = 1;

module.exports = { Matcher, Unsupported, inSet, normRanges, negRanges, SPACE, DIGIT, WORD, caseClose };
