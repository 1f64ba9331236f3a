"use strict";
// A small interpreter for the Perl text that src/Utf8JsonFilter.ts sends to
// ExifTool as its Filter. It parses the text found in the sent arguments and
// runs it with byte strings whose bytes may be symbolic (arrays of codes).
// Four ExifTool functions (IsUTF8, FixUTF8, PackUTF8, EncodeBase64) and the
// recursion of Image::ExifTool::Filter are transcribed from the vendored
// sources. Text outside the subset raises Unsupported.
class Unsupported extends Error {}
const no = (what) => {
  throw new Unsupported("perl: " + what);
};

// ------------------------------------------------- ExifTool's own functions
function seqBad(b, i) {
  // b[i] is >= 0x80: 0 if a valid sequence starts here, else true; n = extra bytes
  const ch = b[i];
  if (ch < 0xc2 || ch >= 0xf8) return { bad: true, n: 0 };
  const n = ch < 0xe0 ? 1 : ch < 0xf0 ? 2 : 3;
  for (let k = 1; k <= n; k++) if (i + k >= b.length || b[i + k] < 0x80 || b[i + k] > 0xbf) return { bad: true, n: 0 };
  if (n === 2) {
    if (ch === 0xe0 && b[i + 1] < 0xa0) return { bad: true, n };
    if (ch === 0xed && b[i + 1] >= 0xa0) return { bad: true, n };
    if (ch === 0xef && b[i + 1] === 0xbf && b[i + 2] >= 0xbe) return { bad: true, n };
  } else if (n === 3) {
    if (ch > 0xf4) return { bad: true, n };
    if (ch === 0xf0 && b[i + 1] < 0x90) return { bad: true, n };
    if (ch === 0xf4 && b[i + 1] > 0x8f) return { bad: true, n };
  }
  return { bad: false, n };
}
function isUTF8(b) {
  let r = 0;
  for (let i = 0; i < b.length; i++) {
    if (b[i] < 0x80) continue;
    const s = seqBad(b, i);
    if (s.bad) return -1;
    r = s.n === 3 || r === 2 ? 2 : 1;
    i += s.n;
  }
  return r;
}
function fixUTF8(b, bad) {
  const out = [];
  for (let i = 0; i < b.length; i++) {
    if (b[i] >= 0x80) {
      const s = seqBad(b, i);
      if (s.bad) {
        out.push(...bad);
        continue;
      }
      for (let k = 0; k < s.n; k++) out.push(b[i++]);
    }
    out.push(b[i]);
  }
  return out;
}
function packUTF8(c) {
  if (c < 0x80) return [c];
  if (c < 0x800) return [0xc0 + (c >> 6), 0x80 + (c & 63)];
  if (c < 0x10000) return [0xe0 + (c >> 12), 0x80 + ((c >> 6) & 63), 0x80 + (c & 63)];
  return [0xf0 + (c >> 18), 0x80 + ((c >> 12) & 63), 0x80 + ((c >> 6) & 63), 0x80 + (c & 63)];
}
function digit(h, v) {
  return h.ite(v < 26, v + 65, h.ite(v < 52, v + 71, h.ite(v < 62, v - 4, h.ite(v === 62, 43, 47))));
}
function encodeBase64(h, b, noLines) {
  if (!noLines && b.length > 45) return no("base64 line breaks");
  const out = [];
  for (let i = 0; i < b.length; i += 3) {
    const k = b.length - i;
    const x = b[i];
    const y = k > 1 ? b[i + 1] : 0;
    const z = k > 2 ? b[i + 2] : 0;
    out.push(digit(h, Math.floor(x / 4)), digit(h, (x % 4) * 16 + Math.floor(y / 16)));
    out.push(k > 1 ? digit(h, (y % 16) * 4 + Math.floor(z / 64)) : 61, k > 2 ? digit(h, z % 64) : 61);
  }
  if (!noLines && b.length > 0) out.push(10);
  return out;
}

// ------------------------------------------------------------------- parsing
function tokenize(src) {
  const toks = [];
  let i = 0;
  const prevIsTerm = () => {
    const t = toks[toks.length - 1];
    return t !== undefined && (t.k === "var" || t.k === "num" || t.k === "str" || t.v === ")" || t.v === "]" || t.v === "}");
  };
  while (i < src.length) {
    const rest = src.slice(i);
    let m;
    if ((m = /^\s+/.exec(rest))) i += m[0].length;
    else if (rest[0] === "#") no("comment");
    else if ((m = /^(?:tr|y)\/((?:[^/\\]|\\.)*)\/((?:[^/\\]|\\.)*)\/([a-z]*)/.exec(rest)) && !prevIsTerm()) {
      if (m[2] !== "" || m[3] !== "d") no("tr");
      toks.push({ k: "del", v: m[1], all: true });
      i += m[0].length;
    } else if ((m = /^s\/((?:[^/\\]|\\.)*)\/((?:[^/\\]|\\.)*)\/([a-z]*)/.exec(rest)) && !prevIsTerm()) {
      let p = m[1];
      if (m[2] !== "" || (m[3] !== "g" && m[3] !== "")) no("s///");
      const c = /^\[([^\]^]+)\]\+?$/.exec(p);
      if (c) p = c[1];
      else if (!/^(?:\\0|\\x00|\\x\{0\}|\\000|[A-Za-z0-9 ])\+?$/.test(p)) no("s///");
      toks.push({ k: "del", v: p.replace(/\+$/, ""), all: m[3] === "g" });
      i += m[0].length;
    } else if ((m = /^"((?:[^"\\]|\\.)*)"/s.exec(rest))) {
      if (/[$@\\]/.test(m[1])) no("interpolation");
      toks.push({ k: "str", v: m[1] });
      i += m[0].length;
    } else if ((m = /^'((?:[^'\\]|\\.)*)'/s.exec(rest))) {
      if (m[1].includes("\\")) no("escape");
      toks.push({ k: "str", v: m[1] });
      i += m[0].length;
    } else if ((m = /^0[xX]([0-9a-fA-F]+)/.exec(rest))) {
      toks.push({ k: "num", v: parseInt(m[1], 16) });
      i += m[0].length;
    } else if ((m = /^\d+/.exec(rest))) {
      toks.push({ k: "num", v: Number(m[0]) });
      i += m[0].length;
    } else if ((m = /^([$@])(\$*)([A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_0-9]+)*)/.exec(rest))) {
      toks.push({ k: "var", sigil: m[1], deref: m[2].length, v: m[3], sub: src[i + m[0].length] });
      i += m[0].length;
    } else if ((m = /^[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_0-9]+)*/.exec(rest))) {
      toks.push({ k: "id", v: m[0] });
      i += m[0].length;
    } else if ((m = /^(?:<=>|=>|==|!=|<=|>=|&&|\|\||\/\/|\+\+|--|=~|!~|->|\+=|-=|\.=|[-+*\/%.<>=!\\?:;,(){}[\]])/.exec(rest))) {
      if (["<=>", "//", "->", "!~", "*", "/", "%"].includes(m[0])) no("operator " + m[0]);
      toks.push({ k: "op", v: m[0] });
      i += m[0].length;
    } else no("token " + rest.slice(0, 10));
  }
  return toks;
}
const BIN = [["or"], ["and"], ["NOT"], ["LIST"], ["="], ["?"], ["||"], ["&&"], ["==", "!=", "eq", "ne"], ["<", ">", "<=", ">="], ["+", "-", "."], ["=~"]];
function parse(src) {
  const t = tokenize(src);
  let p = 0;
  const at = (v) => p < t.length && (t[p].k === "op" || t[p].k === "id") && t[p].v === v;
  const eat = (v) => (at(v) ? (p++, true) : false);
  const need = (v) => eat(v) || no("expected " + v + " at " + JSON.stringify(t[p] ?? "end"));
  function block() {
    need("{");
    const out = [];
    while (!at("}")) {
      if (p >= t.length) no("unclosed block");
      const s = stmt();
      if (s) out.push(s);
    }
    need("}");
    return out;
  }
  function stmt() {
    if (eat(";")) return null;
    if (at("{")) return { s: "bare", body: block() };
    if (eat("package")) {
      p++;
      eat(";");
      return null;
    }
    for (const w of ["if", "unless"])
      if (at(w)) {
        p++;
        need("(");
        const c = expr();
        need(")");
        const arms = [{ c: w === "unless" ? { e: "not", a: c } : c, body: block() }];
        let other = null;
        for (;;) {
          if (eat("elsif")) {
            need("(");
            const c2 = expr();
            need(")");
            arms.push({ c: c2, body: block() });
          } else if (eat("else")) {
            other = block();
            break;
          } else break;
        }
        return { s: "if", arms, other };
      }
    if (at("while") || at("until")) {
      const w = t[p++].v;
      need("(");
      const c = at(")") ? null : expr();
      need(")");
      return { s: "for", init: null, c: c && w === "until" ? { e: "not", a: c } : c, step: null, body: block() };
    }
    if (at("for") || at("foreach")) {
      p++;
      need("(");
      const init = at(";") ? null : expr();
      need(";");
      const c = at(";") ? null : expr();
      need(";");
      const step = at(")") ? null : expr();
      need(")");
      return { s: "for", init, c, step, body: block() };
    }
    let s;
    if (at("last") || at("next")) s = { s: t[p++].v };
    else if (at("return")) {
      p++;
      if (!at(";") && !at("}") && !at("if") && !at("unless")) no("return value");
      s = { s: "return" };
    } else s = { s: "expr", a: expr() };
    for (const w of ["if", "unless"])
      if (eat(w)) {
        const c = expr();
        s = { s: "if", arms: [{ c: w === "unless" ? { e: "not", a: c } : c, body: [s] }], other: null };
        break;
      }
    if (!at("}") && p < t.length) need(";");
    return s;
  }
  const expr = () => level(0);
  function level(n) {
    if (n === BIN.length) return unary();
    const ops = BIN[n];
    if (ops[0] === "NOT") return eat("not") ? { e: "not", a: level(n) } : level(n + 1);
    if (ops[0] === "LIST") {
      const first = level(n + 1);
      return first;
    }
    if (ops[0] === "=") {
      const l = level(n + 1);
      for (const o of ["=", ".=", "+=", "-="]) if (eat(o)) return { e: "assign", o, l, r: level(n) };
      return l;
    }
    if (ops[0] === "?") {
      const c = level(n + 1);
      if (!eat("?")) return c;
      const a = level(4);
      need(":");
      return { e: "cond", c, a, b: level(n) };
    }
    let l = level(n + 1);
    for (;;) {
      const o = ops.find(at);
      if (o === undefined) return l;
      p++;
      l = { e: "bin", o, l, r: level(n + 1) };
    }
  }
  function unary() {
    if (eat("!")) return { e: "not", a: unary() };
    if (eat("-")) return { e: "neg", a: unary() };
    if (eat("\\")) return { e: "refto", a: unary() };
    if (eat("++")) return { e: "inc", a: unary(), by: 1 };
    if (eat("--")) return { e: "inc", a: unary(), by: -1 };
    const a = primary();
    if (eat("++")) return { e: "inc", a, by: 1, post: true };
    if (eat("--")) return { e: "inc", a, by: -1, post: true };
    return a;
  }
  function list(close) {
    const out = [];
    while (!at(close)) {
      out.push(expr());
      if (!eat(",") && !eat("=>")) break;
    }
    need(close);
    return out;
  }
  function variable() {
    const v = t[p++];
    let e = { e: "var", sigil: v.sigil, name: v.v };
    if (v.sigil === "@" && v.deref) no("array dereference");
    for (let k = 0; k < v.deref; k++) e = { e: "deref", a: e };
    if (v.sigil === "$" && at("[")) {
      if (v.deref) no("element of a reference");
      p++;
      const i = expr();
      need("]");
      return { e: "elem", name: v.v, i };
    }
    if (v.sigil === "$" && v.sub === "{") no("hash element");
    return e;
  }
  function primary() {
    const k = t[p] ?? no("end");
    if (k.k === "num") return p++, { e: "num", v: k.v };
    if (k.k === "str") return p++, { e: "str", v: k.v };
    if (k.k === "del") return p++, { e: "del", v: k.v, all: k.all };
    if (k.k === "var") return variable();
    if (eat("(")) {
      const l = list(")");
      return l.length === 1 ? l[0] : { e: "list", l };
    }
    if (eat("{")) {
      const items = [];
      while (!at("}")) {
        if (t[p].k === "id" && t[p + 1]?.v === "=>") items.push({ e: "str", v: t[p++].v });
        else items.push(expr());
        if (!eat(",") && !eat("=>")) break;
      }
      need("}");
      return { e: "hash", items };
    }
    if (k.k === "id") {
      p++;
      if (k.v === "my" || k.v === "our") {
        if (eat("(")) {
          const l = list(")");
          return { e: "my", l, many: true };
        }
        return { e: "my", l: [variable()] };
      }
      if (k.v === "undef") return eat("(") && need(")"), { e: "undef" };
      const f = k.v;
      if (eat("(")) return { e: "call", f, args: list(")") };
      if (["ref", "defined", "length", "scalar", "caller"].includes(f)) return { e: "call", f, args: at(")") || at(";") ? [] : [unary()] };
      return no("word " + f);
    }
    return no("token " + JSON.stringify(k));
  }
  const out = [];
  while (p < t.length) {
    const s = stmt();
    if (s) out.push(s);
  }
  return out;
}

// ------------------------------------------------------------------- running
const str = (codes) => ({ str: codes });
const lit = (s) => str([...Buffer.from(s, "utf8")]);
const isStr = (v) => v !== null && typeof v === "object" && v.str !== undefined;
function truthy(v) {
  if (v === undefined) return false;
  if (isStr(v)) return v.str.length > 1 || (v.str.length === 1 && v.str[0] !== 48);
  if (typeof v === "object") return v.arr !== undefined ? v.arr.length > 0 : true;
  return v ? v !== 0 : false;
}
function refType(v) {
  if (v === undefined || typeof v !== "object" || isStr(v) || v === null) return "";
  if (v.hash !== undefined) return "HASH";
  if (v.array !== undefined) return "ARRAY";
  if (v.to !== undefined) return refType(v.to.v) === "" ? "SCALAR" : "REF";
  return no("reference");
}
function text(v) {
  if (isStr(v)) return v.str;
  if (v === undefined) return [];
  if (typeof v === "number") return lit(String(v)).str;
  if (typeof v === "boolean") return v ? [49] : [];
  return no("text of a reference");
}
const num = (v) => (typeof v === "number" ? v : v === undefined ? 0 : isStr(v) ? no("number of a text") : Number(v));
function charSet(v) {
  const out = [];
  for (let i = 0; i < v.length; i++) {
    let c = v.charCodeAt(i);
    if (v[i] === "\\") {
      const m = /^\\(?:x\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{1,2})|([0-7]{1,3}))/.exec(v.slice(i));
      if (!m) no("escape");
      c = m[3] !== undefined ? parseInt(m[3], 8) : parseInt(m[1] ?? m[2], 16);
      i += m[0].length - 1;
    } else if (v[i] === "^") no("complement");
    if (v[i + 1] === "-" && i + 2 < v.length) {
      const m = /^-(?:\\x([0-9a-fA-F]{2})|([^\\]))/.exec(v.slice(i + 1)) ?? no("range");
      out.push([c, m[1] !== undefined ? parseInt(m[1], 16) : m[2].charCodeAt(0)]);
      i += m[0].length;
    } else out.push([c, c]);
  }
  return out;
}
// run the filter text on `$_`; frames: the Perl call stack, innermost first
function runFilter(h, program, value, frames) {
  const scopes = [new Map()];
  const topic = { v: value };
  const globals = new Map();
  let dbArgs = { arr: [] };
  const find = (key) => {
    for (let i = scopes.length - 1; i >= 0; i--) if (scopes[i].has(key)) return scopes[i].get(key);
    if (key === "$_") return topic;
    if (!globals.has(key)) globals.set(key, key[0] === "@" ? { arr: [] } : { v: undefined });
    return globals.get(key);
  };
  function box(e) {
    if (e.e === "var" && e.sigil === "$") return find("$" + e.name);
    if (e.e === "my" && e.l.length === 1 && e.l[0].sigil === "$") {
      const b = { v: undefined };
      scopes[scopes.length - 1].set("$" + e.l[0].name, b);
      return b;
    }
    if (e.e === "deref") {
      const r = ev(e.a);
      return r !== undefined && typeof r === "object" && r.to !== undefined ? r.to : no("dereference");
    }
    return no("place " + e.e);
  }
  const bool = (b) => (b ? 1 : str([]));
  function ev(e) {
    switch (e.e) {
      case "num":
        return e.v;
      case "str":
        return lit(e.v);
      case "undef":
        return undefined;
      case "var":
        return e.sigil === "@" ? (e.name === "DB::args" ? dbArgs : find("@" + e.name)) : find("$" + e.name).v;
      case "my":
        if (e.many) return no("list declaration");
        if (e.l[0].sigil === "@") {
          const a = { arr: [] };
          scopes[scopes.length - 1].set("@" + e.l[0].name, a);
          return a;
        }
        return box(e).v;
      case "elem": {
        const a = e.name === "DB::args" ? dbArgs : find("@" + e.name);
        const i = num(ev(e.i));
        return a.arr[i < 0 ? a.arr.length + i : i];
      }
      case "deref":
        return box(e).v;
      case "refto":
        return { to: box(e.a) };
      case "not":
        return bool(!truthy(ev(e.a)));
      case "neg":
        return -num(ev(e.a));
      case "inc": {
        const b = box(e.a);
        const old = num(b.v);
        b.v = old + e.by;
        return e.post ? old : b.v;
      }
      case "cond":
        return truthy(ev(e.c)) ? ev(e.a) : ev(e.b);
      case "hash": {
        const out = [];
        if (e.items.length % 2) no("odd hash");
        for (let i = 0; i < e.items.length; i += 2) {
          const k = Buffer.from(text(ev(e.items[i]))).toString("utf8");
          const v = ev(e.items[i + 1]);
          const had = out.findIndex((x) => x[0] === k);
          if (had >= 0) out[had] = [k, v];
          else out.push([k, v]);
        }
        return { hash: out };
      }
      case "del":
        return del(topic, e);
      case "assign": {
        if (e.o === "=" && ((e.l.e === "my" && e.l.l[0].sigil === "@") || (e.l.e === "var" && e.l.sigil === "@"))) {
          const r = ev(e.r);
          const a = ev(e.l);
          a.arr = r !== undefined && r.arr ? r.arr.slice() : [r];
          return a;
        }
        let r = ev(e.r);
        if (r !== undefined && typeof r === "object" && r.arr !== undefined) r = r.arr.length;
        const b = box(e.l);
        b.v = e.o === "=" ? r : e.o === ".=" ? str([...text(b.v), ...text(r)]) : num(b.v) + (e.o === "+=" ? num(r) : -num(r));
        return b.v;
      }
      case "bin":
        return bin(e);
      case "call":
        return call(e);
      default:
        return no("expression " + e.e);
    }
  }
  function del(b, e) {
    const set = charSet(e.v);
    const out = [];
    let done = 0;
    for (const c of text(b.v)) {
      let hit = false;
      if (e.all || done === 0) for (const [lo, hi] of set) if (c >= lo && c <= hi) hit = true;
      if (hit) done++;
      else out.push(c);
    }
    b.v = str(out);
    return done;
  }
  function bin(e) {
    if (e.o === "=~") return e.r.e === "del" ? del(box(e.l), e.r) : no("match");
    const a = ev(e.l);
    if (e.o === "&&" || e.o === "and") return truthy(a) ? ev(e.r) : a;
    if (e.o === "||" || e.o === "or") return truthy(a) ? a : ev(e.r);
    const b = ev(e.r);
    switch (e.o) {
      case ".":
        return str([...text(a), ...text(b)]);
      case "+":
        return num(a) + num(b);
      case "-":
        return num(a) - num(b);
      case "<":
        return bool(num(a) < num(b));
      case ">":
        return bool(num(a) > num(b));
      case "<=":
        return bool(num(a) <= num(b));
      case ">=":
        return bool(num(a) >= num(b));
      case "==":
        return bool(num(a) === num(b));
      case "!=":
        return bool(num(a) !== num(b));
      case "eq":
      case "ne": {
        const x = text(a);
        const y = text(b);
        let same = x.length === y.length;
        for (let i = 0; same && i < x.length; i++) if (x[i] !== y[i]) same = false;
        return bool(same === (e.o === "eq"));
      }
    }
    return no("operator " + e.o);
  }
  function call(e) {
    const bare = e.f.replace(/^(?:Image::ExifTool::(?:XMP::)?)/, "");
    const full = { IsUTF8: "Image::ExifTool::IsUTF8", PackUTF8: "Image::ExifTool::PackUTF8", FixUTF8: "Image::ExifTool::XMP::FixUTF8", EncodeBase64: "Image::ExifTool::XMP::EncodeBase64" };
    if (full[bare] !== undefined && full[bare] !== e.f && !(bare !== "FixUTF8" && bare !== "EncodeBase64" && e.f === bare)) no("function " + e.f);
    const a = e.args.map(ev);
    const target = () => (a[0] !== undefined && a[0].to !== undefined ? a[0].to : no("argument"));
    switch (bare) {
      case "IsUTF8":
        if (a.length !== 1) no("IsUTF8 truncated");
        return isUTF8(text(target().v));
      case "FixUTF8": {
        const b = target();
        b.v = str(fixUTF8(text(b.v), a[1] === undefined ? [63] : text(a[1])));
        return undefined;
      }
      case "PackUTF8":
        return str(packUTF8(num(a[0])));
      case "EncodeBase64":
        return str(encodeBase64(h, text(a[0]), truthy(a[1])));
      case "ref":
        return lit(refType(a.length ? a[0] : topic.v));
      case "defined":
        return bool((a.length ? a[0] : topic.v) !== undefined);
      case "length": {
        const v = a.length ? a[0] : topic.v;
        return v === undefined ? undefined : text(v).length;
      }
      case "scalar":
        return a[0] !== undefined && a[0].arr ? a[0].arr.length : a[0];
      case "caller": {
        const f = frames[a.length ? num(a[0]) : no("caller()")];
        if (f === undefined) return { arr: [] };
        if (f.args !== undefined) dbArgs = { arr: f.args };
        return { arr: [lit("Image::ExifTool"), lit("ExifTool.pm"), 1, lit(f.sub), f.args !== undefined ? 1 : str([])] };
      }
    }
    return no("function " + e.f);
  }
  const NEXT = "next";
  const LAST = "last";
  const RET = "return";
  function body(list) {
    scopes.push(new Map());
    let r;
    for (const s of list) {
      r = exec(s);
      if (r !== undefined) break;
    }
    scopes.pop();
    return r;
  }
  function exec(s) {
    switch (s.s) {
      case "expr":
        ev(s.a);
        return undefined;
      case "bare": {
        const r = body(s.body); // a bare block is a loop that runs once
        return r === RET ? r : undefined;
      }
      case "last":
        return LAST;
      case "next":
        return NEXT;
      case "return":
        return RET;
      case "if":
        for (const arm of s.arms) if (truthy(ev(arm.c))) return arm.body.length === 1 && s.other === null ? body(arm.body) : body(arm.body);
        return s.other ? body(s.other) : undefined;
      case "for": {
        scopes.push(new Map());
        if (s.init) ev(s.init);
        for (let n = 0; ; n++) {
          if (n > 50) no("loop bound");
          if (s.c && !truthy(ev(s.c))) break;
          const r = body(s.body);
          if (r === RET) {
            scopes.pop();
            return r;
          }
          if (r === LAST) break;
          if (s.step) ev(s.step);
        }
        scopes.pop();
        return undefined;
      }
    }
    return no("statement " + s.s);
  }
  body(program);
  return topic.v;
}
// Image::ExifTool::Filter: b is the box valPt points to
function filter(h, program, b, outer) {
  const self = { hash: [] };
  const frames = [{ sub: "Image::ExifTool::Filter", args: [self, lit("f"), { to: b }] }, ...outer];
  const t = refType(b.v);
  if (t === "") {
    const v = runFilter(h, program, b.v, [{ sub: "(eval)" }, ...frames]);
    if (v !== undefined) b.v = v;
  } else if (t === "SCALAR") {
    const inner = { v: b.v.to.v };
    filter(h, program, inner, frames);
    b.v = { to: inner };
  } else if (t === "ARRAY") {
    const boxes = b.v.array.map((v) => ({ v }));
    for (const x of boxes) filter(h, program, x, frames);
    b.v = { array: boxes.map((x) => x.v) };
  } else if (t === "HASH") {
    const boxes = b.v.hash.map(([k, v]) => [k, { v }]);
    for (const [, x] of boxes) filter(h, program, x, frames);
    b.v = { hash: boxes.map(([k, x]) => [k, x.v]) };
  }
}
const OUTER = [{ sub: "Image::ExifTool::GetInfo", args: [{ hash: [] }] }, { sub: "Image::ExifTool::ImageInfo", args: [{ hash: [] }] }, { sub: "main::GetImageInfo", args: [] }];

// The same with Perl and the vendored ExifTool: concrete bytes only.
const SCRIPT = `
use Image::ExifTool; require Image::ExifTool::XMP;
sub build { my $s=shift; my $c=substr($$s,0,1); $$s=substr($$s,1);
 if($c eq 'S'){ $$s=~s/^([0-9a-f]*);//; return pack('H*',$1) }
 if($c eq 'R'){ my $v=build($s); return \\$v }
 if($c eq 'A'){ my @a; push @a, build($s) while substr($$s,0,1) ne ';'; $$s=substr($$s,1); return \\@a }
 if($c eq 'H'){ my %h; while(substr($$s,0,1) ne ';'){ my $k=build($s); $h{$k}=build($s) } $$s=substr($$s,1); return \\%h } }
sub dump1 { my $v=shift; my $r=ref $v;
 return 'U' unless defined $v; return 'S'.unpack('H*',$v).';' unless $r;
 return 'R'.dump1($$v) if $r eq 'SCALAR' or $r eq 'REF';
 return 'A'.join('',map dump1($_),@$v).';' if $r eq 'ARRAY';
 return 'H'.join('',map dump1($_).dump1($$v{$_}),sort keys %$v).';' if $r eq 'HASH'; }
my ($f,$in)=@ARGV; $f=pack('H*',$f); my $v=build(\\$in);
my $et=Image::ExifTool->new; $et->Filter($f,\\$v); print dump1($v);
`;
function dump(v) {
  if (v === undefined) return "U";
  if (isStr(v) || typeof v === "number") return "S" + Buffer.from(text(v)).toString("hex") + ";";
  if (v.to) return "R" + dump(v.to.v);
  if (v.array) return "A" + v.array.map(dump).join("") + ";";
  return "H" + v.hash.slice().sort((a, b) => (a[0] < b[0] ? -1 : 1)).map(([k, x]) => dump(lit(k)) + dump(x)).join("") + ";";
}
function undump(s) {
  let i = 0;
  const one = () => {
    const c = s[i++];
    if (c === "U") return undefined;
    if (c === "S") {
      const e = s.indexOf(";", i);
      const b = [...Buffer.from(s.slice(i, e), "hex")];
      i = e + 1;
      return str(b);
    }
    if (c === "R") return { to: { v: one() } };
    const l = [];
    while (s[i] !== ";") l.push(c === "H" ? [Buffer.from(one().str).toString("utf8"), one()] : one());
    i++;
    return c === "H" ? { hash: l } : { array: l };
  };
  return one();
}
function realFilter(perl, lib, filterText, v) {
  const r = require("node:child_process").spawnSync(perl, ["-I", lib, "-e", SCRIPT, Buffer.from(filterText, "utf8").toString("hex"), dump(v)], { encoding: "utf8", timeout: 20000 });
  if (r.error || r.status !== 0 || !/^[USRAH]/.test(r.stdout)) return undefined;
  return { v: undump(r.stdout) };
}
module.exports = { Unsupported, parse, filter, realFilter, OUTER, str, lit, isStr, isUTF8, fixUTF8, packUTF8, encodeBase64, dump };
