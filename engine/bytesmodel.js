"use strict";
// Uint8Array and Buffer with symbolic bytes. Only what the code under test
// uses: construction from a list or another byte array, Buffer.from(text,
// "base64"), instanceof, iteration, indexing and JSON. Everything whose
// contents are concrete is the native object.
const Y = require("./sym");
const T = require("./term");
const { SymStr, SymNum, isSym, lift, mkNum } = Y;

class ModelBytes {
  constructor(a) {
    for (let i = 0; i < a.length; i++) this[i] = a[i];
    Object.defineProperty(this, "length", { value: a.length });
  }
  *[Symbol.iterator]() {
    for (let i = 0; i < this.length; i++) yield this[i];
  }
  subarray(a, b) {
    return bytesOf(Array.from(this).slice(a, b), this.constructor, (x) => (this instanceof ModelBuffer ? Buffer.from(x) : new Uint8Array(x)));
  }
}
class ModelBuffer extends ModelBytes {
  slice(a, b) {
    return this.subarray(a, b);
  }
  get byteLength() {
    return this.length;
  }
  toString(enc = "utf8", from, to) {
    if (!/^utf-?8$/i.test(enc)) return Buffer.from(Array.from(this).map((x) => Number(isSym(x) ? Y.concretize(x, "byte value") : x))).toString(enc, from, to);
    const a = Array.from(this).slice(from, to);
    return Y.mkStr(utf8(a, true).units);
  }
  toJSON() {
    return { type: "Buffer", data: Array.from(this) };
  }
}
function bytesOf(src, Cls, native) {
  const a = [];
  for (const x of src) {
    if (x instanceof SymNum) a.push(mkNum(T.mod(x.t.sort === "Int" ? x.t : T.floor(x.t), 256)));
    else a.push(Number(isSym(x) ? Y.concretize(x, "byte value") : x));
  }
  if (!a.some(isSym)) return native(a);
  return new Cls(a);
}
// WHATWG UTF-8 decoding (what Buffer.toString, TextDecoder and StringDecoder do
// with well-formed text, and with text cut short). With `flush`, an unfinished
// sequence at the end is U+FFFD; otherwise it is left over.
const term = (x) => (x instanceof SymNum ? x.t : T.int(Number(x)));
function utf8(bytes, flush) {
  const units = [];
  const inR = (x, lo, hi) => (isSym(x) ? Y.truthy(Y.mkBool(between(term(x), lo, hi))) : x >= lo && x <= hi);
  const LEADS = [[0xc2, 0xdf, 0x80, 0xbf, 1], [0xe0, 0xe0, 0xa0, 0xbf, 2], [0xe1, 0xec, 0x80, 0xbf, 2], [0xed, 0xed, 0x80, 0x9f, 2], [0xee, 0xef, 0x80, 0xbf, 2], [0xf0, 0xf0, 0x90, 0xbf, 3], [0xf1, 0xf3, 0x80, 0xbf, 3], [0xf4, 0xf4, 0x80, 0x8f, 3]];
  let i = 0;
  while (i < bytes.length) {
    const b = bytes[i];
    if (inR(b, 0, 0x7f)) {
      units.push(isSym(b) ? b.t : Number(b));
      i++;
      continue;
    }
    const lead = LEADS.find(([lo, hi]) => inR(b, lo, hi));
    if (lead === undefined) {
      units.push(0xfffd);
      i++;
      continue;
    }
    const n = lead[4];
    let j = 1;
    for (; j <= n && i + j < bytes.length; j++) if (!(j === 1 ? inR(bytes[i + j], lead[2], lead[3]) : inR(bytes[i + j], 0x80, 0xbf))) break;
    if (j <= n) {
      if (i + j >= bytes.length && !flush) return { units, rest: bytes.slice(i) };
      units.push(0xfffd);
      i += j;
      continue;
    }
    const seq = bytes.slice(i, i + n + 1);
    i += n + 1;
    if (!seq.some(isSym)) {
      const t = Buffer.from(seq).toString();
      for (let k = 0; k < t.length; k++) units.push(t.charCodeAt(k));
      continue;
    }
    let cp = T.sub(term(seq[0]), T.int(n === 1 ? 0xc0 : n === 2 ? 0xe0 : 0xf0));
    for (let k = 1; k <= n; k++) cp = T.add(T.mul(cp, T.int(64)), T.sub(term(seq[k]), T.int(0x80)));
    if (n < 3) units.push(cp);
    else {
      const v = T.sub(cp, T.int(0x10000));
      units.push(T.add(T.div(v, 1024), T.int(0xd800)), T.add(T.mod(v, 1024), T.int(0xdc00)));
    }
  }
  return { units, rest: [] };
}
class StringDecoderModel {
  constructor(enc = "utf8") {
    this.encoding = enc;
    this.rest = [];
    this.native = new (require("node:string_decoder").StringDecoder)(enc);
    this.plain = /^utf-?8$/i.test(enc) === false;
  }
  write(buf) {
    if (typeof buf === "string" || buf instanceof SymStr) return buf;
    if (this.plain) return this.native.write(Buffer.from(Array.from(buf).map(Number)));
    const r = utf8([...this.rest, ...buf], false);
    this.rest = r.rest;
    return Y.mkStr(r.units);
  }
  end(buf) {
    if (this.plain) return this.native.end(buf);
    const head = buf === undefined ? "" : this.write(buf);
    const r = utf8(this.rest, true);
    this.rest = [];
    return Y.concat(head, Y.mkStr(r.units));
  }
}
class TextDecoderModel {
  constructor(label = "utf-8", opts) {
    this.native = new TextDecoder(label, opts);
    this.d = this.native.encoding === "utf-8" ? new StringDecoderModel() : null;
    this.bomSeen = opts?.ignoreBOM === true;
  }
  get encoding() {
    return this.native.encoding;
  }
  decode(buf, opts) {
    if (this.d === null) return this.native.decode(buf, opts);
    let s = buf === undefined ? "" : this.d.write(buf);
    if (opts?.stream !== true) s = Y.concat(s, this.d.end());
    if (!this.bomSeen && s.length > 0) {
      this.bomSeen = true;
      const c = Y.csOf(s)[0];
      if (typeof c === "number" ? c === 0xfeff : Y.truthy(Y.mkBool(T.eq(c, T.int(0xfeff))))) s = Y.mkStr(Y.csOf(s).slice(1));
    }
    if (opts?.stream !== true) this.bomSeen = this.native.ignoreBOM;
    return s;
  }
}
const U8 = new Proxy(Uint8Array, {
  construct: (t, args, nt) => {
    const [src] = args;
    if (src instanceof ModelBytes || (Array.isArray(src) && src.some(isSym))) return bytesOf(src, ModelBytes, (a) => new Uint8Array(a));
    return Reflect.construct(t, args.map((x) => (isSym(x) ? Y.concretize(x, "Uint8Array argument") : x)), nt === U8 ? t : nt);
  },
  get: (t, k) => {
    if (k === "from" || k === "of")
      return (...a) => {
        let src = k === "of" ? a : Array.from(a[0]);
        if (k === "from" && typeof a[1] === "function") src = src.map((x, i) => a[1](x, i));
        return bytesOf(src, ModelBytes, (b) => Uint8Array.from(b));
      };
    if (k === Symbol.hasInstance) return (x) => x instanceof ModelBytes || x instanceof Uint8Array;
    return Reflect.get(t, k, t);
  },
});
const ranges = [[65, 90, -65], [97, 122, -71], [48, 57, 4]];
const between = (c, lo, hi) => T.and(T.le(T.int(lo), c), T.le(c, T.int(hi)));
const oneOf = (c, ...xs) => T.or(...xs.map((x) => T.eq(c, T.int(x))));
// node's decoder: both alphabets, anything else is skipped, stops at '='
function base64(cs) {
  const vals = [];
  for (const c of cs) {
    const t = typeof c === "number" ? T.int(c) : c;
    if (Y.truthy(Y.mkBool(T.eq(t, T.int(61))))) break;
    const ok = T.or(...ranges.map(([lo, hi]) => between(t, lo, hi)), oneOf(t, 43, 45, 47, 95));
    if (!Y.truthy(Y.mkBool(ok))) continue;
    let v = T.ite(oneOf(t, 43, 45), T.int(62), T.int(63));
    for (const [lo, hi, d] of ranges) v = T.ite(between(t, lo, hi), T.add(t, T.int(d)), v);
    vals.push(v);
  }
  const out = [];
  for (let i = 0; i + 1 < vals.length; i += 4) {
    const [a, b, c, d] = vals.slice(i, i + 4);
    out.push(T.add(T.mul(a, T.int(4)), T.div(b, 16)));
    if (c !== undefined) out.push(T.add(T.mul(T.mod(b, 16), T.int(16)), T.div(c, 4)));
    if (d !== undefined) out.push(T.add(T.mul(T.mod(c, 4), T.int(64)), d));
  }
  return out.map((t) => mkNum(t));
}
const BufferModel = new Proxy(Buffer, {
  get: (t, k) => {
    if (k === "from")
      return (src, enc, ...rest) => {
        src = typeof src === "string" ? lift(src) : src;
        if (src instanceof SymStr) {
          if (enc === "base64" || enc === "base64url") return bytesOf(base64(src.cs), ModelBuffer, (a) => Buffer.from(a));
          return Buffer.from(Y.concretize(src, "Buffer.from of a symbolic text"), enc, ...rest);
        }
        if (src instanceof ModelBytes || (Array.isArray(src) && src.some(isSym))) return bytesOf(src, ModelBuffer, (a) => Buffer.from(a));
        return Buffer.from(src, enc, ...rest);
      };
    if (k === "concat") return (list) => bytesOf(list.flatMap((x) => Array.from(x)), ModelBuffer, (a) => Buffer.from(a));
    if (k === "isBuffer") return (x) => x instanceof ModelBuffer || Buffer.isBuffer(x);
    if (k === Symbol.hasInstance) return (x) => x instanceof ModelBuffer || x instanceof Buffer;
    return Reflect.get(t, k, t);
  },
});
module.exports = { Uint8Array: U8, Buffer: BufferModel, StringDecoder: StringDecoderModel, TextDecoder: TextDecoderModel };
