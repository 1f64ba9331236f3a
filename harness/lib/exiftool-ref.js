"use strict";
// Reference model of how ExifTool 13 reads one "-TAG=VALUE" line of its
// argument stream when started with -stay_open / -E / -sep \x1f. Transcribed
// from the vendored Perl sources (FilterArgfileLine, UnescapeXML/UnescapeChar,
// InflateStruct, ListSplit); validated by running the real ExifTool in
// lib-tests. Works on arrays of code points.

// UTF-16 string -> array of code points; lone surrogates stay as they are
function codePoints(s) {
  const out = [];
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c >= 0xd800 && c <= 0xdbff && i + 1 < s.length) {
      const d = s.charCodeAt(i + 1);
      if (d >= 0xdc00 && d <= 0xdfff) {
        out.push((c - 0xd800) * 1024 + (d - 0xdc00) + 0x10000);
        i++;
        continue;
      }
    }
    out.push(c);
  }
  return out;
}
function wordChar(c) {
  return (c >= 48 && c <= 57) || (c >= 65 && c <= 90) || (c >= 97 && c <= 122) || c === 95;
}
const NAMED = { amp: 38, lt: 60, gt: 62, quot: 34, apos: 39, nbsp: 160 };
// s/&(#?\w+);/UnescapeChar/ge
function unescapeHTML(cs) {
  const out = [];
  for (let i = 0; i < cs.length; i++) {
    if (cs[i] === 38) {
      let j = i + 1;
      const hash = j < cs.length && cs[j] === 35;
      if (hash) j++;
      const start = j;
      while (j < cs.length && wordChar(cs[j])) j++;
      if (j > start && j < cs.length && cs[j] === 59) {
        const body = cs.slice(start, j);
        if (hash) {
          let n = 0;
          let ok = true;
          for (const c of body) {
            if (c >= 48 && c <= 57) n = n * 10 + (c - 48);
            else ok = false;
          }
          if (ok) {
            out.push(n);
            i = j;
            continue;
          }
        } else {
          const name = body.every((c) => typeof c === "number") ? String.fromCharCode(...body) : "";
          if (Object.prototype.hasOwnProperty.call(NAMED, name)) {
            out.push(NAMED[name]);
            i = j;
            continue;
          }
        }
      }
    }
    out.push(cs[i]);
  }
  return out;
}
function perlSpace(c) {
  return c === 32 || (c >= 9 && c <= 13);
}
// the value part of a line, after FilterArgfileLine dropped one space after "="
function valueOfLine(line, prefix) {
  let cs = codePoints(line.slice(prefix.length));
  if (cs.length > 0 && cs[0] === 32) cs = cs.slice(1);
  return cs;
}
function splitOn(cs, sep) {
  const out = [[]];
  for (const c of cs) {
    if (c === sep) out.push([]);
    else out[out.length - 1].push(c);
  }
  return out;
}
// InflateStruct: returns {v, rest, bad}; v is array of code points, {list}, or {struct:[[k,v]...]}
function inflate(cs, pos, delim) {
  const skip = () => {
    while (pos < cs.length && perlSpace(cs[pos])) pos++;
  };
  const p0 = pos;
  skip();
  if (pos < cs.length && cs[pos] === 123) {
    pos++;
    const struct = [];
    for (;;) {
      const save = pos;
      skip();
      const k0 = pos;
      while (pos < cs.length && (wordChar(cs[pos]) || cs[pos] === 45 || cs[pos] === 58 || cs[pos] === 46)) pos++;
      const k = cs.slice(k0, pos);
      if (k.length === 0) {
        pos = save;
        break;
      }
      if (pos < cs.length && cs[pos] === 35) pos++;
      skip();
      if (!(pos < cs.length && cs[pos] === 61)) {
        pos = save;
        break;
      }
      pos++;
      const r = inflate(cs, pos, 125);
      pos = r.pos;
      struct.push([k, r.v]);
      if (r.bad) return { v: { struct }, pos, bad: true };
      const s2 = pos;
      skip();
      if (pos < cs.length && cs[pos] === 44) pos++;
      else {
        pos = s2;
        break;
      }
    }
    skip();
    if (pos < cs.length && cs[pos] === 125) return { v: { struct }, pos: pos + 1, bad: false };
    return { v: { struct }, pos, bad: true };
  }
  if (pos < cs.length && cs[pos] === 91) {
    pos++;
    const list = [];
    for (;;) {
      const r = inflate(cs, pos, 93);
      pos = r.pos;
      list.push(r.v);
      if (r.bad) return { v: { list }, pos, bad: true };
      const s2 = pos;
      skip();
      if (pos < cs.length && cs[pos] === 44) pos++;
      else {
        pos = s2;
        break;
      }
    }
    skip();
    if (pos < cs.length && cs[pos] === 93) return { v: { list }, pos: pos + 1, bad: false };
    return { v: { list }, pos, bad: true };
  }
  const v = [];
  while (pos < cs.length) {
    const c = cs[pos];
    if (c === 124) {
      if (pos + 1 < cs.length) v.push(cs[pos + 1]);
      pos += 2;
      continue;
    }
    if (c === 44) break;
    if (delim !== undefined && c === delim) break;
    v.push(c);
    pos++;
  }
  return { v, pos, bad: false };
}
function sameCodePoints(h, a, b) {
  if (!Array.isArray(a) || !Array.isArray(b) || a.length !== b.length) return false;
  let ok = true;
  for (let i = 0; i < a.length; i++) ok = h.and(ok, a[i] === b[i]);
  return ok;
}
module.exports = { codePoints, unescapeHTML, valueOfLine, splitOn, inflate, sameCodePoints, perlSpace };
