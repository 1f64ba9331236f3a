"use strict";
// Shared harness support: an ExifTool instance whose BatchCluster records the
// tasks it is given instead of starting processes, and a file system stand-in
// whose mutating calls only record their target.

// Mutating calls of node:fs are replaced by recorders; reads go through.
function safeFs(h, extra) {
  const real = require("node:fs");
  const calls = [];
  const fs = { ...real };
  for (const k of ["mkdirSync", "writeFileSync", "rmSync", "unlinkSync", "renameSync", "mkdir", "writeFile", "rm", "unlink", "rename"]) {
    fs[k] = (...a) => {
      calls.push([k, a[0]]);
      return undefined;
    };
  }
  Object.assign(fs, extra);
  fs.default = fs;
  h.shim("node:fs", fs);
  return calls;
}

// result(task) -> promise/value handed back for the task
function fakeExifTool(h, options, result, fsExtra) {
  const fsCalls = safeFs(h, fsExtra);
  const ExifTool = h.entry("ExifTool", "ExifTool");
  const et = new ExifTool({ checkPerl: false, taskRetries: 0, ...options });
  const sent = [];
  et.batchCluster.enqueueTask = (t) => {
    sent.push(t);
    return result ? result(t) : Promise.resolve(undefined);
  };
  return { et, sent, fsCalls };
}

// outcome of a promise-returning call, including synchronous throws
async function outcome(f) {
  try {
    const value = await f();
    return { ok: true, value };
  } catch (error) {
    return { ok: false, error };
  }
}

// true iff the UTF-16 unit can never appear inside an argument
function isArgBreaker(c) {
  return c === 10 || c === 13 || c === 0;
}
function hasArgBreaker(h, s) {
  let bad = false;
  for (let i = 0; i < s.length; i++) bad = h.or(bad, isArgBreaker(s.charCodeAt(i)));
  return bad;
}
// exact JS white space (what String.prototype.trim removes)
function isWs(c) {
  return c === 9 || c === 10 || c === 11 || c === 12 || c === 13 || c === 32 || c === 160 || c === 0x1680 || (c >= 0x2000 && c <= 0x200a) || c === 0x2028 || c === 0x2029 || c === 0x202f || c === 0x205f || c === 0x3000 || c === 0xfeff;
}
function isBlank(h, s) {
  let b = true;
  for (let i = 0; i < s.length; i++) b = h.and(b, isWs(s.charCodeAt(i)));
  return b;
}
function tagUnit(c) {
  return (c >= 48 && c <= 57) || (c >= 65 && c <= 90) || (c >= 97 && c <= 122) || c === 95 || c === 58 || c === 42 || c === 63 || c === 43 || c === 35 || c === 94;
}
// the documented tag-name grammar, as a formula
function goodTagName(h, name) {
  if (name.length === 0) return false;
  let ok = tagUnit(name.charCodeAt(0));
  for (let i = 1; i < name.length; i++) {
    const c = name.charCodeAt(i);
    ok = h.and(ok, h.or(tagUnit(c), c === 45));
  }
  return ok;
}
module.exports = { safeFs, fakeExifTool, outcome, hasArgBreaker, isBlank, isWs, isArgBreaker, tagUnit, goodTagName };
