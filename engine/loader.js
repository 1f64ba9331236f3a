"use strict";
// Module loader: reads /repo's current sources (and the npm packages they use)
// and evaluates them either instrumented ("sym") or merely transpiled ("conc").
const fs = require("node:fs");
const path = require("node:path");
const vm = require("node:vm");
const crypto = require("node:crypto");
const nodeRequire = require;

const REPO = process.env.VERIF_REPO ?? "/repo";
const CACHE = process.env.VERIF_CACHE; // per-run scratch directory
const INSTRUMENTED_PACKAGES = new Set(["luxon", "he", "batch-cluster"]);

let inst = null;
const getInst = () => (inst ??= require("./instrument"));

const codeCache = new Map(); // key -> compiled function
const srcHashes = new Map();

function build(file, text, mode) {
  const key = crypto.createHash("sha256").update(mode + "\0" + file + "\0" + text + "\0" + engineVersion()).digest("hex");
  const cfile = CACHE ? path.join(CACHE, key + ".js") : null;
  if (cfile && fs.existsSync(cfile)) return fs.readFileSync(cfile, "utf8");
  const { transpile, instrument } = getInst();
  let js = file.endsWith(".ts") ? transpile(text, file) : text;
  if (mode === "sym") js = instrument(js, relName(file));
  if (cfile) {
    const tmp = cfile + "." + process.pid;
    fs.writeFileSync(tmp, js);
    fs.renameSync(tmp, cfile);
  }
  return js;
}
let ev = null;
function engineVersion() {
  return (ev ??= crypto.createHash("sha256").update(fs.readFileSync(path.join(__dirname, "instrument.js"))).digest("hex"));
}
function relName(file) {
  if (file.startsWith(REPO + "/")) return file.slice(REPO.length + 1);
  return path.basename(file);
}

function resolveFile(base) {
  for (const c of [base, base + ".ts", base + ".js", base + ".json", path.join(base, "index.ts"), path.join(base, "index.js")]) {
    if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
  }
  return null;
}

function primordials($) {
  return new Proxy({}, {
    get(_t, name) {
      const m = /^(String|Array|Function)Prototype(\w+)$/.exec(String(name));
      if (!m) return globalThis[name];
      const meth = m[2][0].toLowerCase() + m[2].slice(1);
      return (th, ...args) => $.mcall(th, meth, args);
    },
  });
}

class Loader {
  // mode: "sym" | "conc"; env: injected globals; shims: Map specifier -> exports
  constructor(mode, { $, globals }) {
    this.mode = mode;
    this.$ = $;
    this.globals = globals; // name -> value
    this.names = Object.keys(globals);
    this.reset();
  }
  reset() {
    this.cache = new Map();
    this.shims = new Map();
  }
  shim(spec, exports) {
    this.shims.set(spec, exports);
    this.shims.set(spec.startsWith("node:") ? spec.slice(5) : "node:" + spec, exports);
  }
  compile(file, text) {
    const key = this.mode + ":" + file;
    let c = codeCache.get(key);
    if (c !== undefined) return c;
    const js = build(file, text ?? fs.readFileSync(file, "utf8"), this.mode);
    const params = ["exports", "require", "module", "__filename", "__dirname", "$", ...this.names];
    const script = new vm.Script(`(function (${params.join(", ")}) {${js}\n})`, { filename: this.mode + ":" + relName(file) });
    c = script.runInThisContext();
    codeCache.set(key, c);
    return c;
  }
  loadFile(file) {
    let m = this.cache.get(file);
    if (m !== undefined) return m.exports;
    m = { exports: {} };
    this.cache.set(file, m);
    if (file.endsWith(".json")) {
      m.exports = JSON.parse(fs.readFileSync(file, "utf8"));
      return m.exports;
    }
    const c = this.compile(file);
    const dir = path.dirname(file);
    c(m.exports, (s) => this.require(s, dir), m, file, dir, this.$, ...this.names.map((n) => this.globals[n]));
    return m.exports;
  }
  require(spec, dir) {
    if (this.shims.has(spec)) return this.shims.get(spec);
    if (spec.startsWith(".") || spec.startsWith("/")) {
      const f = resolveFile(path.resolve(dir, spec));
      if (f === null) throw new Error(`cannot resolve ${spec} from ${dir}`);
      return this.loadFile(f);
    }
    const bare = spec.startsWith("node:") ? spec.slice(5) : spec;
    if (bare === "timers") {
      const { setTimeout, clearTimeout, setInterval, clearInterval, setImmediate, clearImmediate } = this.globals;
      return { setTimeout, clearTimeout, setInterval, clearInterval, setImmediate, clearImmediate };
    }
    if (bare === "string_decoder" && this.mode === "sym") return { StringDecoder: require("./bytesmodel").StringDecoder };
    if (bare === "process") return this.globals.process ?? process;
    if (bare === "path" && this.mode === "sym") return this.nodePath();
    if (INSTRUMENTED_PACKAGES.has(spec)) {
      const main = nodeRequire.resolve(spec, { paths: [REPO] });
      return this.loadFile(main);
    }
    try {
      return nodeRequire(nodeRequire.resolve(spec, { paths: [dir, REPO] }));
    } catch (e) {
      if (e.code !== "MODULE_NOT_FOUND" && !/Cannot find module/.test(e.message)) throw e;
      return nodeRequire(spec);
    }
  }
  nodePath() {
    let m = this.cache.get("node:path");
    if (m !== undefined) return m.exports;
    m = { exports: {} };
    this.cache.set("node:path", m);
    const key = "sym:node:path";
    let c = codeCache.get(key);
    if (c === undefined) {
      const src = process.binding("natives").path;
      const js = build("node:path.js", src, "sym");
      const params = ["exports", "require", "module", "primordials", "$", ...this.names.filter((n) => n !== "process"), "process"];
      c = new vm.Script(`(function (${params.join(", ")}) {${js}\n})`, { filename: "sym:node:path" }).runInThisContext();
      codeCache.set(key, c);
    }
    const req = (s) => {
      if (s === "internal/constants")
        return { CHAR_UPPERCASE_A: 65, CHAR_LOWERCASE_A: 97, CHAR_UPPERCASE_Z: 90, CHAR_LOWERCASE_Z: 122, CHAR_DOT: 46, CHAR_FORWARD_SLASH: 47, CHAR_BACKWARD_SLASH: 92, CHAR_COLON: 58, CHAR_QUESTION_MARK: 63 };
      if (s === "internal/validators")
        return {
          validateString: (v, n) => {
            if (this.$.typeOf(v) !== "string") throw new TypeError(`The "${n}" argument must be of type string.`);
          },
          validateObject: () => {},
        };
      if (s === "internal/util") return { emitExperimentalWarning() {}, getLazy: (f) => f, isWindows: false, isMacOS: false, assignFunctionName: (n, fn) => fn };
      return {};
    };
    c(m.exports, req, m, primordials(this.$), this.$, ...this.names.filter((n) => n !== "process").map((n) => this.globals[n]), this.globals.process ?? process);
    return m.exports;
  }
  // entry points used by harnesses: R("WriteTask")
  repo(name) {
    const f = resolveFile(path.join(REPO, "src", name));
    if (f === null) throw new EntryMissing(`src/${name} not found`);
    return this.loadFile(f);
  }
}
class EntryMissing extends Error {}

module.exports = { Loader, REPO, EntryMissing, resolveFile };
