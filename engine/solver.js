"use strict";
// A persistent SMT solver process driven synchronously over FIFOs.
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const cp = require("node:child_process");
const T = require("./term");

const SLOW = process.env.VERIF_SLOW;

// the newer z3 where it is installed
const DEFAULT = process.env.VERIF_SOLVER ?? ((process.env.PATH ?? "").split(":").some((d) => d !== "" && fs.existsSync(path.join(d, "z3-new"))) ? "z3-new" : "z3");

class SolverDied extends Error {}

class Solver {
  constructor(opts = {}) {
    this.bin = opts.bin ?? process.env.VERIF_SOLVER ?? DEFAULT;
    this.timeoutMs = opts.timeoutMs ?? 20000;
    this.stats = { checks: 0, sat: 0, unsat: 0, unknown: 0, ms: 0, errors: 0 };
    this.log = opts.log;
    this.start();
  }
  start() {
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), "vsolv-"));
    const fin = path.join(dir, "in");
    const fout = path.join(dir, "out");
    cp.execFileSync("mkfifo", [fin, fout]);
    const inRW = fs.openSync(fin, "r+");
    const outRW = fs.openSync(fout, "r+");
    const isCvc5 = /cvc5/.test(this.bin);
    const args = isCvc5
      ? ["--incremental", "--produce-models", "--lang=smt2", `--tlimit-per=${this.timeoutMs}`]
      : ["-in", "-smt2", "-memory:3000"];
    this.proc = cp.spawn(this.bin, args, { stdio: [inRW, outRW, "ignore"] });
    this.proc.unref();
    this.wfd = fs.openSync(fin, "w");
    this.rfd = fs.openSync(fout, fs.constants.O_RDONLY | fs.constants.O_NONBLOCK);
    fs.closeSync(this.rfd);
    this.rfd = fs.openSync(fout, "r");
    fs.closeSync(inRW);
    fs.closeSync(outRW);
    fs.rmSync(dir, { recursive: true, force: true });
    this.buf = "";
    this.chunk = Buffer.alloc(1 << 16);
    this.out = [];
    this.level = 0;
    this.defs = [new Map()]; // per level: term -> name
    this.known = new Map();
    this.declared = new Map();
    if (!isCvc5) {
      this.send(`(set-option :timeout ${this.timeoutMs})`);
      this.send("(set-option :global-declarations true)");
      this.send("(set-option :produce-models true)");
    } else {
      this.send("(set-option :global-declarations true)");
      this.send("(set-logic ALL)");
    }
    this.defined = new Set();
  }
  send(s) {
    this.out.push(s);
    if (SLOW) this.trace(s);
    if (this.log) this.log.push(s);
  }
  // VERIF_SLOW=dir: keep a copy of every query that takes more than a second
  trace(s) {
    this.tr ??= { decls: [], stack: [[]] };
    if (s === "(push 1)") this.tr.stack.push([]);
    else if (s.startsWith("(pop ")) this.tr.stack.length -= Number(s.slice(5, -1));
    else if (s.startsWith("(assert")) this.tr.stack[this.tr.stack.length - 1].push(s);
    else if (!s.startsWith("(check") && !s.startsWith("(get") && !s.startsWith("(set")) this.tr.decls.push(s);
  }
  flush() {
    if (this.out.length === 0) return;
    const data = Buffer.from(this.out.join("\n") + "\n");
    this.out = [];
    let off = 0;
    while (off < data.length) {
      try {
        off += fs.writeSync(this.wfd, data, off, data.length - off);
      } catch (e) {
        if (e.code === "EAGAIN") continue;
        throw new SolverDied("solver write: " + e.message);
      }
    }
  }
  readLine() {
    for (;;) {
      const i = this.buf.indexOf("\n");
      if (i >= 0) {
        const l = this.buf.slice(0, i);
        this.buf = this.buf.slice(i + 1);
        return l;
      }
      let n;
      try {
        n = fs.readSync(this.rfd, this.chunk, 0, this.chunk.length, null);
      } catch (e) {
        if (e.code === "EAGAIN") continue;
        throw new SolverDied("solver read: " + e.message);
      }
      if (n === 0) throw new SolverDied("solver exited");
      this.buf += this.chunk.toString("utf8", 0, n);
    }
  }
  readSexp() {
    let s = "";
    let depth = 0;
    do {
      const l = this.readLine();
      for (const c of l) {
        if (c === "(") depth++;
        else if (c === ")") depth--;
      }
      s += l + "\n";
    } while (depth > 0);
    return s;
  }
  declare(t) {
    if (this.defined.has(t.val)) return;
    this.defined.add(t.val);
    this.declared.set(t.val, t);
    this.send(`(declare-const |${t.val}| ${t.sort})`);
    const r = T.ranges.get(t.val);
    if (r && t.sort === "Int") {
      // asserted at level 0 semantics via the explorer (ranges travel with use)
    }
  }
  // Print a term, defining large shared nodes globally (global-declarations).
  print(t) {
    if (t.op === "var") {
      this.declare(t);
      return `|${t.val}|`;
    }
    if (t.op === "int" || t.op === "rat") return T.constToSmt(t);
    if (t.op === "true" || t.op === "false") return t.op;
    const k = this.known.get(t);
    if (k !== undefined) return k;
    // explicit stack not needed: regex DAG depth is bounded by string length
    const s = `(${t.op} ${t.args.map((a) => this.print(a)).join(" ")})`;
    if (t.size > 12) {
      const name = `d${t.id}`;
      this.send(`(define-fun ${name} () ${t.sort} ${s})`);
      this.known.set(t, name);
      return name;
    }
    return s;
  }
  push() {
    this.level++;
    this.send("(push 1)");
  }
  pop(n = 1) {
    if (n <= 0) return;
    this.level -= n;
    this.send(`(pop ${n})`);
  }
  assert(t) {
    const p = this.print(t);
    this.send(`(assert ${p})`);
  }
  check() {
    const t0 = process.hrtime.bigint();
    this.send("(check-sat)");
    this.flush();
    let r;
    for (;;) {
      r = this.readLine().trim();
      if (r === "") continue;
      if (r.startsWith("(error")) {
        this.stats.errors++;
        if (process.env.VERIF_DEBUG) console.error("SOLVER", r);
        // an error line is inconclusive; keep reading the actual answer
        this.lastError = r;
        continue;
      }
      break;
    }
    this.stats.checks++;
    if (SLOW && Number(process.hrtime.bigint() - t0) > 1e9) {
      fs.writeFileSync(path.join(SLOW, `q${process.pid}-${this.stats.checks}.smt2`), [...this.tr.decls, ...this.tr.stack.flat(), "(check-sat)"].join("\n") + "\n");
    }
    this.stats.ms += Number(process.hrtime.bigint() - t0) / 1e6;
    if (this.lastError) {
      this.lastError = undefined;
      r = "unknown";
    }
    if (r === "sat") this.stats.sat++;
    else if (r === "unsat") this.stats.unsat++;
    else {
      this.stats.unknown++;
      r = "unknown";
    }
    return r;
  }
  // after sat: Map name -> number | boolean | {n,d}
  model(names) {
    const m = new Map();
    if (names.length === 0) return m;
    for (const n of names) {
      const v = this.declared.get(n);
      if (v === undefined) throw new Error("model of undeclared " + n);
    }
    this.send(`(get-value (${names.map((n) => `|${n}|`).join(" ")}))`);
    this.flush();
    const s = this.readSexp();
    if (s.includes("(error")) throw new Error("get-value: " + s);
    const tree = parseSexp(s)[0];
    tree.forEach((pair, i) => m.set(names[i], value(pair[1])));
    return m;
  }
  kill() {
    try {
      this.proc.kill("SIGKILL");
    } catch {}
    try {
      fs.closeSync(this.wfd);
    } catch {}
    try {
      fs.closeSync(this.rfd);
    } catch {}
  }
}

function parseSexp(s) {
  const toks = s.match(/\(|\)|\|[^|]*\||[^\s()]+/g) ?? [];
  let i = 0;
  function p() {
    const t = toks[i++];
    if (t === "(") {
      const a = [];
      while (toks[i] !== ")") a.push(p());
      i++;
      return a;
    }
    return t;
  }
  const out = [];
  while (i < toks.length) out.push(p());
  return out;
}
function ratio(v) {
  if (typeof v === "string") {
    const m = /^(\d+)(?:\.(\d+))?$/.exec(v);
    const f = m[2] ?? "";
    return { n: BigInt(m[1] + f), d: 10n ** BigInt(f.length) };
  }
  if (v[0] === "-") {
    const r = ratio(v[1]);
    return { n: -r.n, d: r.d };
  }
  if (v[0] === "/") {
    const a = ratio(v[1]);
    const b = ratio(v[2]);
    return { n: a.n * b.d, d: a.d * b.n };
  }
  throw new Error("bad value " + JSON.stringify(v));
}
function value(v) {
  if (v === "true") return true;
  if (v === "false") return false;
  const isReal = JSON.stringify(v).includes(".") || (Array.isArray(v) && v.includes("/"));
  const r = ratio(v);
  if (!isReal) return Number(r.n);
  return r;
}

module.exports = { Solver, SolverDied, DEFAULT };
