"use strict";
// Path exploration: replay-based depth-first search over branch decisions with
// an incremental SMT solver deciding feasibility and assertions.
const path = require("node:path");
const fs = require("node:fs");
const T = require("./term");
const Y = require("./sym");
const { $, globals } = require("./rt");
const { Solver, SolverDied } = require("./solver");
const { Loader, EntryMissing } = require("./loader");
const { DateModel } = require("./datemodel");

// ------------------------------------------------------------ virtual timers
const plus = (a, b) => (Y.isSym(a) || Y.isSym(b) ? Y.arith("+", a, b) : a + b);
const less = (a, b) => (Y.isSym(a) || Y.isSym(b) ? Y.truthy(Y.compare("<", a, b)) : a < b);
class Timers {
  constructor() {
    this.now = 1_700_000_000_000;
    this.seq = 1;
    this.q = [];
    this.created = [];
  }
  set(fn, ms, args, repeat) {
    // delays may be symbolic: which timer fires next is then a branch
    const d = Y.isSym(ms) && !repeat ? Y.toNumber(ms) : Y.isSym(ms) ? Y.concretize(ms, "interval") : typeof ms === "number" && ms > 0 && Number.isFinite(ms) ? ms : 0;
    const t = { id: this.seq++, at: plus(this.now, d), fn, args, repeat: repeat ? Math.max(1, d) : 0, ms: d, unrefed: false };
    const h = {
      _t: t,
      unref: () => {
        t.unrefed = true;
        return h;
      },
      ref: () => h,
      hasRef: () => !t.unrefed,
      [Symbol.toPrimitive]: () => t.id,
      refresh: () => h,
    };
    this.q.push(t);
    this.created.push(t);
    t.handle = h;
    return h;
  }
  clear(h) {
    if (h == null) return;
    const id = typeof h === "number" ? h : h._t?.id;
    const t = this.q.find((x) => x.id === id);
    if (t) t.cleared = true;
    this.q = this.q.filter((x) => x.id !== id);
  }
  fireNext() {
    // unref'd intervals are idle housekeeping and never fire
    const q = this.q.filter((t) => !(t.repeat && t.unrefed));
    if (q.length === 0) return false;
    let best = q[0];
    for (const t of q) if (t !== best && (t.id < best.id ? !less(best.at, t.at) : less(t.at, best.at))) best = t;
    if (less(this.now, best.at)) this.now = best.at;
    if (best.repeat) best.at = plus(best.at, best.repeat);
    else this.q = this.q.filter((x) => x !== best);
    best.fired = true;
    best.fn(...(best.args ?? []));
    return true;
  }
}
let timers = new Timers();
const timerGlobals = {
  setTimeout: (fn, ms, ...args) => timers.set(fn, ms, args, false),
  clearTimeout: (h) => timers.clear(h),
  setInterval: (fn, ms, ...args) => timers.set(fn, ms, args, true),
  clearInterval: (h) => timers.clear(h),
  setImmediate: (fn, ...args) => timers.set(fn, 0, args, false),
  clearImmediate: (h) => timers.clear(h),
};
DateModel.nowHook = () => timers.now;
class ConcDate extends Date {
  constructor(...a) {
    if (a.length === 0) super(timers.now);
    else super(...a);
  }
  static now() {
    return timers.now;
  }
}
Object.defineProperty(ConcDate, "name", { value: "Date" });

const quietConsole = Object.assign(Object.create(console), { log() {}, error() {}, warn() {}, info() {}, debug() {} });
// The code under test never signals a real process: kill() asks the harness's
// stand-in (h.onKill), and knows no process without one.
let killHook = null;
let procOverlay = null; // h.proc({ platform, resourcesPath, env, ... })
const guardedProcess = new Proxy(process, {
  get(t, k) {
    if (k === "kill" || k === "_kill")
      return (pid, sig) => {
        if (killHook !== null) return killHook(pid, sig);
        throw Object.assign(new Error("kill ESRCH"), { code: "ESRCH" });
      };
    if (k === "exit" || k === "abort" || k === "reallyExit")
      return () => {
        throw new Error("the code under test called process." + k);
      };
    if (procOverlay !== null && Object.hasOwn(procOverlay, k)) return procOverlay[k];
    const v = Reflect.get(t, k, t);
    return typeof v === "function" ? v.bind(t) : v;
  },
});
const symLoader = new Loader("sym", { $, globals: { ...globals, ...timerGlobals, console: quietConsole, process: guardedProcess } });
const concLoader = new Loader("conc", { $: null, globals: { Date: ConcDate, ...timerGlobals, console: quietConsole, process: guardedProcess } });

// Listeners the code under test adds to `process` are removed after each run:
// they would keep every instance alive.
function listenerGuard() {
  const before = new Map(process.eventNames().map((n) => [n, process.rawListeners(n)]));
  return () => {
    for (const n of process.eventNames()) {
      const old = before.get(n) ?? [];
      for (const l of process.rawListeners(n)) if (!old.includes(l)) process.removeListener(n, l);
    }
  };
}

// drain microtasks and virtual timers until `p` settles
async function settle(p, maxTicks = 2000) {
  let done = false;
  let res;
  p.then(
    (v) => {
      done = true;
      res = { ok: true, v };
    },
    (e) => {
      done = true;
      res = { ok: false, e };
    },
  );
  for (let i = 0; i < maxTicks; i++) {
    await new Promise((r) => setImmediate(r));
    if (done) return res;
    let threw;
    try {
      if (!timers.fireNext()) {
        await new Promise((r) => setImmediate(r));
        await new Promise((r) => setImmediate(r));
        if (done) return res;
        if (timers.q.every((t) => t.repeat && t.unrefed)) return { ok: false, stuck: true, e: new Error("harness never settles: no pending timer and no runnable task") };
      }
    } catch (e) {
      threw = e;
    }
    if (threw instanceof Y.Abort) return { ok: false, e: threw };
    if (threw) timers.uncaught = threw;
  }
  return { ok: false, stuck: true, e: new Error("tick bound reached") };
}

// ------------------------------------------------------------------ symbolic
class Explorer {
  constructor(harness, opts = {}) {
    this.harness = harness;
    this.opts = opts;
    this.maxSteps = harness.maxSteps ?? 300000;
    this.maxDecisions = harness.maxDecisions ?? 4000;
    this.pinLimit = harness.pinLimit ?? 4;
    this.solver = new Solver({ timeoutMs: harness.solverTimeoutMs ?? 20000 });
    this.stats = { paths: 0, decisions: 0, forks: 0, forced: 0, asserts: 0, assertQueries: 0, discharged: 0, unknown: 0, truncated: 0, pinned: 0, replays: 0, replayMismatch: 0, dead: 0 };
    this.notes = new Map();
    this.entered = new Set();
    this.reached = new Map();
    this.violations = [];
    this.samples = [];
    this.engineErrors = [];
    this.log = [];
    this.replayLen = 0;
    this.importLen = 0;
    this.model = null;
  }
  // ---- context interface used by sym.js
  note(s) {
    this.notes.set(s, (this.notes.get(s) ?? 0) + 1);
  }
  startPath() {
    this.pos = 0;
    this.steps = 0;
    this.aborted = null;
    this.markers = [];
    this.markerIds = new Map();
    this.digits = new Map();
    this.digitRuns = new Map();
    this.civil = new Map();
    this.dateBases = [];
    this.dateFields = new Map();
    this.freshCount = 0;
    this.pc = new Set();
    this.vars = []; // variable names in creation order
    this.inputs = new Map(); // input name -> descriptor
    this.observed = [];
    this.pathReached = new Set();
    this.pathTruncated = false;
    this.pathPinned = false;
    this.userVars = new Set();
  }
  abort(reason, detail) {
    this.aborted = new Y.Abort(reason, detail);
    throw this.aborted;
  }
  marker(s) {
    const cs = typeof s === "string" ? null : s.cs;
    if (cs === null) return s;
    const key = cs.map((c) => (typeof c === "number" ? c : "t" + c.id)).join(",");
    let id = this.markerIds.get(key);
    if (id === undefined) {
      id = this.markers.push(s) - 1;
      this.markerIds.set(key, id);
    }
    return Y.RAW0 + id + Y.RAW1;
  }
  jsonMarker(s) {
    const m = this.marker(s);
    return m.replace(Y.RAW0, "\uE002").replace(Y.RAW1, "\uE003");
  }
  numMarker(s) {
    const id = this.markers.push(s) - 1;
    return `\uE004${id}\uE005`;
  }
  active() {
    return this.pos >= this.replayLen || this.pos < this.importLen;
  }
  // A variable with a fixed range; the range is part of its identity.
  mkVar(name, lo, hi, sort = "Int") {
    const vname = sort === "Int" ? `${name}~${lo}~${hi}` : name;
    if (sort === "Int") T.setRange(vname, lo, hi);
    const v = T.variable(vname, sort);
    this.vars.push(vname);
    if (this.assertsNow()) {
      if (sort === "Int") {
        this.solver.send(`(assert (and (<= ${smtInt(lo)} ${this.solver.print(v)}) (<= ${this.solver.print(v)} ${smtInt(hi)})))`);
      } else this.solver.print(v);
    }
    if (this.model !== null && !this.model.has(vname)) {
      if (sort === "Int") this.model.set(vname, lo <= 0 && hi >= 0 ? 0 : lo);
      else if (sort === "Bool") this.model.set(vname, false);
    }
    return v;
  }
  fresh(prefix, lo, hi) {
    return this.mkVar(`${prefix}!${this.freshCount++}`, lo, hi);
  }
  // true when solver assertions must be sent for the current position
  assertsNow() {
    return this.pos >= this.replayLen || this.importing;
  }
  assertTerm(t, definitional = false) {
    if (t === T.TRUE) return;
    if (this.assertsNow()) this.solver.assert(t);
    this.addPc(t);
    if (this.model !== null) {
      const v = T.evaluate(t, this.model);
      if (v !== true) this.model = null;
    }
    if (!definitional && this.pos >= this.replayLen) {
      if (this.model === null) {
        const r = this.solver.check();
        if (r === "unsat") {
          this.stats.dead++;
          this.abort("infeasible");
        }
        if (r === "sat") this.model = this.solver.model(this.vars);
      }
    }
  }
  ensureModel() {
    if (this.model === null) {
      const r = this.solver.check();
      if (r === "unsat") {
        this.stats.dead++;
        this.abort("infeasible");
      }
      if (r === "unknown") {
        this.stats.unknown++;
        return false;
      }
      this.model = this.solver.model(this.vars);
    }
    return true;
  }
  addPc(t) {
    if (t.op === "and") for (const a of t.args) this.pc.add(a);
    this.pc.add(t);
  }
  decide(c) {
    if (c === T.TRUE) return true;
    if (c === T.FALSE) return false;
    if (this.aborted) throw this.aborted;
    if (this.pc.has(c)) return true;
    const nc = T.not(c);
    if (this.pc.has(nc)) return false;
    const pos = this.pos;
    if (pos < this.log.length) {
      const e = this.log[pos];
      if (e.kind !== "dec" || (e.term !== undefined && e.term !== c)) this.abort("nondeterministic replay", { pos });
      const t = e.val ? c : nc;
      if (this.importing && e.term === undefined) {
        e.term = c;
        if (!e.forced) {
          this.solver.push();
          this.solver.assert(t);
        }
      }
      this.pos++;
      this.leaveReplay();
      this.addPc(t);
      if (this.model !== null && T.evaluate(t, this.model) !== true) this.model = null;
      return e.val;
    }
    if (this.log.length >= this.maxDecisions) {
      this.pathTruncated = true;
      this.abort("decision bound");
    }
    this.stats.decisions++;
    let first = null;
    if (this.ensureModel()) {
      const v = T.evaluate(c, this.model);
      if (v !== undefined) first = v;
    }
    let otherModel = null;
    let feasible;
    if (first === null) {
      const rT = this.query(c);
      const rF = this.query(nc);
      if (rT.r === "unsat" && rF.r === "unsat") {
        this.stats.dead++;
        this.abort("infeasible");
      }
      if (rT.r === "unsat") return this.forced(c, false, rF.model);
      if (rF.r === "unsat") return this.forced(c, true, rT.model);
      first = true;
      otherModel = rF.model;
      this.model = rT.model;
      feasible = true;
    } else {
      const o = this.query(first ? nc : c);
      if (o.r === "unsat") return this.forced(c, first, this.model);
      otherModel = o.model;
      feasible = true;
    }
    const t = first ? c : nc;
    this.log.push({ kind: "dec", term: c, val: first, forced: false, pending: true, otherModel });
    this.stats.forks++;
    this.pos++;
    this.solver.push();
    this.solver.assert(t);
    this.addPc(t);
    return first;
  }
  leaveReplay() {
    if (this.importing && this.pos >= this.importLen) {
      this.importing = false;
      this.importLen = 0;
    }
    if (this.pos === this.replayLen && this.nextModel !== undefined) {
      this.model = this.nextModel;
      this.nextModel = undefined;
      // variables created after the stored model keep defaults
      if (this.model !== null) for (const v of this.vars) if (!this.model.has(v)) this.model = null;
    }
  }
  forced(c, val, model) {
    this.log.push({ kind: "dec", term: c, val, forced: true, pending: false });
    this.stats.forced++;
    this.pos++;
    this.addPc(val ? c : T.not(c));
    this.model = model;
    return val;
  }
  query(t) {
    this.solver.push();
    this.solver.assert(t);
    const r = this.solver.check();
    let model = null;
    if (r === "sat") model = this.solver.model(this.vars);
    if (r === "unknown") this.stats.unknown++;
    this.solver.pop();
    return { r, model };
  }
  // choose a value from the current model, recorded for replay
  pick(t) {
    const pos = this.pos;
    if (pos < this.log.length) {
      const e = this.log[pos];
      if (e.kind !== "val") this.abort("nondeterministic replay", { pos });
      this.pos++;
      this.leaveReplay();
      return e.val;
    }
    let v = this.ensureModel() ? T.evaluate(t, this.model) : undefined;
    if (v === undefined) {
      const aux = this.mkVar(`pick!${this.freshCount++}`, -1e12, 1e12);
      this.solver.push();
      this.solver.assert(T.eq(aux, t));
      const r = this.solver.check();
      if (r !== "sat") {
        this.solver.pop();
        this.vars.pop();
        this.abort(r === "unsat" ? "infeasible" : "solver unknown");
      }
      v = this.solver.model([aux.val]).get(aux.val);
      this.solver.pop();
      this.vars.pop();
    }
    this.log.push({ kind: "val", val: v, pending: false, forced: true });
    this.pos++;
    return v;
  }
  pin(t, why) {
    if (t.op === "int") return t.val;
    // small ranges are enumerated completely
    const r = T.rangeOf(t);
    const limit = r && r[1] - r[0] < 64 ? 64 : this.pinLimit;
    for (let i = 0; i < limit; i++) {
      const v = this.pick(t);
      if (this.decide(T.eq(t, T.int(v)))) return v;
    }
    const v = this.pick(t);
    this.notes.set("narrowed: " + why, (this.notes.get("narrowed: " + why) ?? 0) + 1);
    this.pathPinned = true;
    this.assertTerm(T.eq(t, T.int(v)));
    return v;
  }
  pinReal(t, why) {
    // integers first, then a rational from the model
    const fl = T.floor(t);
    if (this.decide(T.eq(T.toReal(fl), t))) return this.pin(fl, why);
    const pos = this.pos;
    let v;
    if (pos < this.log.length) {
      v = this.log[pos].val;
      this.pos++;
      this.leaveReplay();
    } else {
      const aux = this.mkVar(`pickr!${this.freshCount++}`, 0, 0, "Real");
      this.solver.push();
      this.solver.assert(T.eq(aux, t));
      const r = this.solver.check();
      if (r !== "sat") {
        this.solver.pop();
        this.vars.pop();
        this.abort("solver " + r);
      }
      v = this.solver.model([aux.val]).get(aux.val);
      this.solver.pop();
      this.vars.pop();
      this.log.push({ kind: "val", val: v, pending: false, forced: true });
      this.pos++;
    }
    this.note("narrowed: " + why);
    this.pathPinned = true;
    this.assertTerm(T.eq(t, T.rat(v.n, v.d)));
    return Number(v.n) / Number(v.d);
  }
  // ---- assertions
  assertProp(cond, msg) {
    this.stats.asserts++;
    const t = Y.truthTerm(cond);
    if (t === T.TRUE) {
      this.stats.discharged++;
      return;
    }
    if (this.pos < this.replayLen) {
      // already discharged on the run that created this prefix
      this.addPc(t);
      return;
    }
    if (this.pc.has(t)) {
      this.stats.discharged++;
      return;
    }
    this.stats.assertQueries++;
    let r;
    let model = null;
    if (t === T.FALSE) {
      r = this.solver.check();
      if (r === "sat") model = this.solver.model(this.vars);
    } else {
      const q = this.query(T.not(t));
      r = q.r;
      model = q.model;
    }
    if (r === "unsat") {
      this.stats.discharged++;
      if (t === T.FALSE) this.abort("infeasible");
      this.addPc(t);
      return;
    }
    if (r === "unknown") {
      this.stats.unknown++;
      this.note("assertion undecided by the solver: " + msg);
      return;
    }
    this.counterexample(msg, model);
    if (t === T.FALSE) this.abort("violated", msg);
    this.assertTerm(t);
  }
  concretiseInputs(model) {
    const out = {};
    for (const [name, d] of this.inputs) out[name] = d.get(model);
    return out;
  }
  counterexample(msg, model) {
    this.violations.push({ msg, inputs: this.concretiseInputs(model), pinned: this.pathPinned });
  }
  // ---- harness API
  api() {
    const self = this;
    const h = {
      symbolic: true,
      tier: this.opts.tier ?? "quick",
      int(name, lo, hi) {
        const v = self.mkVar("i:" + name, lo, hi);
        self.inputs.set(name, { get: (m) => m.get(v.val) ?? lo });
        return lo === hi ? lo : Y.mkNum(v);
      },
      bool(name) {
        const v = self.mkVar("b:" + name, 0, 0, "Bool");
        self.inputs.set(name, { get: (m) => m.get(v.val) ?? false });
        return self.decide(v);
      },
      symBool(name) {
        const v = self.mkVar("b:" + name, 0, 0, "Bool");
        self.inputs.set(name, { get: (m) => m.get(v.val) ?? false });
        return Y.mkBool(v);
      },
      choice(name, n) {
        if (Array.isArray(n)) return n[h.choice(name, n.length)];
        const v = self.mkVar("c:" + name, 0, n - 1);
        self.inputs.set(name, { get: (m) => m.get(v.val) ?? 0 });
        for (let i = 0; i < n - 1; i++) if (self.decide(T.eq(v, T.int(i)))) return i;
        return n - 1;
      },
      // symbolic string: opts {min,max,ranges:[[lo,hi]...]}
      str(name, opts = {}) {
        const min = opts.min ?? 0;
        const max = opts.max ?? 4;
        const len = min === max ? min : min + h.choice(name + ".len", max - min + 1);
        const rs = typeof opts.ranges === "string" ? rangesOf(opts.ranges) : opts.ranges ?? [[0, 0xffff]];
        for (let i = 0; i < rs.length; i++) if (rs[i][0] > rs[i][1] || (i > 0 && rs[i][0] <= rs[i - 1][1])) throw new Error("ranges of " + name + " are not sorted");
        const lo = rs[0][0];
        const hi = rs[rs.length - 1][1];
        const cs = [];
        for (let i = 0; i < len; i++) {
          const v = self.mkVar(`s:${name}[${i}]`, lo, hi);
          if (rs.length > 1) self.assertTerm(Y.inSet(v, rs), true);
          cs.push(v);
        }
        self.inputs.set(name, { get: (m) => String.fromCharCode(...cs.map((c) => (c.op === "int" ? c.val : m.get(c.val) ?? lo))) });
        return Y.mkStr(cs);
      },
      // n / 10^places with n symbolic: a decimal number
      dec(name, lo, hi, places) {
        const v = self.mkVar("d:" + name, lo, hi);
        self.inputs.set(name, { get: (m) => (m.get(v.val) ?? lo) / 10 ** places });
        return Y.mkNum(T.mul(T.rat(1, 10n ** BigInt(places)), T.toReal(v)));
      },
      symObj(entries) {
        return symObject(entries);
      },
      jsonText(v) {
        return globals.JSON.stringify(v);
      },
      assume(c) {
        const t = Y.truthTerm(c);
        if (t === T.FALSE) self.abort("assumption");
        self.assertTerm(t);
        if (self.pos >= self.replayLen && self.model === null) self.ensureModel();
      },
      assert(c, msg) {
        self.assertProp(c, msg);
      },
      fail(msg) {
        self.assertProp(false, msg);
      },
      reach(label) {
        self.pathReached.add(label);
      },
      observe(label, v) {
        self.observed.push([label, v]);
      },
      and(...xs) {
        return Y.mkBool(T.and(...xs.map(Y.truthTerm)));
      },
      or(...xs) {
        return Y.mkBool(T.or(...xs.map(Y.truthTerm)));
      },
      not(x) {
        return Y.mkBool(T.not(Y.truthTerm(x)));
      },
      eq(a, b) {
        return Y.mkBool(Y.sameTerm(a, b));
      },
      abs(x) {
        return globals.Math.abs(x);
      },
      // a number chosen by a condition, without branching
      ite(c, a, b) {
        return Y.mkNum(T.ite(Y.truthTerm(c), Y.numTerm(a), Y.numTerm(b)));
      },
      isSym: (x) => Y.isSym(x),
      R: (name) => symLoader.repo(name),
      pkg: (name) => symLoader.require(name, "/repo/src"),
      shim: (spec, ex) => symLoader.shim(spec, ex),
      entry(mod, name) {
        const m = symLoader.repo(mod);
        if (m[name] === undefined) throw new EntryMissing(`${mod}.${name}`);
        return m[name];
      },
      timers: () => timers,
      onKill: (f) => (killHook = f),
      proc: (o) => (procOverlay = o),
      caught: (e) => $.c(e),
      JSON: globals.JSON,
      globals,
    };
    return h;
  }
  // ---- exploration
  async runPath(fn) {
    const unlisten = listenerGuard();
    try {
      return await this.runPath1(fn);
    } finally {
      unlisten();
    }
  }
  async runPath1(fn) {
    this.startPath();
    timers = new Timers();
    killHook = null;
    procOverlay = null;
    symLoader.reset();
    Y.setContext(this);
    let outcome;
    try {
      const p = fn(this.api());
      if (p && typeof p.then === "function") {
        const r = await settle(p);
        if (this.aborted) outcome = { abort: this.aborted };
        else if (r.ok) outcome = { ok: true };
        else outcome = { error: r.e };
      } else outcome = { ok: true };
    } catch (e) {
      outcome = { error: e };
    }
    if (this.aborted) outcome = { abort: this.aborted };
    if (outcome.error instanceof Y.Abort) outcome = { abort: outcome.error };
    if (outcome.error instanceof SolverDied) {
      throw outcome.error;
    }
    return outcome;
  }
  backtrack() {
    // find the deepest pending decision
    let i = this.log.length - 1;
    while (i >= this.rootLen && !this.log[i].pending) i--;
    if (i < this.rootLen) return false;
    let levels = 0;
    for (let j = i; j < this.log.length; j++) if (this.log[j].kind === "dec" && !this.log[j].forced) levels++;
    const e = this.log[i];
    this.solver.pop(levels);
    e.val = !e.val;
    e.pending = false;
    this.log.length = i + 1;
    this.solver.push();
    this.solver.assert(e.val ? e.term : T.not(e.term));
    this.replayLen = i + 1;
    this.nextModel = e.otherModel ?? null;
    e.otherModel = null;
    this.model = null;
    return true;
  }
  // give away the shallowest pending alternative as a prefix
  donate() {
    for (let i = this.rootLen; i < this.log.length; i++) {
      const e = this.log[i];
      if (e.pending) {
        e.pending = false;
        const prefix = this.log.slice(0, i).map(ser);
        prefix.push({ kind: "dec", val: !e.val, forced: false });
        return prefix;
      }
    }
    return null;
  }
  async explore(prefix, hooks = {}) {
    this.log = (prefix ?? []).map((e) => ({ ...deser(e), pending: false, term: undefined }));
    this.rootLen = this.log.length;
    this.importLen = this.log.length;
    this.replayLen = this.log.length;
    this.importing = this.log.length > 0;
    this.model = null;
    this.nextModel = undefined;
    if (this.solver.level > 0) this.solver.pop(this.solver.level);
    const max = this.opts.maxPaths ?? Infinity;
    const deadline = this.opts.deadline ?? Infinity;
    for (;;) {
      const run = this.harness.symRun;
      const outcome = await this.runPath(run);
      this.stats.paths++;
      await this.finishPath(outcome);
      Y.setContext(null);
      if (hooks.tick && (await hooks.tick(this)) === "stop") return "stopped";
      if (this.violations.length >= (this.opts.maxViolations ?? 40)) return "violations";
      if (this.stats.paths >= max || Date.now() > deadline) {
        if (this.log.some((e, i) => i >= this.rootLen && e.pending)) return "budget";
      }
      if (!this.backtrack()) return "done";
      if (T.tableSize() > 1_500_000) this.recycle();
    }
  }
  recycle() {
    // Terms referenced by the decision log must survive; only used when huge.
    this.note("term table large: " + T.tableSize());
  }
  async finishPath(outcome) {
    if (outcome.abort) {
      const r = outcome.abort.reason;
      if (r === "infeasible" || r === "assumption" || r === "violated") return;
      this.stats.truncated++;
      this.note("path cut: " + r);
      if (r === "nondeterministic replay") this.engineErrors.push("nondeterministic replay at " + JSON.stringify(outcome.abort.detail));
      return;
    }
    if (outcome.error) {
      const e = outcome.error;
      if (e instanceof EntryMissing) {
        this.note("entry point missing: " + e.message);
        this.stats.truncated++;
        return;
      }
      // an uncaught exception is a failed check on this path: report its model
      if (!this.ensureModelSafe()) return;
      let msg;
      try {
        msg = "uncaught " + (e && e.stack ? String(e.stack).split("\n").slice(0, process.env.VERIF_DEBUG ? 12 : 3).join(" | ") : String(e));
      } catch {
        msg = "uncaught exception";
      }
      this.counterexample(msg, this.model);
      return;
    }
    if (this.pathPinned) this.stats.pinned++;
    if (this.pathTruncated) this.stats.truncated++;
    // a label counts once a model of such a path reaches it on the real code
    let unconfirmed = false;
    for (const l of this.pathReached) {
      if (this.reached.has(l)) this.reached.set(l, this.reached.get(l) + 1);
      else unconfirmed = true;
    }
    // witness replay on the un-instrumented code
    const n = this.stats.paths;
    const every = this.opts.witnessEvery ?? 1;
    const wmax = this.opts.witnessMax ?? 60;
    if (this.harness.concRun && (unconfirmed || (this.stats.replays < wmax && (n <= 20 || n % every === 0)))) {
      if (!this.ensureModelSafe()) return;
      const inputs = this.concretiseInputs(this.model);
      let expected = null;
      try {
        expected = this.observed.map(([l, v]) => [l, evalDeep(v, this.model)]);
      } catch {
        expected = null;
      }
      Y.setContext(null);
      const res = await replay(this.harness, inputs, this.opts.tier);
      this.stats.replays++;
      for (const l of this.pathReached) if (!this.reached.has(l) && res.reached.has(l)) this.reached.set(l, 1);
      if (this.samples.length < 3) this.samples.push({ inputs, observed: expected ?? undefined });
      if (res.failures.length > 0) {
        this.violations.push({ msg: res.failures[0], inputs, replayed: true, fromWitness: true });
      } else if (expected !== null) {
        const got = JSON.stringify(res.observed);
        const exp = JSON.stringify(expected);
        if (got !== exp && !near(JSON.parse(got), JSON.parse(exp))) {
          this.stats.replayMismatch++;
          if (this.engineErrors.length < 5) this.engineErrors.push(`replay differs: inputs=${JSON.stringify(inputs)} symbolic=${exp.slice(0, 500)} real=${got.slice(0, 500)}`);
        }
      }
    }
  }
  ensureModelSafe() {
    try {
      Y.setContext(this);
      this.aborted = null;
      // the model must cover every variable of the path
      if (this.model !== null) for (const v of this.vars) if (!this.model.has(v)) this.model = null;
      return this.ensureModel();
    } catch (e) {
      if (e instanceof Y.Abort) return false;
      throw e;
    }
  }
}
const ser = (e) => ({ kind: e.kind, val: e.kind === "val" && typeof e.val === "object" ? { n: String(e.val.n), d: String(e.val.d) } : e.val, forced: e.forced });
const deser = (e) => ({ kind: e.kind, val: e.kind === "val" && typeof e.val === "object" ? { n: BigInt(e.val.n), d: BigInt(e.val.d) } : e.val, forced: e.forced });
const smtInt = (n) => (n < 0 ? `(- ${-n})` : String(n));

function rangesOf(chars) {
  const cs = [...new Set([...chars].map((c) => c.charCodeAt(0)))].sort((a, b) => a - b);
  const out = [];
  for (const c of cs) {
    const l = out[out.length - 1];
    if (l && l[1] === c - 1) l[1] = c;
    else out.push([c, c]);
  }
  return out;
}

function evalDeep(v, model, depth = 8) {
  if (typeof v === "string") v = Y.lift(v);
  if (v instanceof Y.SymBool) return T.evaluate(v.t, model);
  if (v instanceof Y.SymNum) {
    const x = T.evaluate(v.t, model);
    return x !== undefined && typeof x === "object" ? Number(x.n) / Number(x.d) : x;
  }
  if (v instanceof Y.SymStr) return String.fromCharCode(...v.cs.map((c) => (typeof c === "number" ? c : T.evaluate(c, model))));
  if (v === null || typeof v !== "object" || depth === 0) return v;
  if (Array.isArray(v)) return v.map((x) => evalDeep(x, model, depth - 1));
  if (v instanceof Error) return { error: evalDeep(v.message, model, depth - 1) };
  const o = {};
  for (const k of Object.keys(v)) o[evalDeep(k, model)] = evalDeep(v[k], model, depth - 1);
  return o;
}

// structural equality with tolerance for non-integer numbers
function near(a, b) {
  if (typeof a === "number" && typeof b === "number") return Math.abs(a - b) <= 1e-9 * Math.max(1, Math.abs(a));
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return a === b;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a);
  const kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && near(a[k], b[k]));
}

// An input object some of whose keys are symbolic.
function symObject(entries) {
  const target = {};
  const keyOf = [];
  for (const [k, v] of entries) {
    const m = Y.isSym(k) ? Y.getContext().marker(k) : k;
    Object.defineProperty(target, m, { value: v, writable: true, enumerable: true, configurable: true });
    keyOf.push(m);
  }
  const resolve = (t, k) => {
    if (typeof k !== "string" || Object.prototype.hasOwnProperty.call(t, k)) return k;
    const l = Y.lift(k);
    for (const m of Object.keys(t)) {
      if ((Y.hasMarker(m) || Y.isSym(l)) && Y.truthy(Y.mkBool(Y.eqTerm(Y.lift(m), l)))) return m;
    }
    return k;
  };
  return new Proxy(target, {
    get: (t, k) => t[resolve(t, k)],
    has: (t, k) => resolve(t, k) in t,
    set: (t, k, v) => {
      t[resolve(t, k)] = v;
      return true;
    },
    deleteProperty: (t, k) => delete t[resolve(t, k)],
    getOwnPropertyDescriptor: (t, k) => Object.getOwnPropertyDescriptor(t, resolve(t, k)),
  });
}

// ------------------------------------------------------------------ concrete
class AssumptionFailed extends Error {}
async function replay(harness, inputs, tier = "quick") {
  const unlisten = listenerGuard();
  try {
    return await replay1(harness, inputs, tier);
  } finally {
    unlisten();
  }
}
async function replay1(harness, inputs, tier) {
  const failures = [];
  const observed = [];
  const reached = new Set();
  timers = new Timers();
  killHook = null;
  procOverlay = null;
  concLoader.reset();
  Y.setContext(null);
  const inp = (name, dflt) => (Object.prototype.hasOwnProperty.call(inputs, name) ? inputs[name] : dflt);
  const h = {
    symbolic: false,
    tier,
    int: (name, lo) => inp(name, lo),
    bool: (name) => inp(name, false),
    symBool: (name) => inp(name, false),
    choice: (name, n) => (Array.isArray(n) ? n[inp(name, 0)] : inp(name, 0)),
    str: (name) => inp(name, ""),
    dec: (name, lo, hi, places) => inp(name, lo / 10 ** places),
    symObj: (entries) => {
      const o = {};
      for (const [k, v] of entries) Object.defineProperty(o, k, { value: v, writable: true, enumerable: true, configurable: true });
      return o;
    },
    jsonText: (v) => JSON.stringify(v),
    assume(c) {
      if (!c) throw new AssumptionFailed();
    },
    assert(c, msg) {
      if (!c) failures.push(msg);
    },
    fail(msg) {
      failures.push(msg);
    },
    reach: (l) => reached.add(l),
    observe: (l, v) => observed.push([l, v]),
    and: (...xs) => xs.every(Boolean),
    or: (...xs) => xs.some(Boolean),
    not: (x) => !x,
    eq: (a, b) => Object.is(a, b) || a === b,
    abs: Math.abs,
    ite: (c, a, b) => (c ? a : b),
    isSym: () => false,
    R: (name) => concLoader.repo(name),
    pkg: (name) => concLoader.require(name, "/repo/src"),
    shim: (spec, ex) => concLoader.shim(spec, ex),
    entry(mod, name) {
      const m = concLoader.repo(mod);
      if (m[name] === undefined) throw new EntryMissing(`${mod}.${name}`);
      return m[name];
    },
    timers: () => timers,
    onKill: (f) => (killHook = f),
    proc: (o) => (procOverlay = o),
    caught: (e) => e,
    JSON,
    globals: { Date: ConcDate, Math, Number, String, JSON, Set, Map, Object, Uint8Array, Buffer },
  };
  try {
    const p = harness.concRun(h);
    if (p && typeof p.then === "function") {
      const r = await settle(p);
      if (!r.ok) throw r.e;
    }
  } catch (e) {
    if (e instanceof AssumptionFailed) return { failures, observed: evalPlain(observed), reached, assumption: true };
    if (e instanceof EntryMissing) return { failures, observed: evalPlain(observed), reached };
    failures.push("uncaught " + (e && e.stack ? String(e.stack).split("\n").slice(0, 3).join(" | ") : String(e)));
  }
  return { failures, observed: evalPlain(observed), reached };
}
function evalPlain(v, depth = 9) {
  if (v === null || typeof v !== "object" || depth === 0) return v;
  if (Array.isArray(v)) return v.map((x) => evalPlain(x, depth - 1));
  if (v instanceof Error) return { error: v.message };
  const o = {};
  for (const k of Object.keys(v)) o[k] = evalPlain(v[k], depth - 1);
  return o;
}

// load a harness file in both modes; returns Map name -> harness
function loadHarness(file) {
  const sym = symLoader.loadFile(file);
  symLoader.reset();
  const conc = concLoader.loadFile(file);
  concLoader.reset();
  const out = [];
  for (const k of Object.keys(sym.harnesses)) {
    const s = sym.harnesses[k];
    out.push({ ...s, name: k, symRun: s.run, concRun: conc.harnesses[k].run });
  }
  return { meta: conc, harnesses: out };
}

module.exports = { Explorer, replay, loadHarness };
