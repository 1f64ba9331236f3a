"use strict";
const { fakeExifTool, outcome } = require("./lib/et");
exports.assumptions = ["the process pool's end() settles when, and as, the harness says; its own errors do not mention a timeout"];
function setup(h, opts) {
  const errors = [];
  const logger = { trace() {}, debug() {}, info() {}, warn() {}, error: (m) => errors.push(m) };
  const { et, sent } = fakeExifTool(h, { ...opts, logger: () => logger });
  const calls = [];
  let ended = false;
  const T = h.timers();
  // graceful end: settles after `gms` (or never), forceful after `fms`
  const plan = {};
  const after = (ms, how, err) =>
    how === "never"
      ? new Promise(() => {})
      : new Promise((res, rej) => {
          const done = () => (how === "ok" ? res(undefined) : rej(err));
          if (ms === 0) done();
          else T.set(done, ms, [], false);
        });
  et.batchCluster.end = (g) => {
    calls.push(["end", g, T.now]);
    ended = true;
    const p = g ? after(plan.gms, plan.g, plan.gerr) : after(plan.fms, plan.f, plan.ferr);
    return { promise: p };
  };
  et.batchCluster.closeChildProcesses = (g) => {
    calls.push(["close", g, T.now]);
    if (plan.closeThrows) throw new Error("close failed");
    return Promise.resolve();
  };
  // (whether something is still running makes no difference)
  const pending = h.choice("pending", [0, 2]);
  for (const k of ["pendingTaskCount", "busyProcCount", "spawnedProcCount"]) Object.defineProperty(et.batchCluster, k, { configurable: true, get: () => pending });
  Object.defineProperty(et.batchCluster, "ended", { configurable: true, get: () => ended });
  return { et, calls, errors, plan, T, setEnded: () => (ended = true), sent };
}
const harnesses = {};
harnesses.async = {
  claim: "asynchronous disposal ends gracefully once; asks for forceful cleanup exactly when that has not finished within asyncDisposalTimeoutMs; resolves when either finished, and otherwise rejects with the graceful end's own error or the timeout; leaves no timer running",
  bounds: "graceful end succeeding or failing after any 0..10000 ms or never, forceful likewise; timeout any 0..10000 ms or the default; already ended or not",
  reach: ["graceful", "failed", "forced", "forcedFailed", "already"],
  async run(h) {
    const tms = h.bool("default") ? undefined : h.int("tms", 0, 10000);
    const { et, calls, plan, T, setEnded } = setup(h, tms === undefined ? {} : { asyncDisposalTimeoutMs: tms });
    const limit = tms === undefined ? 5000 : tms;
    if (h.bool("already")) {
      setEnded();
      const r = await outcome(() => et[Symbol.asyncDispose]());
      h.reach("already");
      h.assert(r.ok && calls.length === 0, "an ended instance was ended again");
      return;
    }
    plan.g = h.choice("g", ["ok", "fail", "never"]);
    plan.gms = h.int("gms", 0, 10000);
    h.assume(plan.gms !== limit);
    plan.gerr = new Error("pool broke");
    plan.f = h.choice("f", ["ok", "fail"]);
    plan.fms = h.int("fms", 0, 10000);
    plan.ferr = new Error("still broke");
    const t0 = T.now;
    const r = await outcome(() => et[Symbol.asyncDispose]());
    const inTime = plan.g !== "never" && plan.gms < limit;
    h.assert(et.ended, "not ended");
    h.assert(calls.length >= 1 && calls[0][0] === "end" && calls[0][1] === true, "not ended gracefully first");
    const forced = calls.slice(1);
    if (inTime) {
      h.assert(forced.length === 0, "forceful cleanup although the graceful one finished in time");
      h.reach(plan.g === "ok" ? "graceful" : "failed");
      h.assert(r.ok === (plan.g === "ok"), "the outcome is not the graceful end's");
      if (!r.ok) h.assert(r.error === plan.gerr, "another error was reported");
    } else {
      h.assert(forced.length === 1 && forced[0][1] === false, "forceful cleanup was not requested once after the timeout");
      if (forced.length === 1) h.assert(forced[0][2] - t0 === limit, "forceful cleanup was requested at another time");
      h.reach(plan.f === "ok" ? "forced" : "forcedFailed");
      h.assert(r.ok === (plan.f === "ok"), "the outcome is not the forceful cleanup's");
      if (!r.ok) h.assert(r.error instanceof Error && /timeout/.test(r.error.message), "the error does not mention the timeout");
    }
    h.assert(T.created.filter((t) => !t.fired && !t.cleared && t.repeat === 0).length <= (plan.g === "never" || inTime ? 0 : 1), "a timer was left running");
  },
};
harnesses.sync = {
  claim: "synchronous disposal ends gracefully once and never throws; forceful cleanup is requested exactly when that has not finished within disposalTimeoutMs, and a failure of either is logged, not thrown; no timer is left running after the end",
  bounds: "graceful end succeeding or failing after any 0..10000 ms or never; timeout any 0..10000 ms or the default; closing failing or not; disposed twice",
  reach: ["graceful", "failed", "forced", "again"],
  async run(h) {
    const tms = h.bool("default") ? undefined : h.int("tms", 0, 10000);
    const { et, calls, plan, T, errors } = setup(h, tms === undefined ? {} : { disposalTimeoutMs: tms });
    const limit = tms === undefined ? 1000 : tms;
    plan.g = h.choice("g", ["ok", "fail", "never"]);
    plan.gms = h.int("gms", 0, 10000);
    h.assume(plan.gms !== limit);
    plan.gerr = new Error("pool broke");
    plan.closeThrows = h.bool("closeThrows");
    const t0 = T.now;
    const r = await outcome(() => et[Symbol.dispose]());
    h.assert(r.ok, "disposal threw");
    h.assert(et.ended && calls.length === 1 && calls[0][0] === "end" && calls[0][1] === true, "not ended gracefully at once");
    if (h.bool("again")) {
      h.reach("again");
      const r2 = await outcome(() => et[Symbol.dispose]());
      h.assert(r2.ok && calls.length === 1, "an ended instance was ended again");
    }
    // let everything that is scheduled happen
    await new Promise((res) => T.set(res, 30000, [], false));
    const inTime = plan.g !== "never" && plan.gms < limit;
    h.reach(!inTime ? "forced" : plan.g === "ok" ? "graceful" : "failed");
    const forced = calls.slice(1);
    if (inTime) h.assert(forced.length === 0, "forceful cleanup although the graceful one finished in time");
    else {
      h.assert(forced.length === 1 && forced[0][1] === false, "forceful cleanup was not requested once after the timeout");
      if (forced.length === 1) h.assert(forced[0][2] - t0 === limit, "forceful cleanup was requested at another time");
    }
    const want = (inTime ? 0 : 1 + (plan.closeThrows ? 1 : 0)) + (plan.g === "fail" ? 1 : 0);
    h.assert(errors.length === want, "a failure was not logged, or one was invented");
    h.assert(T.created.every((t) => t.fired || t.cleared || t.repeat > 0), "a timer was left running");
  },
};
harnesses.end = {
  claim: "end() settles as the pool's end does, gracefully unless told otherwise; ended tells whether it was called",
  bounds: "graceful or not, given or default; success or failure",
  reach: ["ok", "fail"],
  async run(h) {
    const { et, calls, plan } = setup(h, {});
    const arg = h.choice("arg", [undefined, true, false]);
    plan.g = plan.f = h.choice("how", ["ok", "fail"]);
    plan.gms = plan.fms = h.int("ms", 0, 1000);
    plan.gerr = plan.ferr = new Error("pool broke");
    h.assert(!et.ended, "ended before end()");
    const r = await outcome(() => (arg === undefined ? et.end() : et.end(arg)));
    h.reach(r.ok ? "ok" : "fail");
    h.assert(calls.length === 1 && calls[0][1] === (arg ?? true), "ended another way");
    h.assert(r.ok === (plan.g === "ok"), "the outcome is not the pool's");
    h.assert(et.ended, "not ended");
  },
};
exports.harnesses = harnesses;
