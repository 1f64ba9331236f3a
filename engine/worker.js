"use strict";
// One exploration worker: runs a harness from a decision prefix.
process.env.TZ = "UTC";
const { Explorer, loadHarness } = require("./explore");
let need = false;
const files = new Map();
process.on("uncaughtException", (e) => {
  if (e && e.reason !== undefined && e.constructor.name === "Abort") return;
  process.send({ type: "crash", error: String(e && e.stack) });
});
process.on("unhandledRejection", () => {});
process.on("disconnect", () => process.exit(0));
process.on("message", async (m) => {
  if (m.type === "need") {
    need = true;
    return;
  }
  if (m.type === "exit") process.exit(0);
  if (m.type !== "job") return;
  need = false;
  let ex;
  let recycle = false;
  try {
    let hs = files.get(m.file);
    if (hs === undefined) files.set(m.file, (hs = loadHarness(m.file)));
    const hn = hs.harnesses.find((x) => x.name === m.harness);
    ex = new Explorer(hn, m.opts);
    let last = Date.now();
    const status = await ex.explore(m.prefix, {
      tick: async (e) => {
        const now = Date.now();
        if (now - last > 25) {
          last = now;
          await new Promise((r) => setImmediate(r));
          if (need) {
            need = false;
            const p = e.donate();
            process.send({ type: "donate", harness: m.harness, prefix: p });
          }
        }
        if (e.stats.paths % 50 === 0 && process.memoryUsage().heapUsed > 1.7e9) {
          for (let p = e.donate(); p; p = e.donate()) process.send({ type: "donate", harness: m.harness, prefix: p, extra: true });
          recycle = true;
          return "stop";
        }
        while (e.violations.length > 0 && !e.violations[0].sent && e.violations.some((v) => !v.sent)) {
          for (const v of e.violations)
            if (!v.sent) {
              v.sent = true;
              process.send({ type: "violation", harness: m.harness, violation: v });
            }
        }
      },
    });
    for (const v of ex.violations)
      if (!v.sent) {
        v.sent = true;
        process.send({ type: "violation", harness: m.harness, violation: v });
      }
    const res = {
      type: "result",
      harness: m.harness,
      status: recycle ? "done" : status,
      recycle,
      stats: ex.stats,
      solver: ex.solver.stats,
      notes: [...ex.notes],
      entered: [...ex.entered],
      reached: [...ex.reached],
      samples: ex.samples,
      engineErrors: ex.engineErrors,
    };
    if (recycle || process.memoryUsage().heapUsed > 1.7e9) {
      res.recycle = true;
      ex.solver.kill();
      process.send(res, () => process.exit(0));
    } else process.send(res);
  } catch (e) {
    process.send({ type: "fail", harness: m.harness, prefix: m.prefix, error: String(e && e.stack), died: e && e.constructor.name === "SolverDied" });
  } finally {
    if (ex) ex.solver.kill();
  }
});
process.send({ type: "ready" });
