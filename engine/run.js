"use strict";
// Usage: node engine/run.js <property> [--tier quick|thorough] [--only harness] [--replay file]
process.env.TZ = "UTC";
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const cp = require("node:child_process");
const VERIF = path.resolve(__dirname, "..");
const argv = process.argv.slice(2);
const opt = (n, d) => {
  const i = argv.indexOf("--" + n);
  return i < 0 ? d : argv[i + 1];
};
const prop = argv[0];
const tier = opt("tier", "quick");
const only = opt("only");
const seed = parseInt(process.env.VERIF_SEED ?? "1") || 0;
const hdir = path.join(VERIF, "harness");
const found = fs.readdirSync(hdir).filter((f) => f === prop + ".js" || (f.startsWith(prop + "-") && f.endsWith(".js")));
if (found.length !== 1) {
  console.error("no harness for property " + prop);
  process.exit(2);
}
const file = path.join(hdir, found[0]);
const t0 = Date.now();

const cache = fs.mkdtempSync(path.join(os.tmpdir(), "vcache-"));
process.env.VERIF_CACHE = cache;
const cleanup = () => {
  try {
    fs.rmSync(cache, { recursive: true, force: true });
  } catch {}
};
process.on("exit", cleanup);

const { loadHarness, replay } = require("./explore");
process.on("unhandledRejection", () => {});

async function main() {
  const { meta, harnesses: all } = loadHarness(file);
  const rp = argv.indexOf("--replay");
  if (rp >= 0) {
    const j = JSON.parse(fs.readFileSync(argv[rp + 1], "utf8"));
    const hn = all.find((x) => x.name === j.harness);
    const r = await replay(hn, j.inputs, j.tier);
    console.log(JSON.stringify(r, null, 1));
    process.exit(r.failures.length ? 1 : 0);
  }
  const hs = all.filter((h) => (tier === "thorough" || !h.thoroughOnly) && (!only || h.name === only));
  const budgetS = Number(opt("budget", tier === "thorough" ? 3000 : 600));
  const deadline = t0 + budgetS * 1000;
  const nWorkers = Number(process.env.VERIF_WORKERS ?? Math.min(8, os.cpus().length));
  const queue = hs.map((h) => ({ harness: h.name, prefix: null }));
  const info = new Map(hs.map((h) => [h.name, { stats: {}, solver: {}, notes: new Map(), entered: new Set(), reached: new Map(), samples: [], engineErrors: [], jobs: 0, status: new Set(), t0: 0, busyMs: 0, spurious: 0 }]));
  const violations = [];
  const workers = [];
  const byName = new Map(hs.map((h) => [h.name, h]));
  let finished = false;
  let resolveDone;
  const done = new Promise((r) => (resolveDone = r));
  const opts = (h) => ({ tier, deadline, maxViolations: 3, witnessMax: h.witnessMax ?? 40, witnessEvery: h.witnessEvery ?? 37 });

  function add(a, b) {
    for (const k of Object.keys(b)) a[k] = (a[k] ?? 0) + b[k];
  }
  function spawn() {
    const w = { proc: cp.fork(path.join(__dirname, "worker.js"), { stdio: ["ignore", "inherit", "inherit", "ipc"], execArgv: ["--stack-size=3000", "--max-old-space-size=3000", "--no-warnings"] }), busy: false, asked: false };
    w.proc.on("message", (m) => onMessage(w, m));
    w.proc.on("exit", (code) => {
      if (finished) return;
      workers.splice(workers.indexOf(w), 1);
      if (w.busy) {
        info.get(w.job.harness).engineErrors.push("worker exited with code " + code);
        info.get(w.job.harness).status.add("crashed");
      }
      if (workers.length < nWorkers) workers.push(spawn());
    });
    return w;
  }
  function dispatch() {
    if (finished) return;
    for (const w of workers) {
      if (!w.busy && w.ready && queue.length > 0) {
        const j = queue.shift();
        if (Date.now() > deadline) {
          info.get(j.harness).status.add("budget");
          continue;
        }
        w.busy = true;
        w.job = j;
        w.jt = Date.now();
        w.asked = false;
        const h = byName.get(j.harness);
        info.get(j.harness).jobs++;
        w.proc.send({ type: "job", file, harness: j.harness, prefix: j.prefix, opts: opts(h) });
      }
    }
    const idle = workers.filter((w) => w.ready && !w.busy).length;
    if (queue.length === 0) {
      const busy = workers.filter((w) => w.busy);
      if (busy.length === 0 && workers.every((w) => w.ready)) {
        finished = true;
        resolveDone();
        return;
      }
      let want = idle - busy.filter((w) => w.asked).length;
      for (const w of busy.sort((a, b) => a.jt - b.jt)) {
        if (want <= 0) break;
        if (!w.asked && Date.now() - w.jt > 150) {
          w.asked = true;
          w.proc.send({ type: "need" });
          want--;
        }
      }
    }
  }
  const poll = setInterval(dispatch, 60);
  function merge(i, m) {
    add(i.stats, m.stats);
    add(i.solver, m.solver);
    for (const [k, v] of m.notes) i.notes.set(k, (i.notes.get(k) ?? 0) + v);
    for (const e of m.entered) i.entered.add(e);
    for (const [k, v] of m.reached) i.reached.set(k, (i.reached.get(k) ?? 0) + v);
    if (i.samples.length < 2) i.samples.push(...m.samples.slice(0, 2 - i.samples.length));
    i.engineErrors.push(...m.engineErrors.slice(0, 5));
    i.status.add(m.status);
  }
  let checking = Promise.resolve();
  function onMessage(w, m) {
    if (m.type === "ready") w.ready = true;
    else if (m.type === "donate") {
      if (!m.extra) w.asked = false;
      w.jt = Math.max(w.jt, Date.now() - 100);
      if (m.prefix) queue.push({ harness: m.harness, prefix: m.prefix });
    } else if (m.type === "result") {
      const i = info.get(m.harness);
      i.busyMs += Date.now() - w.jt;
      merge(i, m);
      w.busy = false;
      if (m.recycle) w.ready = false;
    } else if (m.type === "fail") {
      w.busy = false;
      const i = info.get(m.harness);
      const retry = m.died && !m.retried;
      i.engineErrors.push((m.died ? "solver died: " : "engine: ") + m.error);
      i.status.add("failed");
    } else if (m.type === "crash") {
      const i = w.job && info.get(w.job.harness);
      if (i) i.engineErrors.push("uncaught in worker: " + m.error);
    } else if (m.type === "violation") {
      checking = checking.then(async () => {
        // (not `finished`: the workers may be done before this replay starts)
        if (violations.length > 0) return;
        const h = byName.get(m.harness);
        const r = await replay(h, m.violation.inputs, tier);
        if (r.failures.length > 0) {
          violations.push({ harness: m.harness, inputs: m.violation.inputs, msg: r.failures[0], symbolic: m.violation.msg });
          finished = true;
          resolveDone();
        } else {
          const i = info.get(m.harness);
          i.spurious++;
          i.engineErrors.push("counterexample did not reproduce: " + m.violation.msg + " " + JSON.stringify(m.violation.inputs));
        }
      });
    }
    dispatch();
  }
  for (let k = 0; k < nWorkers; k++) workers.push(spawn());
  await done;
  await checking;
  clearInterval(poll);
  for (const w of workers) w.proc.kill("SIGKILL");

  // ---- report
  const known = loadKnown().filter((k) => k.property === prop);
  const total = { stats: {}, solver: {} };
  const hrep = [];
  let complete = true;
  let vacuous = [];
  const fns = new Set();
  for (const [name, i] of info) {
    add(total.stats, i.stats);
    add(total.solver, i.solver);
    const h = byName.get(name);
    const st = [...i.status];
    const ok = st.every((s) => s === "done") && i.spurious === 0 && !(i.stats.truncated > 0) && !(i.stats.unknown > 0) && !(i.stats.pinned > 0);
    if (!ok) complete = false;
    const missing = (h.reach ?? []).filter((l) => !i.reached.has(l));
    if (missing.length && st.every((s) => s === "done") && violations.length === 0) vacuous.push(name + ": " + missing.join(", "));
    for (const e of i.entered) if (e.startsWith("src/") || e.startsWith("node_modules/")) fns.add(e);
    hrep.push({
      harness: name,
      claim: h.claim,
      bounds: h.bounds,
      status: violations.length ? "stopped by a violation" : ok ? "all paths within bounds decided" : "incomplete: " + st.join(","),
      paths: i.stats.paths ?? 0,
      branch_decisions: i.stats.decisions ?? 0,
      assertions: i.stats.asserts ?? 0,
      assertion_queries: i.stats.assertQueries ?? 0,
      assertions_discharged: i.stats.discharged ?? 0,
      solver_queries: i.solver.checks ?? 0,
      solver_s: +((i.solver.ms ?? 0) / 1000).toFixed(2),
      solver_unknown: i.stats.unknown ?? 0,
      paths_narrowed: i.stats.pinned ?? 0,
      paths_cut: i.stats.truncated ?? 0,
      witness_replays: i.stats.replays ?? 0,
      witness_mismatches: i.stats.replayMismatch ?? 0,
      reached: Object.fromEntries(i.reached),
      notes: [...i.notes].slice(0, 12),
      engine_errors: i.engineErrors.slice(0, 5),
      cpu_s: +(i.busyMs / 1000).toFixed(1),
    });
  }
  const evidence = {
    property: prop,
    tier,
    seed,
    level: "model_checking",
    coverage: {
      states: total.stats.paths ?? 0,
      transitions: total.stats.decisions ?? 0,
      traces_validated_against_impl: total.stats.replays ?? 0,
      samples: hrep.flatMap((h) => info.get(h.harness).samples.slice(0, 1).map((s) => ({ harness: h.harness, ...s }))).slice(0, 8),
      exhaustive: complete && violations.length === 0,
      meaning: "states = symbolic paths decided (each stands for every input satisfying its path condition); transitions = branch decisions put to the solver or its model; traces_validated = solver models of completed paths re-run on the un-instrumented code",
      functions_encoded: [...fns].sort(),
      solver: require("./solver").DEFAULT + " (incremental)",
      queries: { total: total.solver.checks ?? 0, sat: total.solver.sat ?? 0, unsat: total.solver.unsat ?? 0, unknown: total.solver.unknown ?? 0, errors: total.solver.errors ?? 0 },
      solver_s: +((total.solver.ms ?? 0) / 1000).toFixed(2),
      harnesses: hrep,
    },
    assumptions: meta.assumptions ?? [],
    wall_s: +((Date.now() - t0) / 1000).toFixed(1),
    violations: violations.length,
  };
  fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
  if (!only) fs.writeFileSync(path.join(VERIF, "evidence", prop + ".json"), JSON.stringify(evidence, (_k, v) => (typeof v === "bigint" ? String(v) : v), 1) + "\n");
  for (const h of hrep) {
    console.log(`${h.harness}: ${h.status}; paths=${h.paths} decisions=${h.branch_decisions} asserts=${h.assertions_discharged}/${h.assertions} queries=${h.solver_queries} solver=${h.solver_s}s cpu=${h.cpu_s}s replays=${h.witness_replays}${h.witness_mismatches ? " MISMATCHES=" + h.witness_mismatches : ""}`);
    if (process.env.VERIF_DEBUG || argv.includes("-v")) {
      for (const n of h.notes) console.log("   note", n.join(" x"));
      for (const n of h.engine_errors) console.log("   engine", n);
      console.log("   reached", JSON.stringify(h.reached));
    }
  }
  for (const k of known) if (k.status !== "fixed") console.log(`KNOWN-FINDING: property=${prop} ${k.what}`);
  if (violations.length > 0) {
    const v = violations[0];
    const dir = path.join(VERIF, "evidence", "replays");
    fs.mkdirSync(dir, { recursive: true });
    const rf = path.join(dir, `${prop}.json`);
    fs.writeFileSync(rf, JSON.stringify({ property: prop, tier, harness: v.harness, violated: v.msg, inputs: v.inputs, how: `node ${VERIF}/engine/run.js ${prop} --replay ${rf}` }, null, 1) + "\n");
    console.log(`harness ${v.harness}: ${v.msg}`);
    console.log(`counterexample: ${JSON.stringify(v.inputs)}`);
    console.log(`VIOLATION property=${prop} replay=${rf}`);
    process.exitCode = 1;
    return;
  }
  if (vacuous.length) {
    console.log("VACUOUS " + vacuous.join("; "));
    process.exitCode = 2;
    return;
  }
  console.log(`OK property=${prop} ${complete ? "decided for every value within the stated bounds" : "held on everything explored (some parts narrowed, see evidence)"} in ${evidence.wall_s}s`);
}
function loadKnown() {
  try {
    return JSON.parse(fs.readFileSync(path.join(VERIF, "known-findings.json"), "utf8")).findings;
  } catch {
    return [];
  }
}
main().then(
  () => process.exit(process.exitCode ?? 0),
  (e) => {
    console.error(e);
    process.exit(2);
  },
);
