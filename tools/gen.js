"use strict";
// node tools/gen.js: writes properties.jsonl, MANIFEST.json and the property section of DESIGN.md
const fs = require("node:fs");
const path = require("node:path");
const V = path.resolve(__dirname, "..");
const { P, NA } = require("./properties.src.js");
const line = (q) => JSON.stringify({ id: q.id, title: q.title, statement: q.statement, quantifier: q.quantifier, why_tests_cant: q.why_tests_cant, anchors: { files: q.files, state: q.state ?? [], mechanism: q.mechanism, observe_at: q.observe_at ?? ["return values, rejections and the commands handed to the ExifTool process"], hook_needed: null } });
for (const q of P) if (q.title.length > 80) throw new Error("title too long: " + q.id);
fs.writeFileSync(path.join(V, "properties.jsonl"), P.map(line).join("\n") + "\n");
const na = new Set(NA.map((x) => x.property));
const m = {
  version: 1,
  setup_cmd: "node engine/selfcheck.js",
  checks: P.filter((q) => !na.has(q.id)).map((q) => ({
    property: q.id,
    quick_cmd: `node engine/run.js ${q.id} --tier quick`,
    thorough_cmd: `node engine/run.js ${q.id} --tier thorough`,
    evidence_file: `evidence/${q.id}.json`,
    technique: "SMT-based symbolic execution of the real TypeScript source (z3), counterexamples replayed on the un-instrumented code",
    level: "model_checking",
    level_note: q.level_note,
  })),
  not_applicable: NA,
  notes: "See DESIGN.md. The encoding is regenerated from /repo/src on every run; no hooks are needed in /repo.",
};
fs.writeFileSync(path.join(V, "MANIFEST.json"), JSON.stringify(m, null, 1) + "\n");

// DESIGN.md: the section between the markers is generated from the harness files
const oracles = require("./oracles.js");
const begin = "<!-- generated: properties -->", end = "<!-- end generated -->";
const designFile = path.join(V, "DESIGN.md");
const design = fs.readFileSync(designFile, "utf8");
const files = fs.readdirSync(path.join(V, "harness"));
const section = P.map((q) => {
  const f = files.find((n) => n.startsWith(q.id + "-"));
  if (f == null) return `### ${q.id} ${q.title}\n\nNot applicable: ${NA.find((x) => x.property === q.id)?.reason}\n`;
  const H = require(path.join(V, "harness", f));
  const groups = [];
  for (const [n, x] of Object.entries(H.harnesses)) {
    // families of harnesses that differ in the call site only share a line
    const fam = /_/.test(n) ? n.slice(0, n.indexOf("_")) : n;
    const last = groups.at(-1);
    if (last && /_/.test(n) && last.fam === fam && last.bounds === x.bounds) last.names.push(n);
    else groups.push({ fam, names: [n], claim: x.claim, bounds: x.bounds, thorough: x.thoroughOnly });
  }
  return [`### ${q.id} ${q.title}`, "", `Harness \`harness/${f}\`. Oracle: ${oracles[q.id] ?? "see the harness."} Why the tests cannot settle it: ${q.why_tests_cant}`, "",
    ...groups.map((g) => `- \`${g.names.join("`, `")}\`${g.thorough ? " (thorough tier)" : ""}: ${g.claim.replace(/\s+/g, " ")}. Bounds: ${g.bounds}.`),
    "", `Assumptions: ${(H.assumptions ?? ["none"]).join("; ")}. Outside: ${q.level_note}`, ""].join("\n");
}).join("\n");
const i = design.indexOf(begin), j = design.indexOf(end);
if (i < 0 || j < i) throw new Error("DESIGN.md lost its markers");
fs.writeFileSync(designFile, design.slice(0, i + begin.length) + "\n\n" + section + "\n" + design.slice(j));
{
  const b = "<!-- generated: seeds -->", e = "<!-- end generated: seeds -->";
  const d = fs.readFileSync(designFile, "utf8");
  const dir = path.join(V, "seeded");
  // seeded/ is absent where the checks run; keep the committed table then
  if (fs.existsSync(dir)) {
    const rows = fs.readdirSync(dir).sort().map((s) => { const m = JSON.parse(fs.readFileSync(path.join(dir, s, "meta.json"), "utf8")); return `| ${s} | ${m.property} | ${m.what_it_breaks.replace(/\|/g, "/")} | ${m.needs.replace(/\|/g, "/")} |`; });
    fs.writeFileSync(designFile, d.slice(0, d.indexOf(b) + b.length) + "\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + rows.join("\n") + "\n" + d.slice(d.indexOf(e)));
  }
}
