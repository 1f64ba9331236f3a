"use strict";
// setup_cmd: nothing is built; verify that what the checks need is present.
const cp = require("node:child_process");
const fs = require("node:fs");
const v = cp.execFileSync("z3", ["--version"], { encoding: "utf8" }).trim();
for (const f of ["/repo/src/ExifTool.ts", "/repo/node_modules/typescript/lib/typescript.js"]) if (!fs.existsSync(f)) throw new Error("missing " + f);
console.log("ok", process.version, v);
