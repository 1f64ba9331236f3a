"use strict";
// Engine validation: every path's solver model is re-run natively and the
// observed results are compared.
const res = [/(a|ab)(c|bcd)(d*)/, /^(\d{1,3})(?:\.(\d+))?$/, /(?<x>[ab]+?)(b*)c?/i, /(?=(a+))a*b/, /\b(\w+)\b/, /^\s*(.*?)\s*$/s, /(z)((a+)?(b+)?(c))*/, /(a*)*b/, /(?:a|b|)*$/, /[^\x00-\x7f]|\r?\n/, /(?<!a)b/, /x{2,3}?y/];
const res2 = [/[ab]/g, /a*/g, /(\d)(\d)?/g, /\s+/g, /(?=b)/g];
const out = {};
res.forEach((re, k) => {
  out["exec" + k] = {
    reach: ["end"], witnessEvery: 1, witnessMax: 400,
    run(h) {
      const s = h.str("s", { min: 0, max: 4, ranges: k === 9 ? [[0, 0xffff]] : "abcdzxy 01.\nKſ" });
      const m = re.exec(s);
      h.observe("m", m === null ? null : [...m, m.index, m.groups ? { ...m.groups } : 0]);
      h.observe("t", re.test(s));
      h.reach("end");
    },
  };
});
res2.forEach((re, k) => {
  out["rep" + k] = {
    reach: ["end"], witnessEvery: 1, witnessMax: 400,
    run(h) {
      const s = h.str("s", { min: 0, max: 4, ranges: "ab 01\n" });
      h.observe("replace", s.replace(re, "<$&$1>"));
      h.observe("replacef", s.replace(re, (m, a) => `[${m}${typeof a === "number" ? a : "?"}]`));
      h.observe("split", s.split(re));
      h.observe("match", s.match(re));
      h.observe("all", [...s.matchAll(re)].map((m) => [...m, m.index]));
      h.reach("end");
    },
  };
});
out.numbers = {
  reach: ["end"], witnessEvery: 3, witnessMax: 600,
  run(h) {
    const s = h.str("s", { min: 0, max: 4, ranges: "+-.0159e x\tI" });
    h.observe("n", String(Number(s)));
    h.observe("pi", String(parseInt(s)));
    h.observe("pf", String(parseFloat(s)));
    h.observe("trim", s.trim());
    h.reach("end");
  },
};
out.ints = {
  reach: ["end"], witnessEvery: 1, witnessMax: 600,
  run(h) {
    const n = h.int("n", -2000, 2000);
    h.observe("s", String(n));
    h.observe("mod", [n % 7, Math.floor(n / 60), Math.trunc(n / 60), Math.abs(n), Math.round(n / 8), Math.sign(n), -n, Math.max(n, 3)]);
    h.observe("cmp", [n < 4, n >= -3, n === 5, n == "7"]);
    h.observe("tpl", `${n}:${n + 1}`);
    h.reach("end");
  },
};
out.objects = {
  reach: ["end"], witnessEvery: 1, witnessMax: 600,
  run(h) {
    const k = h.str("k", { min: 1, max: 8, ranges: "acostrufvlueO_p" });
    const o = { a: 1, cost: 2 };
    h.observe("get", typeof o[k]);
    h.observe("in", k in o);
    o[k] = 5;
    h.observe("keys", Object.keys(o).sort());
    const m = new Map([["a", 1], ["co", 2]]);
    h.observe("map", [m.get(k), m.has(k)]);
    const e = new Error("x" + k);
    h.observe("msg", e.message + "!");
    h.observe("js", JSON.parse(JSON.stringify({ [k]: [k, 1] })));
    switch (k) {
      case "a": h.observe("sw", 1); break;
      case "co": h.observe("sw", 2);
      default: h.observe("sw", 3);
    }
    h.reach("end");
  },
};
out.strings = {
  reach: ["end"], witnessEvery: 1, witnessMax: 600,
  run(h) {
    const s = h.str("s", { min: 0, max: 3 });
    h.observe("cp", [...s].length);
    h.observe("idx", [s.indexOf("b"), s.includes("a"), s.startsWith("a"), s.endsWith("b"), s.lastIndexOf("a"), s.slice(-2), s.substring(2, 1), s.at(-1), s.charAt(1), s[0], s.padStart(4, "xy")]);
    h.observe("ws", s.trim().length);
    h.reach("end");
  },
};
out.ascii = {
  reach: ["end"], witnessEvery: 1, witnessMax: 300,
  run(h) {
    const s = h.str("s", { min: 0, max: 3, ranges: [[0, 0xff]] });
    h.observe("up", [s.toLowerCase(), s.toUpperCase() === "AB", s < "b", s > "az"]);
    h.reach("end");
  },
};
out.dates = {
  reach: ["end"], witnessEvery: 1, witnessMax: 300,
  run(h) {
    const { Date } = h.globals;
    const y = h.int("y", 1900, 2100);
    const m = h.int("m", -3, 14);
    const d = h.int("d", 0, 40);
    const t = Date.UTC(y, m, d, 3, 4);
    const dt = new Date(t);
    h.observe("d", [t, dt.getUTCFullYear(), dt.getUTCMonth(), dt.getUTCDate(), dt.getUTCDay(), dt.getUTCHours()]);
    h.reach("end");
  },
};
exports.harnesses = out;
