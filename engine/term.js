"use strict";
// Hash-consed SMT terms over Bool, Int and Real, with light simplification,
// concrete evaluation under a model and SMT-LIB printing with shared-node
// definitions.
let table = new Map();
let nextId = 1;

class Term {
  constructor(op, sort, args, val) {
    this.op = op;
    this.sort = sort;
    this.args = args;
    this.val = val;
    this.id = nextId++;
    let size = 1;
    let vars = null;
    for (const a of args) {
      size += a.size;
      if (a.single !== undefined) {
        if (vars === null) vars = a.single;
        else if (vars !== a.single && a.single !== "") {
          vars = vars === "" ? a.single : null;
          if (vars === null) {
            vars = "*";
          }
        }
      }
    }
    this.size = size > 1e9 ? 1e9 : size;
    // name of the only variable in this term, "" if ground, "*" if several
    this.single = op === "var" ? val : vars === null ? "" : vars;
    this.hasReal = sort === "Real" || args.some((a) => a.hasReal);
  }
}

function mk(op, sort, args, val) {
  let key = op + "|" + sort;
  for (const a of args) key += "|" + a.id;
  if (val !== undefined) key += "#" + (typeof val === "object" ? val.n + "/" + val.d : val);
  let t = table.get(key);
  if (t === undefined) {
    t = new Term(op, sort, args, val);
    table.set(key, t);
  }
  return t;
}

const TRUE = mk("true", "Bool", [], "true");
const FALSE = mk("false", "Bool", [], "false");
const bool = (b) => (b ? TRUE : FALSE);
const intCache = new Map();
function int(n) {
  let t = intCache.get(n);
  if (t === undefined) {
    if (!Number.isSafeInteger(n)) throw new Error("int term out of safe range: " + n);
    n = n === 0 ? 0 : n;
    t = mk("int", "Int", [], n);
    intCache.set(n, t);
  }
  return t;
}
function gcd(a, b) {
  if (a < 0n) a = -a;
  if (b < 0n) b = -b;
  while (b) [a, b] = [b, a % b];
  return a;
}
function rat(n, d) {
  n = BigInt(n);
  d = BigInt(d);
  if (d < 0n) {
    n = -n;
    d = -d;
  }
  const g = gcd(n, d) || 1n;
  return mk("rat", "Real", [], { n: n / g, d: d / g });
}
// exact rational of the decimal literal of a double (shortest round-trip form)
function realOfNumber(x) {
  if (!Number.isFinite(x)) throw new Error("realOfNumber " + x);
  const m = /^(-?)(\d+)(?:\.(\d+))?(?:e([+-]\d+))?$/.exec(String(x));
  let n = BigInt(m[2] + (m[3] || ""));
  let d = 1n;
  let e = (m[4] ? parseInt(m[4]) : 0) - (m[3] ? m[3].length : 0);
  if (e >= 0) n *= 10n ** BigInt(e);
  else d = 10n ** BigInt(-e);
  if (m[1]) n = -n;
  return rat(n, d);
}
function variable(name, sort) {
  return mk("var", sort, [], name);
}
const isConst = (t) => t.op === "int" || t.op === "rat" || t === TRUE || t === FALSE;

function not(a) {
  if (a === TRUE) return FALSE;
  if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  return mk("not", "Bool", [a]);
}
function nary(op, unit, zero, args) {
  const out = [];
  const seen = new Set();
  for (const a of args) {
    if (a === unit) continue;
    if (a === zero) return zero;
    const parts = a.op === op ? a.args : [a];
    for (const p of parts) {
      if (seen.has(p)) continue;
      if (seen.has(not(p))) return zero;
      seen.add(p);
      out.push(p);
    }
  }
  if (out.length === 0) return unit;
  if (out.length === 1) return out[0];
  return mk(op, "Bool", out);
}
const and = (...args) => nary("and", TRUE, FALSE, args);
const or = (...args) => nary("or", FALSE, TRUE, args);
function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a === b) return a;
  if (a.sort === "Bool") return or(and(c, a), and(not(c), b));
  if (a.sort !== b.sort) {
    a = toReal(a);
    b = toReal(b);
  }
  return mk("ite", a.sort, [c, a, b]);
}
function toReal(a) {
  if (a.sort === "Real") return a;
  if (a.op === "int") return rat(a.val, 1);
  return mk("to_real", "Real", [a]);
}
function ratOf(t) {
  return t.op === "int" ? { n: BigInt(t.val), d: 1n } : t.val;
}
function cmpConst(a, b) {
  const x = ratOf(a);
  const y = ratOf(b);
  const l = x.n * y.d;
  const r = y.n * x.d;
  return l < r ? -1 : l > r ? 1 : 0;
}
function coerce(a, b) {
  if (a.sort !== b.sort) return [toReal(a), toReal(b)];
  return [a, b];
}
// value range of an Int term: conservative [lo, hi]
const ranges = new Map(); // var name -> [lo,hi]
function setRange(name, lo, hi) {
  ranges.set(name, [lo, hi]);
}
function rangeOf(t) {
  if (t._range !== undefined) return t._range;
  let r = null;
  switch (t.op) {
    case "int":
      r = [t.val, t.val];
      break;
    case "var":
      r = ranges.get(t.val) ?? null;
      return r;
    case "+": {
      let lo = 0;
      let hi = 0;
      for (const a of t.args) {
        const x = rangeOf(a);
        if (x == null) {
          lo = null;
          break;
        }
        lo += x[0];
        hi += x[1];
      }
      r = lo === null ? null : [lo, hi];
      break;
    }
    case "*": {
      const x = rangeOf(t.args[0]);
      const y = rangeOf(t.args[1]);
      if (x && y) {
        const c = [x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1]];
        r = [Math.min(...c), Math.max(...c)];
      }
      break;
    }
    case "ite": {
      const x = rangeOf(t.args[1]);
      const y = rangeOf(t.args[2]);
      if (x && y) r = [Math.min(x[0], y[0]), Math.max(x[1], y[1])];
      break;
    }
    case "mod": {
      if (t.args[1].op === "int") r = [0, Math.abs(t.args[1].val) - 1];
      break;
    }
    case "div": {
      const x = rangeOf(t.args[0]);
      if (x && t.args[1].op === "int" && t.args[1].val > 0)
        r = [Math.floor(x[0] / t.args[1].val), Math.floor(x[1] / t.args[1].val)];
      break;
    }
  }
  t._range = r;
  return r;
}
// a Real that is an integer term over a constant denominator: {I, D}, or null
const LIMIT = 1n << 40n;
function scaled(t) {
  if (t._scaled !== undefined) return t._scaled;
  let r = null;
  if (t.op === "rat") {
    const { n, d } = t.val;
    if (d < LIMIT && n < LIMIT && n > -LIMIT) r = { I: int(Number(n)), D: d };
  } else if (t.op === "to_real") r = { I: t.args[0], D: 1n };
  else if (t.op === "*" && t.args[0].op === "rat") {
    const s = scaled(t.args[1]);
    if (s) {
      const { n, d } = t.args[0].val;
      const g = gcd(n, s.D);
      const k = n / g;
      const D = (s.D / g) * d;
      if (D < LIMIT && k < LIMIT && k > -LIMIT) r = { I: mul(int(Number(k)), s.I), D };
    }
  } else if (t.op === "+") {
    const ss = t.args.map(scaled);
    if (ss.every((x) => x)) {
      let D = 1n;
      for (const x of ss) D = (D / gcd(D, x.D)) * x.D;
      if (D < LIMIT) r = { I: add(...ss.map((x) => mul(int(Number(D / x.D)), x.I))), D };
    }
  } else if (t.op === "ite") {
    const a = scaled(t.args[1]);
    const b = scaled(t.args[2]);
    if (a && b) {
      const D = (a.D / gcd(a.D, b.D)) * b.D;
      if (D < LIMIT) r = { I: ite(t.args[0], mul(int(Number(D / a.D)), a.I), mul(int(Number(D / b.D)), b.I)), D };
    }
  }
  if (r) {
    // stay inside the safe integers, so ranges and models are exact
    const g = rangeOf(r.I);
    if (g && (g[0] < -(2 ** 52) || g[1] > 2 ** 52)) r = null;
  }
  t._scaled = r;
  return r;
}
const floorDiv = (n, d) => (n % d !== 0n && n < 0n ? n / d - 1n : n / d);
const safeInt = (x) => (x <= 9007199254740991n && x >= -9007199254740991n ? int(Number(x)) : null);
// I/D <= n/d  <=>  I <= floor(D*n/d)
function leConst(a, b) {
  if (b.op === "rat") {
    const x = scaled(a);
    const k = x && safeInt(floorDiv(x.D * b.val.n, b.val.d));
    if (k) return le(x.I, k);
  }
  if (a.op === "rat") {
    const y = scaled(b);
    const k = y && safeInt(-floorDiv(-(y.D * a.val.n), a.val.d));
    if (k) return le(k, y.I);
  }
  return null;
}
// both sides as integers over a common denominator
function common(a, b) {
  const x = scaled(a);
  const y = x && scaled(b);
  if (!y) return null;
  const D = (x.D / gcd(x.D, y.D)) * y.D;
  if (D >= LIMIT) return null;
  return [mul(int(Number(D / x.D)), x.I), mul(int(Number(D / y.D)), y.I)];
}
function eq(a, b) {
  if (a === b) return TRUE;
  if (a.sort === "Bool") {
    if (a === TRUE) return b;
    if (b === TRUE) return a;
    if (a === FALSE) return not(b);
    if (b === FALSE) return not(a);
    return mk("=", "Bool", a.id < b.id ? [a, b] : [b, a]);
  }
  [a, b] = coerce(a, b);
  if (a === b) return TRUE;
  if (isConst(a) && isConst(b)) return bool(cmpConst(a, b) === 0);
  if (a.sort === "Real") {
    const c = common(a, b);
    if (c) return eq(c[0], c[1]);
  }
  if (a.sort === "Int") {
    const x = rangeOf(a);
    const y = rangeOf(b);
    if (x && y && (x[1] < y[0] || y[1] < x[0])) return FALSE;
    // (x + c) = k  ->  x = k - c
    if (a.op === "int") [a, b] = [b, a];
    if (b.op === "int" && a.op === "+") {
      const i = a.args.findIndex((q) => q.op === "int");
      if (i >= 0) {
        const rest = a.args.filter((_, j) => j !== i);
        return eq(rest.length === 1 ? rest[0] : mk("+", "Int", rest), int(b.val - a.args[i].val));
      }
    }
    if (b.op === "int" && a.op === "ite" && isConst(a.args[1]) && isConst(a.args[2])) {
      return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
    }
  }
  return mk("=", "Bool", a.id < b.id ? [a, b] : [b, a]);
}
function le(a, b) {
  if (a === b) return TRUE;
  [a, b] = coerce(a, b);
  if (isConst(a) && isConst(b)) return bool(cmpConst(a, b) <= 0);
  if (a.sort === "Real") {
    const k = leConst(a, b);
    if (k) return k;
    const c = common(a, b);
    if (c) return le(c[0], c[1]);
  }
  if (a.sort === "Int") {
    const x = rangeOf(a);
    const y = rangeOf(b);
    if (x && y) {
      if (x[1] <= y[0]) return TRUE;
      if (x[0] > y[1]) return FALSE;
    }
  }
  return mk("<=", "Bool", [a, b]);
}
const lt = (a, b) => not(le(b, a));
const ge = (a, b) => le(b, a);
const gt = (a, b) => not(le(a, b));
function add(...args) {
  let sort = args.some((a) => a.sort === "Real") ? "Real" : "Int";
  const out = [];
  let c = sort === "Int" ? 0 : rat(0, 1);
  for (let a of args) {
    if (sort === "Real") a = toReal(a);
    for (const p of a.op === "+" ? a.args : [a]) {
      if (p.op === "int") c += p.val;
      else if (p.op === "rat") c = rat(c.val.n * p.val.d + p.val.n * c.val.d, c.val.d * p.val.d);
      else out.push(p);
    }
  }
  if (sort === "Int") {
    if (out.length === 0) return int(c);
    if (c !== 0) out.push(int(c));
  } else {
    if (out.length === 0) return c;
    if (c.val.n !== 0n) out.push(c);
  }
  // merge like terms
  if (out.length > 1) {
    const base = new Map();
    let dup = false;
    for (const p of out) {
      if (isConst(p)) continue;
      const k = p.op === "*" && isConst(p.args[0]) ? p.args[1] : p;
      const w = p.op === "*" && isConst(p.args[0]) ? p.args[0] : sort === "Int" ? int(1) : rat(1, 1);
      const e = base.get(k);
      if (e === undefined) base.set(k, w);
      else {
        dup = true;
        base.set(k, sort === "Int" ? int(e.val + w.val) : rat(e.val.n * w.val.d + w.val.n * e.val.d, e.val.d * w.val.d));
      }
    }
    if (dup) {
      const rest = [];
      for (const [k, w] of base) if (ratOf(w).n !== 0n) rest.push(mul(w, k));
      const cc = out.find(isConst);
      if (cc !== undefined) rest.push(cc);
      if (rest.length === 0) return sort === "Int" ? int(0) : rat(0, 1);
      return rest.length === 1 ? rest[0] : mk("+", sort, rest);
    }
  }
  return out.length === 1 ? out[0] : mk("+", sort, out);
}
function mul(a, b) {
  [a, b] = coerce(a, b);
  if (isConst(b) && !isConst(a)) [a, b] = [b, a];
  if (isConst(a) && isConst(b)) {
    if (a.sort === "Int") return int(a.val * b.val);
    return rat(a.val.n * b.val.n, a.val.d * b.val.d);
  }
  if (isConst(a)) {
    const r = ratOf(a);
    if (r.n === 0n) return a;
    if (r.n === 1n && r.d === 1n) return b;
    if (b.op === "+") return add(...b.args.map((x) => mul(a, x)));
    if (b.op === "*" && isConst(b.args[0])) return mul(mul(a, b.args[0]), b.args[1]);
  }
  return mk("*", a.sort, [a, b]);
}
const neg = (a) => mul(a.sort === "Int" ? int(-1) : rat(-1, 1), a);
const sub = (a, b) => add(a, neg(b));
// SMT-LIB floor division / modulus by a positive constant
function div(a, n) {
  if (a.op === "int") return int(Math.floor(a.val / n));
  if (n === 1) return a;
  const r = rangeOf(a);
  if (r && Math.floor(r[0] / n) === Math.floor(r[1] / n)) return int(Math.floor(r[0] / n));
  // (n*k*x + y) div n  ->  k*x + y div n
  if (a.op === "+") {
    const m = [];
    const rest = [];
    for (const p of a.args) {
      if (p.op === "*" && p.args[0].op === "int" && p.args[0].val % n === 0) m.push(mul(int(p.args[0].val / n), p.args[1]));
      else rest.push(p);
    }
    if (m.length > 0) return add(...m, div(rest.length ? add(...rest) : int(0), n));
  }
  if (a.op === "*" && a.args[0].op === "int" && a.args[0].val % n === 0) return mul(int(a.args[0].val / n), a.args[1]);
  return mk("div", "Int", [a, int(n)]);
}
function mod(a, n) {
  if (a.op === "int") return int(((a.val % n) + n) % n);
  if (n === 1) return int(0);
  const r = rangeOf(a);
  if (r && r[0] >= 0 && r[1] < n) return a;
  if (a.op === "+") {
    const rest = [];
    let changed = false;
    for (const p of a.args) {
      if (p.op === "*" && p.args[0].op === "int" && p.args[0].val % n === 0) changed = true;
      else rest.push(p);
    }
    if (changed) return mod(rest.length ? add(...rest) : int(0), n);
  }
  if (a.op === "*" && a.args[0].op === "int" && a.args[0].val % n === 0) return int(0);
  return mk("mod", "Int", [a, int(n)]);
}
function floor(a) {
  if (a.sort === "Int") return a;
  if (a.op === "to_real") return a.args[0];
  if (a.op === "rat") {
    const { n, d } = a.val;
    let q = n / d;
    if (n % d !== 0n && n < 0n) q -= 1n;
    return int(Number(q));
  }
  const s = scaled(a);
  if (s) return div(s.I, Number(s.D));
  return mk("to_int", "Int", [a]);
}

// ---- concrete evaluation (Int/Bool only; Real terms return undefined)
function evaluate(t, model, memo = new Map()) {
  if (t.op === "int") return t.val;
  if (t === TRUE) return true;
  if (t === FALSE) return false;
  if (t.op === "rat") return t.val;
  if (t.op === "var") {
    return model.get(t.val);
  }
  const m = memo.get(t);
  if (m !== undefined) return m;
  let r;
  switch (t.op) {
    case "not": {
      const x = evaluate(t.args[0], model, memo);
      r = x === undefined ? undefined : !x;
      break;
    }
    case "and": {
      r = true;
      for (const a of t.args) {
        const x = evaluate(a, model, memo);
        if (x === false) {
          r = false;
          break;
        }
        if (x === undefined) r = undefined;
      }
      break;
    }
    case "or": {
      r = false;
      for (const a of t.args) {
        const x = evaluate(a, model, memo);
        if (x === true) {
          r = true;
          break;
        }
        if (x === undefined) r = undefined;
      }
      break;
    }
    default: {
      if (t.op === "ite") {
        const c = evaluate(t.args[0], model, memo);
        r = c === undefined ? undefined : evaluate(t.args[c ? 1 : 2], model, memo);
        break;
      }
      const xs = t.args.map((a) => evaluate(a, model, memo));
      if (xs.includes(undefined)) {
        r = undefined;
        break;
      }
      if (t.hasReal) {
        r = evalReal(t, xs);
        break;
      }
      switch (t.op) {
        case "=":
          r = xs[0] === xs[1];
          break;
        case "<=":
          r = xs[0] <= xs[1];
          break;
        case "+":
          r = xs.reduce((p, q) => p + q, 0);
          break;
        case "*":
          r = xs[0] * xs[1];
          break;
        case "div":
          r = Math.floor(xs[0] / xs[1]);
          break;
        case "mod":
          r = ((xs[0] % xs[1]) + xs[1]) % xs[1];
          break;
        default:
          throw new Error("evaluate " + t.op);
      }
    }
  }
  if (r !== undefined) memo.set(t, r);
  return r;
}

const asRat = (x) => (typeof x === "number" ? { n: BigInt(x), d: 1n } : x);
function evalReal(t, xs) {
  if (t.op === "to_real") return asRat(xs[0]);
  if (t.op === "to_int") {
    const { n, d } = asRat(xs[0]);
    let q = n / d;
    if (n % d !== 0n && n < 0n) q -= 1n;
    return Number(q);
  }
  if (t.args[0].sort !== "Real") {
    // integer operator over arguments that contain reals deeper down
    switch (t.op) {
      case "=": return xs[0] === xs[1];
      case "<=": return xs[0] <= xs[1];
      case "+": return xs.reduce((p, q) => p + q, 0);
      case "*": return xs[0] * xs[1];
      case "div": return Math.floor(xs[0] / xs[1]);
      case "mod": return ((xs[0] % xs[1]) + xs[1]) % xs[1];
    }
    return undefined;
  }
  const a = asRat(xs[0]);
  const b = asRat(xs[1]);
  switch (t.op) {
    case "=": return a.n * b.d === b.n * a.d;
    case "<=": return a.n * b.d <= b.n * a.d;
    case "+": {
      const r = xs.map(asRat).reduce((p, q) => ({ n: p.n * q.d + q.n * p.d, d: p.d * q.d }));
      const g = gcd(r.n, r.d) || 1n;
      return { n: r.n / g, d: r.d / g };
    }
    case "*": {
      const n = a.n * b.n;
      const d = a.d * b.d;
      const g = gcd(n, d) || 1n;
      return { n: n / g, d: d / g };
    }
  }
  return undefined;
}

function constToSmt(t) {
  if (t.op === "int") return t.val < 0 ? `(- ${-t.val})` : String(t.val);
  const { n, d } = t.val;
  const s = d === 1n ? `${n < 0n ? -n : n}.0` : `(/ ${n < 0n ? -n : n}.0 ${d}.0)`;
  return n < 0n ? `(- ${s})` : s;
}

function resetTable() {
  // keep ids unique; drop the table so long explorations do not grow forever
  table = new Map();
  intCache.clear();
  table.set("true|Bool#true", TRUE);
  table.set("false|Bool#false", FALSE);
}
const tableSize = () => table.size;

module.exports = {
  Term, TRUE, FALSE, bool, int, rat, realOfNumber, variable, isConst, not, and, or, ite, eq, le, lt, ge, gt,
  add, sub, mul, neg, div, mod, floor, toReal, evaluate, constToSmt, setRange, rangeOf, ratOf, cmpConst, resetTable, tableSize, ranges,
};
