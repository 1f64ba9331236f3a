"use strict";
// The runtime that instrumented code calls ($), and the modelled globals.
const Y = require("./sym");
const T = require("./term");
const { SymStr, SymNum, SymBool, isSym, lift, mkBool, mkNum, truthy, S, A } = Y;

let V; // hand-over slot for && || ?. (read immediately after being set)
const nativeStringProto = String.prototype;
const AP = Array.prototype;

const modelOfNative = new Map();
for (const k of Object.keys(S)) if (typeof nativeStringProto[k] === "function") modelOfNative.set(nativeStringProto[k], { kind: "string", f: S[k] });
for (const k of Object.keys(A)) if (typeof AP[k] === "function") modelOfNative.set(AP[k], { kind: "array", f: A[k] });
modelOfNative.set(RegExp.prototype.test, { kind: "re", f: function (s) { return Y.reTest(this, s); } });
modelOfNative.set(RegExp.prototype.exec, { kind: "re", f: function (s) { return Y.reExec(this, s); } });
modelOfNative.set(Object.prototype.hasOwnProperty, { kind: "obj", f: function (k) { return Y.hasOwn(this, k); } });
modelOfNative.set(Object.prototype.propertyIsEnumerable, { kind: "obj", f: function (k) {
  if (typeof k === "string" && Y.hasMarker(k) && Object.prototype.propertyIsEnumerable.call(this, k)) return true;
  k = lift(k);
  if (k instanceof SymStr) {
    for (const n of Object.keys(this)) if (truthy(mkBool(Y.csEq(Y.csOf(n), k.cs)))) return true;
    return false;
  }
  return Object.prototype.propertyIsEnumerable.call(this, k);
} });

function applyFn(f, th, args) {
  const m = modelOfNative.get(f);
  if (m !== undefined) {
    if (m.kind === "array") return m.f.apply(th, args);
    if (m.kind === "string") {
      if (typeof th === "string" && !Y.hasMarker(th) && !args.some(symArg)) return wrapStringNative(f, th, args);
      return m.f.apply(lift(th), args);
    }
    if (m.kind === "re" || m.kind === "obj") return m.f.apply(th, args);
  }
  return Reflect.apply(f, th, args);
}
const symArg = (a) => isSym(a) || (typeof a === "string" && Y.hasMarker(a));
function wrapStringNative(f, th, args) {
  // replace() with a callback that may produce symbolic strings
  if (typeof args[1] === "function" && (f === nativeStringProto.replace || f === nativeStringProto.replaceAll)) {
    return Y.replaceModel(th, args[0], args[1], f === nativeStringProto.replaceAll);
  }
  return Reflect.apply(f, th, args);
}

const $ = {
  T(x) {
    V = x;
    return truthy(x);
  },
  V() {
    const v = V;
    V = undefined;
    return v;
  },
  N(x) {
    V = x;
    return x == null;
  },
  NM(o, k) {
    const f = $.idx(o, k);
    V = [o, f];
    return f == null;
  },
  NMs(o, f) {
    V = [o, f];
    return f == null;
  },
  capply(p, args) {
    return applyFn(p[1], p[0], args);
  },
  truthy,
  not(x) {
    if (x instanceof SymBool) return mkBool(T.not(x.t));
    if (x instanceof SymNum) return mkBool(T.not(Y.truthTerm(x)));
    return !truthy(x);
  },
  band(a, b) {
    if (a === false || b === false) return false;
    return mkBool(T.and(Y.truthTerm(a), Y.truthTerm(b)));
  },
  bor(a, b) {
    if (a === true || b === true) return true;
    return mkBool(T.or(Y.truthTerm(a), Y.truthTerm(b)));
  },
  neg(x) {
    if (typeof x === "bigint") return -x;
    x = Y.toNumber(x);
    return x instanceof SymNum ? mkNum(T.neg(x.t)) : -x;
  },
  pos(x) {
    return Y.toNumber(x);
  },
  bnot(x) {
    x = Y.toNumber(x);
    return x instanceof SymNum ? ~Y.concretize(x, "~") : ~x;
  },
  typeOf: Y.typeOf,
  inst(a, b) {
    if (isSym(a)) return false;
    return a instanceof b;
  },
  add(a, b) {
    const ta = typeof a;
    const tb = typeof b;
    if (ta !== "object" && tb !== "object" && ta !== "function" && tb !== "function") {
      if (ta === "string" || tb === "string") {
        const sa = ta === "string" && Y.hasMarker(a);
        const sb = tb === "string" && Y.hasMarker(b);
        if (sa || sb) return Y.concat(Y.toStr(a), Y.toStr(b));
      }
      return a + b;
    }
    a = Y.toPrim(a, "default");
    b = Y.toPrim(b, "default");
    if (Y.isStrLike(a) || Y.isStrLike(b)) return Y.concat(Y.toStr(a), Y.toStr(b));
    if (isSym(a) || isSym(b)) return Y.arith("+", a, b);
    return a + b;
  },
  ar(op, a, b) {
    if (typeof a === "bigint" || typeof b === "bigint") {
      switch (op) {
        case "-": return a - b;
        case "*": return a * b;
        case "/": return a / b;
        case "%": return a % b;
        case "**": return a ** b;
        case "&": return a & b;
        case "|": return a | b;
        case "^": return a ^ b;
        case "<<": return a << b;
        case ">>": return a >> b;
      }
    }
    return Y.arith(op, a, b);
  },
  cmp(op, a, b) {
    return Y.compare(op, a, b);
  },
  eq3(a, b) {
    return mkBool(Y.eqTerm(a, b));
  },
  ne3(a, b) {
    return mkBool(T.not(Y.eqTerm(a, b)));
  },
  eq2(a, b) {
    return mkBool(Y.looseEqTerm(a, b));
  },
  ne2(a, b) {
    return mkBool(T.not(Y.looseEqTerm(a, b)));
  },
  inc(x, d) {
    if (typeof x === "bigint") return x + BigInt(d);
    return Y.arith("+", x, d);
  },
  post(old) {
    return typeof old === "bigint" ? old : Y.toNumber(old);
  },
  tmpl(strs, vals) {
    let out = strs[0];
    for (let i = 0; i < vals.length; i++) out = Y.concat(Y.concat(out, Y.toStr(vals[i])), strs[i + 1]);
    return out;
  },
  idx(o, k) {
    if (typeof k === "number" && !(o instanceof SymStr) && typeof o !== "string") return o[k];
    if (typeof k === "symbol") return o[k];
    return Y.getIdx(o, k);
  },
  setIdx: (o, k, v) => (typeof k === "symbol" ? (o[k] = v) : Y.setIdx(o, k, v)),
  updI(o, k, op, v) {
    return $.setIdx(o, k, $.bin(op, $.idx(o, k), v));
  },
  updP(o, k, op, v) {
    return (o[k] = $.bin(op, o[k], v));
  },
  incI(o, k, d, post) {
    const old = $.post($.idx(o, k));
    const nv = $.inc(old, d);
    $.setIdx(o, k, nv);
    return post ? old : nv;
  },
  incP(o, k, d, post) {
    const old = $.post(o[k]);
    const nv = $.inc(old, d);
    o[k] = nv;
    return post ? old : nv;
  },
  bin(op, a, b) {
    if (op === "+") return $.add(a, b);
    return $.ar(op, a, b);
  },
  delI: Y.deleteIdx,
  in: (k, o) => (typeof k === "symbol" ? k in o : Y.hasIn(k, o)),
  len(o) {
    if (typeof o === "string" && Y.hasMarker(o)) return lift(o).length;
    return o.length;
  },
  c(e) {
    if (e instanceof Y.Abort) throw e;
    const cx = Y.getContext();
    if (cx !== null && cx.aborted) throw cx.aborted;
    return e;
  },
  enter(id) {
    const cx = Y.getContext();
    if (cx !== null) cx.entered.add(id);
  },
  loop() {
    const cx = Y.getContext();
    if (cx !== null && ++cx.steps > cx.maxSteps) cx.abort("step bound");
  },
  mcall(o, k, args) {
    if (typeof o === "string") {
      const f = nativeStringProto[k];
      if (f !== undefined) return applyFn(f, o, args);
    } else if (o instanceof SymStr && typeof k === "string") {
      const f = o[k];
      if (typeof f !== "function") throw new TypeError(`${String(k)} is not a function`);
      return f.apply(o, args);
    }
    const f = typeof k === "string" || typeof k === "symbol" || typeof k === "number" ? o[k] : $.idx(o, k);
    if (typeof f !== "function") throw new TypeError(`${String(k)} is not a function`);
    if (typeof o === "function" && modelOfNative.has(o)) {
      if (k === "call") return applyFn(o, args[0], args.slice(1));
      if (k === "apply") return applyFn(o, args[0], [...(args[1] ?? [])]);
    }
    if (o instanceof Date && o._t === undefined && args.some(isSym) && typeof k === "string" && k.startsWith("set")) {
      require("./datemodel").adopt(o);
      return o[k](...args);
    }
    return applyFn(f, o, args);
  },
};

// ------- modelled globals injected into instrumented modules
function anySym(args) {
  return args.some((a) => isSym(a) || (typeof a === "string" && Y.hasMarker(a)));
}
function fn(target, impl, statics = {}) {
  return new Proxy(target, {
    apply: (_t, th, args) => impl.apply(th, args),
    get: (t, k, r) => (k in statics ? statics[k] : Reflect.get(t, k, t)),
  });
}
function isIntTerm(x) {
  if (x.t.sort === "Int") return true;
  return mkBool(T.eq(T.toReal(T.floor(x.t)), x.t));
}
const NumberModel = fn(Number, function (x) {
  return arguments.length === 0 ? 0 : Y.toNumber(x);
}, {
  isFinite: (x) => (x instanceof SymNum ? true : Number.isFinite(x)),
  isNaN: (x) => (x instanceof SymNum ? false : Number.isNaN(x)),
  isInteger: (x) => (x instanceof SymNum ? isIntTerm(x) : Number.isInteger(x)),
  isSafeInteger: (x) => (x instanceof SymNum ? isIntTerm(x) : Number.isSafeInteger(x)),
  parseInt: Y.parseIntModel,
  parseFloat: Y.parseFloatModel,
});
const StringModel = fn(String, function (x) {
  return arguments.length === 0 ? "" : typeof x === "symbol" ? String(x) : Y.toStr(x);
}, {
  fromCharCode: (...cs) => Y.mkStr(cs.map((c) => {
    c = Y.toNumber(c);
    return c instanceof SymNum ? (T.rangeOf(c.t) && T.rangeOf(c.t)[0] >= 0 && T.rangeOf(c.t)[1] <= 0xffff ? c.t : T.mod(c.t, 65536)) : c & 0xffff;
  })),
  fromCodePoint: (...cs) => Y.mkStr(cs.flatMap((c) => {
    c = Y.toNumber(c);
    if (!(c instanceof SymNum)) return Y.codeUnits(String.fromCodePoint(c));
    if (truthy(mkBool(T.or(T.lt(c.t, T.int(0)), T.gt(c.t, T.int(0x10ffff)))))) throw new RangeError("Invalid code point");
    if (truthy(mkBool(T.lt(c.t, T.int(0x10000))))) return [c.t];
    const o = T.sub(c.t, T.int(0x10000));
    return [T.add(T.div(o, 1024), T.int(0xd800)), T.add(T.mod(o, 1024), T.int(0xdc00))];
  })),
});
const BooleanModel = fn(Boolean, (x) => (x instanceof SymBool ? x : x instanceof SymNum ? mkBool(Y.truthTerm(x)) : truthy(x)));
const num1 = (f, name) => (x) => {
  x = Y.toNumber(x);
  return x instanceof SymNum ? f(x) : Math[name](x);
};
const MathModel = Object.create(Math, {});
Object.assign(MathModel, {
  floor: num1((x) => mkNum(T.floor(x.t)), "floor"),
  ceil: num1((x) => (x.t.sort === "Int" ? x : mkNum(T.neg(T.floor(T.neg(x.t))))), "ceil"),
  round: num1((x) => (x.t.sort === "Int" ? x : mkNum(T.floor(T.add(x.t, T.rat(1, 2))))), "round"),
  trunc: num1((x) => Y.truncModel(x), "trunc"),
  abs: num1((x) => {
    const r = T.rangeOf(x.t);
    if (r && r[0] >= 0) return x;
    return mkNum(T.ite(T.lt(x.t, x.t.sort === "Int" ? T.int(0) : T.rat(0, 1)), T.neg(x.t), x.t));
  }, "abs"),
  sign: num1((x) => {
    const z = x.t.sort === "Int" ? T.int(0) : T.rat(0, 1);
    return mkNum(T.ite(T.lt(x.t, z), T.int(-1), T.ite(T.eq(x.t, z), T.int(0), T.int(1))));
  }, "sign"),
  max: (...xs) => minmax(xs, "max"),
  min: (...xs) => minmax(xs, "min"),
  pow: (a, b) => Y.arith("**", a, b),
});
for (const k of Object.getOwnPropertyNames(Math)) {
  if (Object.prototype.hasOwnProperty.call(MathModel, k)) continue;
  const v = Math[k];
  if (typeof v === "function") MathModel[k] = (...a) => v(...a.map((x) => (isSym(x) ? Y.concretize(Y.toNumber(x), "Math." + k) : x)));
}
function minmax(xs, name) {
  xs = xs.map((x) => Y.toNumber(x));
  if (!anySym(xs)) return Math[name](...xs);
  if (xs.some((x) => !isSym(x) && Number.isNaN(x))) return NaN;
  return xs.reduce((p, q) => {
    if (!isSym(p) && !isSym(q)) return Math[name](p, q);
    const inf = (v) => !isSym(v) && !Number.isFinite(v);
    if (inf(p)) return (p > 0) === (name === "max") ? p : q;
    if (inf(q)) return (q > 0) === (name === "max") ? q : p;
    const a = Y.numTerm(p);
    const b = Y.numTerm(q);
    const c = T.le(a, b);
    return mkNum(name === "min" ? T.ite(c, a, b) : T.ite(c, b, a));
  });
}
const ObjectModel = fn(Object, function (x) {
  return isSym(x) ? x : Object(x);
}, {
  // a symbolic zero is +0: parsing "-0" yields a concrete -0
  is: (a, b) => (Object.is(a, -0) || Object.is(b, -0) ? Object.is(a, b) : anySym([a, b]) ? mkBool(Y.sameTerm(a, b)) : Object.is(a, b)),
  hasOwn: (o, k) => Y.hasOwn(o, k),
  fromEntries: (it) => {
    const o = {};
    for (const e of it) {
      const k = Y.getIdx(e, 0);
      // (defines, never assigns: __proto__ is a key like any other)
      if (k === "__proto__") Object.defineProperty(o, k, { value: Y.getIdx(e, 1), configurable: true, enumerable: true, writable: true });
      else Y.setIdx(o, k, Y.getIdx(e, 1));
    }
    return o;
  },
  keys: (o) => (o instanceof SymStr ? o.cs.map((_, i) => String(i)) : Object.keys(o)),
});
const jsonMarkerRE = /"\uE004(\d+)\uE005"/g;
const JSONModel = {
  stringify(v, replacer, space) {
    if (isSym(space)) space = Y.concretize(space, "JSON.stringify space");
    if (typeof v === "string" && Y.hasMarker(v)) v = lift(v);
    const cx = Y.getContext();
    const walk = (x, seen) => {
      if (typeof x === "string" && Y.hasMarker(x)) return lift(x);
      if (x === null || typeof x !== "object" || isSym(x) || typeof x.toJSON === "function") return x;
      if (seen.has(x)) return x;
      seen.add(x);
      let changed = false;
      let out;
      if (Array.isArray(x)) {
        out = x.map((e) => {
          const r = walk(e, seen);
          if (r !== e) changed = true;
          return r;
        });
      } else {
        const proto = Object.getPrototypeOf(x);
        if (proto !== Object.prototype && proto !== null) {
          seen.delete(x);
          return x;
        }
        out = Object.create(proto);
        for (const k of Object.keys(x)) {
          const r = walk(x[k], seen);
          if (r !== x[k]) changed = true;
          Object.defineProperty(out, k, { value: r, enumerable: true, writable: true, configurable: true });
        }
      }
      seen.delete(x);
      return changed ? out : x;
    };
    const s = JSON.stringify(walk(v, new Set()), replacer, space);
    if (s === undefined || cx === null || cx.markers.length === 0) return s;
    return s.replace(jsonMarkerRE, "\uE004$1\uE005").replaceAll("\uE000", "\uE002").replaceAll("\uE001", "\uE003");
  },
  parse(s, reviver) {
    s = lift(Y.toStr(s));
    const cx = Y.getContext();
    const rev = (holder, key) => {
      const val = holder[key];
      if (val !== null && typeof val === "object" && !isSym(val)) {
        for (const k of Object.keys(val)) {
          const r = rev(val, k);
          if (r === undefined) delete val[k];
          else val[k] = r;
        }
      }
      return reviver.call(holder, key, val);
    };
    if (typeof s !== "string") {
      const v = parseSymJson(s, cx);
      return typeof reviver === "function" ? rev({ "": v }, "") : v;
    }
    if (cx === null || cx.markers.length === 0 || !/[\uE002\uE004]/.test(s)) return JSON.parse(s, reviver);
    s = s.replace(/\uE004(\d+)\uE005/g, '"\uE004$1\uE005"');
    const raw = JSON.parse(s);
    const sub = (x) => {
      if (typeof x === "string") {
        const m = /^\uE004(\d+)\uE005$/.exec(x);
        if (m) return cx.markers[+m[1]];
        if (x.includes("\uE002")) return lift(x.replaceAll("\uE002", "\uE000").replaceAll("\uE003", "\uE001"));
        return x;
      }
      if (Array.isArray(x)) return x.map(sub);
      if (x !== null && typeof x === "object") {
        const o = {};
        for (const k of Object.keys(x)) {
          const kk = k.replaceAll("\uE002", "\uE000").replaceAll("\uE003", "\uE001");
          if (kk === "__proto__") Object.defineProperty(o, kk, { value: sub(x[k]), enumerable: true, writable: true, configurable: true });
          else o[kk] = sub(x[k]);
        }
        return o;
      }
      return x;
    };
    const v = sub(raw);
    if (typeof reviver !== "function") return v;
    return rev({ "": v }, "");
  },
};
// JSON text with symbolic units: a recursive descent parser that branches on
// each symbolic unit's role.
function parseSymJson(str, cx) {
  const cs = str.cs;
  let i = 0;
  const is = (c, ...codes) => (typeof c === "number" ? codes.includes(c) : Y.truthy(mkBool(T.or(...codes.map((k) => T.eq(c, T.int(k)))))));
  const lt = (c, k) => (typeof c === "number" ? c < k : Y.truthy(mkBool(T.lt(c, T.int(k)))));
  const bad = () => {
    throw new SyntaxError(i >= cs.length ? "Unexpected end of JSON input" : `Unexpected token in JSON at position ${i}`);
  };
  const ws = () => {
    while (i < cs.length && is(cs[i], 32, 9, 10, 13)) i++;
  };
  const eat = (code) => {
    if (i >= cs.length || !is(cs[i], code)) bad();
    i++;
  };
  const text = (units) => {
    const t = Y.mkStr(units);
    return typeof t === "string" && /[\uE002]/.test(t) ? lift(t.replaceAll("\uE002", "\uE000").replaceAll("\uE003", "\uE001")) : t;
  };
  const string = () => {
    eat(34);
    const out = [];
    for (;;) {
      if (i >= cs.length) bad();
      const c = cs[i];
      if (is(c, 34)) break;
      if (lt(c, 32)) bad();
      i++;
      if (!is(c, 92)) {
        out.push(c);
        continue;
      }
      if (i >= cs.length) bad();
      const e = cs[i++];
      const simple = [[34, 34], [92, 92], [47, 47], [98, 8], [102, 12], [110, 10], [114, 13], [116, 9]].find(([k]) => is(e, k));
      if (simple) out.push(simple[1]);
      else if (is(e, 117)) {
        const hex = Y.concretize(Y.mkStr(cs.slice(i, i + 4)), "JSON \\u escape");
        if (!/^[0-9a-f]{4}$/i.test(hex)) bad();
        out.push(parseInt(hex, 16));
        i += 4;
      } else bad();
    }
    i++;
    return text(out);
  };
  const value = () => {
    ws();
    if (i >= cs.length) bad();
    const c = cs[i];
    if (c === 0xe004) {
      const end = cs.indexOf(0xe005, i);
      const n = String.fromCharCode(...cs.slice(i + 1, end));
      i = end + 1;
      return cx.markers[+n];
    }
    if (is(c, 34)) return string();
    if (is(c, 123)) {
      i++;
      const o = {};
      ws();
      if (i < cs.length && is(cs[i], 125)) return i++, o;
      for (;;) {
        ws();
        const k = string();
        ws();
        eat(58);
        const v = value();
        if (k === "__proto__") Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true });
        else Y.setIdx(o, k, v);
        ws();
        if (i < cs.length && is(cs[i], 44)) {
          i++;
          continue;
        }
        eat(125);
        return o;
      }
    }
    if (is(c, 91)) {
      i++;
      const a = [];
      ws();
      if (i < cs.length && is(cs[i], 93)) return i++, a;
      for (;;) {
        a.push(value());
        ws();
        if (i < cs.length && is(cs[i], 44)) {
          i++;
          continue;
        }
        eat(93);
        return a;
      }
    }
    let j = i;
    while (j < cs.length && !is(cs[j], 32, 9, 10, 13, 44, 93, 125)) j++;
    const lit = Y.concretize(Y.mkStr(cs.slice(i, j)), "JSON literal");
    let v;
    try {
      v = JSON.parse(lit);
    } catch {
      bad();
    }
    i = j;
    return v;
  };
  const v = value();
  ws();
  if (i < cs.length) throw new SyntaxError(`Unexpected non-whitespace character after JSON at position ${i}`);
  return v;
}
const isFiniteModel = (x) => {
  x = Y.toNumber(x);
  return x instanceof SymNum ? true : isFinite(x);
};
const isNaNModel = (x) => {
  x = Y.toNumber(x);
  return x instanceof SymNum ? false : isNaN(x);
};

const { DateModel } = require("./datemodel");

const globals = {
  Number: NumberModel,
  String: StringModel,
  Boolean: BooleanModel,
  Math: MathModel,
  Object: ObjectModel,
  JSON: JSONModel,
  Set: Y.ModelSet,
  Map: Y.ModelMap,
  Date: DateModel,
  Intl: require("./intlmodel").IntlModel,
  Uint8Array: require("./bytesmodel").Uint8Array,
  Buffer: require("./bytesmodel").Buffer,
  TextDecoder: require("./bytesmodel").TextDecoder,
  parseInt: Y.parseIntModel,
  parseFloat: Y.parseFloatModel,
  isFinite: isFiniteModel,
  isNaN: isNaNModel,
};
modelOfNative.set(Number.isFinite, undefined);
modelOfNative.delete(Number.isFinite);

module.exports = { $, globals, applyFn };
