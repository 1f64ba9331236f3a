"use strict";
// Date with symbolic time values (UTC arithmetic only; local-time methods use
// the process zone, which the checks fix to UTC).
const Y = require("./sym");
const T = require("./term");
const { SymNum, isSym, mkNum } = Y;

// days from civil (proleptic Gregorian), month 1..12 concrete or symbolic
function daysFromCivil(y, m, d) {
  // y, m, d Int terms. Uses the era-free formula with year starting in March.
  const early = T.le(m, T.int(2));
  const yy = T.ite(early, T.sub(y, T.int(1)), y);
  const mp = T.ite(early, T.add(m, T.int(9)), T.sub(m, T.int(3)));
  const doy = T.add(T.div(T.add(T.mul(T.int(153), mp), T.int(2)), 5), T.sub(d, T.int(1)));
  return T.add(T.mul(T.int(365), yy), T.div(yy, 4), T.neg(T.div(yy, 100)), T.div(yy, 400), doy, T.int(-719468));
}
const it = (x) => {
  x = Y.toNumber(x);
  if (x instanceof SymNum) return x.t.sort === "Int" ? x.t : Y.numTerm(Y.truncModel(x));
  return Number.isFinite(x) ? T.int(Math.trunc(x)) : null;
};
// literal: setFullYear takes years 0..99 as they are, Date.UTC and new Date as 19xx
function utcTerm(args, literal) {
  const [y, mo = 0, d = 1, h = 0, mi = 0, s = 0, ms = 0] = args;
  const ts = [y, mo, d, h, mi, s, ms].map(it);
  if (ts.some((t) => t === null)) return null;
  let [Yr, Mo, D, H, Mi, S_, Ms] = ts;
  // two-digit years
  if (literal) {
    // as given
  } else if (Yr.op === "int") {
    if (Yr.val >= 0 && Yr.val <= 99) Yr = T.int(1900 + Yr.val);
  } else if (Y.truthy(Y.mkBool(T.and(T.le(T.int(0), Yr), T.le(Yr, T.int(99)))))) Yr = T.add(Yr, T.int(1900));
  // the fields of an instant already taken apart give that instant back
  const cx0 = Y.getContext();
  for (const [, f] of cx0.dateFields) {
    if (f.t !== undefined && f.y === Yr && T.sub(f.m, T.int(1)) === Mo && f.d === D && f.H === H && f.Mi === Mi && f.S === S_) return T.add(f.t, T.sub(Ms, f.Ms));
  }
  // month carry
  const carry = T.div(Mo, 12);
  const m1 = T.add(T.mod(Mo, 12), T.int(1));
  const days = T.add(daysFromCivil(T.add(Yr, carry), m1, T.int(1)), T.sub(D, T.int(1)));
  const res = T.add(T.mul(T.int(86400000), days), T.mul(T.int(3600000), H), T.mul(T.int(60000), Mi), T.mul(T.int(1000), S_), Ms);
  // Remember the fields of an instant built from normal fields: reading it back
  // (possibly moved by less than a day) then needs no calendar inversion.
  const cx = Y.getContext();
  if (res.op !== "int" && !cx.dateBases.some((b) => b.t === res)) {
    const in_ = (x, lo, hi) => T.and(T.le(T.int(lo), x), T.le(x, T.int(hi)));
    const mm = T.add(Mo, T.int(1));
    const normal = T.and(in_(Mo, 0, 11), in_(H, 0, 23), in_(Mi, 0, 59), in_(S_, 0, 59), in_(Ms, 0, 999), T.le(T.int(1), D), T.le(D, dimTerm(Yr, mm)));
    if (Y.truthy(Y.mkBool(normal))) cx.dateBases.push({ t: res, y: Yr, m: mm, d: D, H, Mi, S: S_, Ms });
  }
  return res;
}
function dimTerm(y, m) {
  const leap = T.or(T.and(T.eq(T.mod(y, 4), T.int(0)), T.not(T.eq(T.mod(y, 100), T.int(0)))), T.eq(T.mod(y, 400), T.int(0)));
  const short = T.or(T.eq(m, T.int(4)), T.eq(m, T.int(6)), T.eq(m, T.int(9)), T.eq(m, T.int(11)));
  return T.ite(T.eq(m, T.int(2)), T.ite(leap, T.int(29), T.int(28)), T.ite(short, T.int(30), T.int(31)));
}
const DAY = 86400000;
const isTrue = (t) => Y.truthy(Y.mkBool(t));
// the calendar fields of an instant
function fields(t) {
  const cx = Y.getContext();
  let r = cx.dateFields.get(t.id);
  if (r === undefined) {
    r = { ...(fieldsNear(cx, t) ?? fieldsOf(t)), t };
    cx.dateFields.set(t.id, r);
  }
  return r;
}
function fieldsOf(t) {
  const c = civil(T.div(t, DAY));
  const ms = T.mod(t, DAY);
  return { ...c, H: T.div(ms, 3600000), Mi: T.mod(T.div(ms, 60000), 60), S: T.mod(T.div(ms, 1000), 60), Ms: T.mod(ms, 1000) };
}
function multipleOf(t, n) {
  if (t.op === "int") return t.val % n === 0;
  if (t.op === "+") return t.args.every((x) => multipleOf(x, n));
  return t.op === "*" && t.args[0].op === "int" && t.args[0].val % n === 0;
}
function fieldsNear(cx, t) {
  for (const b of cx.dateBases) {
    const diff = T.sub(t, b.t);
    if (diff.op === "int" && diff.val === 0) return b;
    const rg = T.rangeOf(diff);
    if (!rg || rg[0] < -DAY || rg[1] > DAY) continue;
    let H, Mi, S_, Ms, tot, unit;
    if (multipleOf(diff, 60000)) {
      unit = 60000;
      tot = T.add(T.mul(T.int(60), b.H), b.Mi, T.div(diff, 60000));
    } else {
      unit = 1;
      tot = T.add(T.mul(T.int(3600000), b.H), T.mul(T.int(60000), b.Mi), T.mul(T.int(1000), b.S), b.Ms, diff);
    }
    const per = DAY / unit;
    let shift = 0;
    if (isTrue(T.lt(tot, T.int(0)))) shift = -1;
    else if (isTrue(T.le(T.int(per), tot))) shift = 1;
    tot = T.sub(tot, T.int(shift * per));
    if (unit === 60000) {
      H = T.div(tot, 60);
      Mi = T.sub(tot, T.mul(T.int(60), H));
      S_ = b.S;
      Ms = b.Ms;
    } else {
      H = T.div(tot, 3600000);
      Mi = T.mod(T.div(tot, 60000), 60);
      S_ = T.mod(T.div(tot, 1000), 60);
      Ms = T.mod(tot, 1000);
    }
    let { y, m, d } = b;
    if (shift === 1) {
      if (isTrue(T.eq(d, dimTerm(y, m)))) {
        d = T.int(1);
        if (isTrue(T.eq(m, T.int(12)))) {
          m = T.int(1);
          y = T.add(y, T.int(1));
        } else m = T.add(m, T.int(1));
      } else d = T.add(d, T.int(1));
    } else if (shift === -1) {
      if (isTrue(T.eq(d, T.int(1)))) {
        if (isTrue(T.eq(m, T.int(1)))) {
          m = T.int(12);
          y = T.sub(y, T.int(1));
        } else m = T.sub(m, T.int(1));
        d = dimTerm(y, m);
      } else d = T.sub(d, T.int(1));
    }
    return { y, m, d, H, Mi, S: S_, Ms };
  }
  return undefined;
}
// civil from days, introducing fresh y/m/d constrained by daysFromCivil
function civil(dayTerm) {
  const cx = Y.getContext();
  const key = "civ" + dayTerm.id;
  let r = cx.civil.get(key);
  if (r === undefined) {
    if (dayTerm.op === "int") {
      const d = new Date(dayTerm.val * 86400000);
      r = { y: T.int(d.getUTCFullYear()), m: T.int(d.getUTCMonth() + 1), d: T.int(d.getUTCDate()) };
    } else {
      const y = cx.fresh("cy", -3000, 12000);
      const m = cx.fresh("cm", 1, 12);
      const d = cx.fresh("cd", 1, 31);
      cx.assertTerm(T.and(T.le(d, dimTerm(y, m)), T.eq(daysFromCivil(y, m, d), dayTerm)), true);
      r = { y, m, d };
    }
    cx.civil.set(key, r);
  }
  return r;
}

class SymDateBase {}
function make(DateNative) {
  const D = function (...args) {
    if (new.target === undefined) return DateNative();
    if (args.length === 1 && args[0] instanceof DateModel0 && args[0]._t) return new SymDate(args[0]._t);
    if (args.length === 1 && args[0] instanceof SymNum) {
      const t = it(args[0]);
      return new SymDate(t);
    }
    if (args.some(isSym) && args.length > 1) {
      const t = utcTerm(args);
      return t === null ? new DateNative(NaN) : new SymDate(t);
    }
    if (args.length === 1 && isSym(args[0])) return new DateNative(Y.concretize(args[0], "Date string parse"));
    if (args.length === 1 && typeof args[0] === "string") return new DateNative(Y.concretize(args[0], "Date string parse"));
    return Reflect.construct(DateNative, args, new.target === D ? DateNative : new.target);
  };
  D.prototype = DateNative.prototype;
  D.now = () => DateModel0.nowHook ? DateModel0.nowHook() : DateNative.now();
  D.parse = (s) => DateNative.parse(isSym(s) ? Y.concretize(s, "Date.parse") : s);
  D.UTC = (...args) => {
    if (!args.some(isSym)) return DateNative.UTC(...args);
    const t = utcTerm(args);
    return t === null ? NaN : mkNum(t);
  };
  return D;
}
const DateModel0 = make(Date);
class SymDate extends Date {
  constructor(t) {
    super(0);
    this._t = t;
  }
  _day() {
    return T.div(this._t, 86400000);
  }
}
const def = (k, f) => {
  SymDate.prototype["getUTC" + k] = f;
  SymDate.prototype["get" + k] = f; // TZ=UTC
};
def("FullYear", function () { return mkNum(fields(this._t).y); });
def("Month", function () { return mkNum(T.sub(fields(this._t).m, T.int(1))); });
def("Date", function () { return mkNum(fields(this._t).d); });
def("Day", function () { return mkNum(T.mod(T.add(this._day(), T.int(4)), 7)); });
def("Hours", function () { return mkNum(fields(this._t).H); });
def("Minutes", function () { return mkNum(fields(this._t).Mi); });
def("Seconds", function () { return mkNum(fields(this._t).S); });
def("Milliseconds", function () { return mkNum(fields(this._t).Ms); });
SymDate.prototype.getTime = SymDate.prototype.valueOf = function () { return mkNum(this._t); };
Object.defineProperty(SymDate.prototype, Symbol.toPrimitive, { value: function (hint) { return hint === "string" ? this.toString() : this.getTime(); } });
SymDate.prototype.getTimezoneOffset = () => 0;
function setter(k, idx) {
  const f = function (...vals) {
    const c = fields(this._t);
    const cur = [mkNum(c.y), mkNum(T.sub(c.m, T.int(1))), mkNum(c.d), this.getUTCHours(), this.getUTCMinutes(), this.getUTCSeconds(), this.getUTCMilliseconds()];
    vals.forEach((v, i) => (cur[idx + i] = v));
    const t = utcTerm(cur, true);
    this._t = t;
    return mkNum(t);
  };
  SymDate.prototype["setUTC" + k] = f;
  SymDate.prototype["set" + k] = f;
}
setter("FullYear", 0);
setter("Month", 1);
setter("Date", 2);
setter("Hours", 3);
setter("Minutes", 4);
setter("Seconds", 5);
setter("Milliseconds", 6);
SymDate.prototype.setTime = function (t) {
  this._t = it(t);
  return mkNum(this._t);
};
SymDate.prototype.toString = function () { return new Date(Y.concretize(this.getTime(), "Date.toString")).toString(); };
SymDate.prototype.toISOString = function () {
  const p = (n, w) => Y.S.padStart.call(Y.toStr(n), w, "0");
  const parts = [p(this.getUTCFullYear(), 4), "-", p(Y.arith("+", this.getUTCMonth(), 1), 2), "-", p(this.getUTCDate(), 2), "T", p(this.getUTCHours(), 2), ":", p(this.getUTCMinutes(), 2), ":", p(this.getUTCSeconds(), 2), ".", p(this.getUTCMilliseconds(), 3), "Z"];
  return parts.reduce((a, b) => Y.concat(a, b));
};
SymDate.prototype.toJSON = function () { return this.toISOString(); };

// a native Date about to receive a symbolic field becomes a SymDate in place
function adopt(d) {
  const t = d.getTime();
  Object.setPrototypeOf(d, SymDate.prototype);
  d._t = T.int(t);
}
module.exports = { fields, DateModel: DateModel0, SymDate, daysFromCivil, adopt };
