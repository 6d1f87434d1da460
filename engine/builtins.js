'use strict';
// Models of the remaining built-ins reached by the code under check.
const T = require('./terms');
const rt = require('./runtime');
const V = require('./values');
const { SymBool, SymInt, SymRat, SymFP, SymStr, isSym, isNumSym, mkBool, mkStr, units } = V;
const { MODELS, CONS, NATIVE, SAFE, branch, pickTerm, concretise, toStr, toNum, mkInt, mkRat, unsupported, isPh, keyVal, argInt, relInt } = rt;
const invoke = (...a) => rt.invoke(...a);
const truth = x => rt.truth(x);
const model = (f, impl) => f && MODELS.set(f, impl);
const S = rt.S;
const anySym = (self, args) => isSym(self) || args.some(isSym);

/* ------------------------------------------------------------- Function */
model(Function.prototype.call, (self, args) => invoke(self, args[0], args.slice(1)));
model(Function.prototype.apply, (self, args) => invoke(self, args[0], args[1] === undefined || args[1] === null ? [] : Array.from(args[1])));
model(Function.prototype.bind, (self, args) => {
    if (typeof self !== 'function' || !rt.isNative(self)) return NATIVE;
    const [t, ...pre] = args;
    if (!MODELS.has(self)) return NATIVE;
    const f = function (...rest) {
        return invoke(self, t, [...pre, ...rest]);
    };
    Object.defineProperty(f, 'name', { value: 'bound ' + self.name });
    return f;
});
model(Reflect.apply, (self, [f, t, args]) => invoke(f, t, Array.from(args)));
model(Reflect.construct, (self, [C, args, nt]) => {
    if (nt === undefined || nt === C) return S.new_(C, Array.from(args));
    return typeof C === 'function' && !rt.isNative(C) && !CONS.has(C) ? Reflect.construct(C, Array.from(args), nt) : NATIVE;
});
const reflectSet = (o, k, v) => {
    try {
        S.set(o, k, v);
        return true;
    } catch (e) {
        if (e instanceof TypeError) return false; // a property that cannot be written
        throw e;
    }
};
model(Reflect.get, (self, [o, k]) => (isSym(k) || rt.keys.length ? S.get(o, k) : NATIVE));
model(Reflect.set, (self, [o, k, v]) => (isSym(k) || rt.keys.length ? reflectSet(o, k, v) : NATIVE));
model(Reflect.has, (self, [o, k]) => S.in_(k, o));
model(Reflect.deleteProperty, (self, [o, k]) => {
    if (!isSym(k) && !rt.keys.length) return NATIVE;
    try {
        return S.del(o, k);
    } catch (e) {
        if (e instanceof TypeError) return false; // a property that cannot be deleted
        throw e;
    }
});

/* --------------------------------------------------------------- Object */
const O = Object;
const plainKeys = ks => ks.map(k => (isPh(k) ? keyVal(k) : k));
const withKeys = f =>
    model(f, (self, args) => {
        if (args[0] instanceof SymStr) args = [Object(mkStr(args[0].u.map(() => 97))), ...args.slice(1)];
        else if (isSym(args[0])) return [];
        const r = Reflect.apply(f, self, args);
        return rt.keys.length ? plainKeys(r) : r;
    });
withKeys(O.keys);
withKeys(O.getOwnPropertyNames);
withKeys(Reflect.ownKeys);
model(O.entries, (self, [o]) => {
    if (o instanceof SymStr) return o.u.map((u, i) => [String(i), mkStr([u])]);
    if (isSym(o)) return [];
    const r = O.entries(o);
    return rt.keys.length ? r.map(([k, v]) => [keyVal(k), v]) : r;
});
model(O.values, (self, [o]) => {
    if (o instanceof SymStr) return o.u.map(u => mkStr([u]));
    if (isSym(o)) return [];
    return NATIVE;
});
const own = (o, k) => {
    if (o instanceof SymStr) {
        const p = rt.propKey(k);
        return p === 'length' || (/^(0|[1-9]\d*)$/.test(String(concretise(p, 'key'))) && Number(concretise(p)) < o.u.length);
    }
    if (isSym(o)) return false;
    k = rt.propKey(k);
    if (k instanceof SymStr) return rt.ownKeyFor(Object(o), k) !== undefined;
    return O.prototype.hasOwnProperty.call(o, rt.concreteKey(o, k));
};
model(O.prototype.hasOwnProperty, (self, [k]) => (!isSym(self) && !isSym(k) && !rt.keys.length ? NATIVE : own(self, k)));
model(O.hasOwn, (self, [o, k]) => (!isSym(o) && !isSym(k) && !rt.keys.length ? NATIVE : own(o, k)));
model(O.prototype.propertyIsEnumerable, (self, [k]) => (!isSym(self) && !isSym(k) ? NATIVE : own(self, k)));
const tag = x => (x instanceof SymStr ? '[object String]' : x instanceof SymBool ? '[object Boolean]' : '[object Number]');
model(O.prototype.toString, self => {
    if (isSym(self)) return tag(self);
    if (self === null || self === undefined) return NATIVE;
    const t = S.get(Object(self), Symbol.toStringTag);
    return t instanceof SymStr ? rt.concat(rt.concat('[object ', t), ']') : NATIVE;
});
model(O.prototype.valueOf, self => (isSym(self) ? self : NATIVE));
model(O.is, (self, [a, b]) => {
    if (!isSym(a) && !isSym(b)) return NATIVE;
    if (a instanceof SymFP || b instanceof SymFP) {
        const f = v => (v instanceof SymFP ? v.t : typeof v === 'number' ? v : null);
        const x = f(a);
        const y = f(b);
        if (x === null || y === null) return isNumSym(a) && isNumSym(b) ? unsupported('Object.is of mixed numbers') : false;
        return mkBool(T.fpred('same', x, y));
    }
    if (Object.is(a, -0) || Object.is(b, -0)) return false;
    return mkBool(rt.sameZeroT(a, b));
});
model(O.getPrototypeOf, (self, [x]) => (x instanceof SymStr ? String.prototype : x instanceof SymBool ? Boolean.prototype : isSym(x) ? Number.prototype : NATIVE));
model(Reflect.getPrototypeOf, (self, [x]) => {
    if (isSym(x)) throw new TypeError('Reflect.getPrototypeOf called on non-object');
    return NATIVE;
});
model(O.defineProperty, (self, [o, k, d]) => {
    if (isSym(o)) throw new TypeError('Object.defineProperty called on non-object');
    k = rt.propKey(k);
    if (k instanceof SymStr) k = rt.writeKey(o, k);
    return O.defineProperty(o, k, d);
});
model(O.getOwnPropertyDescriptor, (self, [o, k]) => {
    if (isSym(o)) return undefined;
    k = rt.propKey(k);
    if (k instanceof SymStr) {
        k = rt.ownKeyFor(o, k);
        if (k === undefined) return undefined;
    }
    return O.getOwnPropertyDescriptor(o, rt.concreteKey(o, k));
});
model(Reflect.getOwnPropertyDescriptor, (self, [o, k]) => MODELS.get(O.getOwnPropertyDescriptor)(self, [o, k]));
model(Reflect.defineProperty, (self, [o, k, d]) => {
    k = rt.propKey(k);
    if (k instanceof SymStr) k = rt.writeKey(o, k);
    return Reflect.defineProperty(o, k, d);
});
model(O.assign, (self, [t, ...src]) => {
    if (!rt.keys.length && !src.some(isSym)) return NATIVE;
    for (const s of src) {
        if (s === null || s === undefined || isSym(s)) continue;
        for (const k of Reflect.ownKeys(Object(s))) {
            const d = O.getOwnPropertyDescriptor(s, k);
            if (d && d.enumerable) S.set(t, typeof k === 'string' ? keyVal(k) : k, s[k]);
        }
    }
    return t;
});
model(O.fromEntries, (self, [it]) => {
    const o = {};
    for (const e of S.iter(it)) {
        const p = S.mkobj([[e[0], e[1]]]);
        for (const k of Reflect.ownKeys(p)) {
            const key = typeof k === 'string' ? keyVal(k) : k;
            const nk = key instanceof SymStr ? rt.ownKeyFor(o, key) || k : rt.concreteKey(o, key);
            o[nk] = p[k];
        }
    }
    return o;
});
for (const f of [ArrayBuffer.isView, O.freeze, O.seal, O.preventExtensions, O.isFrozen, O.isSealed, O.isExtensible, O.create, O.setPrototypeOf, O.getOwnPropertySymbols, O.getOwnPropertyDescriptors, O.defineProperties]) SAFE.add(f);
model(O, (self, [x]) => {
    if (!isSym(x)) return NATIVE;
    return unsupported('boxing a symbolic primitive');
});
CONS.set(Object, ([x]) => (isSym(x) ? unsupported('boxing a symbolic primitive') : NATIVE));

/* -------------------------------------------------------- Number, Boolean */
const numOf = x => (typeof x === 'bigint' ? Number(x) : x);
model(Number, (self, args) => (args.length && (isSym(args[0]) || (typeof args[0] === 'object' && args[0] !== null)) ? numOf(toNum(args[0])) : NATIVE));
model(Boolean, (self, [x]) => (isSym(x) ? mkBool(rt.truthT(x)) : NATIVE));
model(String, (self, args) => {
    if (!args.length) return '';
    const [x] = args;
    if (typeof x === 'symbol') return NATIVE;
    return toStr(x);
});
model(BigInt, (self, [x]) => (isSym(x) ? BigInt(concretise(x, 'BigInt')) : NATIVE));
for (const C of [Number, String, Boolean])
    CONS.set(C, ([x]) => (isSym(x) ? unsupported('boxing a symbolic primitive') : NATIVE));
const isFPint = t => T.fpred('mult', t, 1);
const num = f => (self, [x]) => (isSym(x) ? f(x) : NATIVE);
model(Number.isInteger, num(x => (x instanceof SymInt ? true : x instanceof SymRat ? mkBool(T.eq(T.imod(x.n, x.d), 0)) : x instanceof SymFP ? mkBool(isFPint(x.t)) : false)));
model(Number.isSafeInteger, num(x => (x instanceof SymInt ? true : x instanceof SymRat ? mkBool(T.eq(T.imod(x.n, x.d), 0)) : x instanceof SymFP ? mkBool(T.and(isFPint(x.t), T.fpred('le', T.fop('abs', x.t), Number.MAX_SAFE_INTEGER))) : false)));
model(Number.isFinite, num(x => (x instanceof SymFP ? mkBool(T.and(T.not(T.fpred('nan', x.t)), T.not(T.fpred('inf', x.t)))) : isNumSym(x))));
model(Number.isNaN, num(x => (x instanceof SymFP ? mkBool(T.fpred('nan', x.t)) : false)));
const gl = (f, m) =>
    model(f, (self, [x]) => {
        if (!isSym(x)) return NATIVE;
        const n = toNum(x);
        return isSym(n) ? MODELS.get(m)(null, [n]) : f(n);
    });
gl(isNaN, Number.isNaN);
gl(isFinite, Number.isFinite);
const NP = Number.prototype;
const thisNum = x => (isNumSym(x) ? x : Number.prototype.valueOf.call(x));
model(NP.toString, (self, [r]) => {
    if (!isSym(self) && !isSym(r)) return NATIVE;
    const radix = r === undefined ? 10 : argInt(r, 0, 40, 10);
    if (radix < 2 || radix > 36) throw new RangeError('toString() radix must be between 2 and 36');
    if (!isSym(self)) return thisNum(self).toString(radix);
    if (self instanceof SymInt) return rt.intToStr(self.t, radix);
    if (self instanceof SymRat) return concretise(self, 'text of a fraction').toString(radix);
    return unsupported('text of a float');
});
model(NP.valueOf, self => (isSym(self) ? self : NATIVE));
model(NP.toFixed, (self, [d]) => {
    if (!isSym(self) && !isSym(d)) return NATIVE;
    const digits = argInt(d, -1, 101, 0);
    if (digits < 0 || digits > 100) throw new RangeError('toFixed() digits argument must be between 0 and 100');
    if (!isSym(self)) return thisNum(self).toFixed(digits);
    if (self instanceof SymFP || (self instanceof SymRat && !self.exact) || digits > 6) return concretise(self, 'toFixed').toFixed(digits);
    const n = self instanceof SymInt ? self.t : self.n;
    const dd = self instanceof SymInt ? 1 : self.d;
    const neg = branch(T.lt(n, 0));
    const a = neg ? T.neg(n) : n;
    const p = 10 ** digits;
    // nearest multiple, ties upward in magnitude
    const m = T.idiv(T.add(T.scale(a, 2 * p), dd), 2 * dd);
    if (digits === 0) return rt.concat(neg ? '-' : '', rt.intToStr(m));
    const ip = rt.intToStr(T.idiv(m, p));
    const f = [];
    for (let i = digits - 1; i >= 0; i--) f.push(T.add(T.imod(T.idiv(m, 10 ** i), 10), 48));
    return rt.concat(rt.concat(neg ? '-' : '', ip), rt.concat('.', mkStr(f)));
});
model(NP.toLocaleString, self => (isSym(self) ? concretise(self, 'toLocaleString').toLocaleString() : NATIVE));
model(NP.toPrecision, (self, args) => (anySym(self, args) ? concretise(self, 'toPrecision').toPrecision(...args.map(a => concretise(a))) : NATIVE));
model(Boolean.prototype.toString, self => (isSym(self) ? toStr(self) : NATIVE));
model(Boolean.prototype.valueOf, self => (isSym(self) ? self : NATIVE));

/* ----------------------------------------------------------------- Math */
const round = {
    floor: (n, d) => T.idiv(n, d),
    ceil: (n, d) => T.neg(T.idiv(T.neg(n), d)),
    round: (n, d) => T.idiv(T.add(T.scale(n, 2), d), 2 * d)
};
for (const k of ['floor', 'ceil', 'round', 'trunc'])
    model(Math[k], (self, [x]) => {
        if (!isSym(x) && !(typeof x === 'object' && x !== null)) return NATIVE;
        x = toNum(x);
        if (!isSym(x)) return Math[k](x);
        if (x instanceof SymInt) return x;
        if (x instanceof SymFP) {
            if (k === 'round') return new SymFP(T.fop('floor', T.fop('add', x.t, 0.5)));
            return new SymFP(T.fop(k, x.t));
        }
        if (k === 'trunc') return mkInt(rt.truncTerm(x));
        return mkInt(round[k](x.n, x.d));
    });
model(Math.abs, (self, [x]) => {
    if (!isSym(x)) return NATIVE;
    x = toNum(x);
    if (!isSym(x)) return Math.abs(x);
    if (x instanceof SymInt) return mkInt(T.iite(T.le(0, x.t), x.t, T.neg(x.t)));
    if (x instanceof SymRat) return branch(T.le(0, x.n)) ? x : mkRat(T.neg(x.n), x.d);
    return new SymFP(T.fop('abs', x.t));
});
model(Math.sign, (self, [x]) => (isSym(x) ? rt.signOf(toNum(x)) : NATIVE));
const fpOf = v => (v instanceof SymFP ? v.t : isSym(v) ? undefined : v);
const minmax = (name, better) =>
    model(Math[name], (self, args) => {
        if (!args.some(isSym)) return NATIVE;
        const xs = args.map(toNum);
        if (xs.some(x => typeof x === 'number' && x !== x)) return NaN;
        let r = xs[0];
        for (const x of xs.slice(1)) {
            if (r instanceof SymFP || x instanceof SymFP) {
                const [p, q] = [fpOf(r), fpOf(x)];
                if (p === undefined || q === undefined) unsupported('float min/max');
                if (branch(T.fpred('nan', p)) || branch(T.fpred('nan', q))) return NaN;
                const [lo, hi] = name === 'max' ? [p, q] : [q, p];
                // the sign of zero counts: max(-0, 0) is 0, min(0, -0) is -0
                if (branch(T.fpred('lt', lo, hi)) || (branch(T.fpred('eq', p, q)) && branch(name === 'max' ? T.fpred('neg', p) : T.fpred('neg', q)))) r = x;
                continue;
            }
            const fin = v => isSym(v) || Number.isFinite(v);
            if ((r instanceof SymInt || Number.isSafeInteger(r)) && (x instanceof SymInt || Number.isSafeInteger(x))) {
                const a = isSym(r) ? r.t : r;
                const b = isSym(x) ? x.t : x;
                const m = T.iite(better(b, a), b, a);
                r = T.isT(m) ? mkInt(m) : m;
            } else if (!fin(r) || !fin(x)) {
                const [inf, o] = fin(r) ? [x, r] : [r, x];
                r = (name === 'max') === inf > 0 ? inf : o;
            } else if (branch(name === 'max' ? rt.numCmp('lt', r, x) : rt.numCmp('lt', x, r))) r = x;
        }
        return r;
    });
minmax('max', (b, a) => T.lt(a, b));
minmax('min', (b, a) => T.lt(b, a));
model(Math.pow, (self, [a, b]) => (isSym(a) || isSym(b) ? rt.arith('pow', a, b) : NATIVE));
model(Math.sqrt, (self, [x]) => {
    if (!isSym(x)) return NATIVE;
    if (x instanceof SymFP) return new SymFP(T.fop('sqrt', x.t));
    return Math.sqrt(concretise(toNum(x), 'square root'));
});
for (const k of ['log', 'log2', 'log10', 'exp', 'sin', 'cos', 'cbrt', 'hypot', 'fround', 'log1p'])
    model(Math[k], (self, args) => {
        if (!args.some(isSym)) return NATIVE;
        // exact powers decide floor(log) style uses; otherwise enumerate
        return Math[k](...args.map(a => concretise(toNum(a), 'Math.' + k)));
    });

/* ---------------------------------------------------------------- Array */
const A = Array.prototype;
const isA = Array.isArray;
const cb = (f, t, args) => invoke(f, t, args);
const needFn = f => {
    if (typeof f !== 'function') throw new TypeError(`${isSym(f) ? 'value' : String(f)} is not a function`);
};
// a text with unknown units is an array-like value of its units
const unitList = s => s.u.map(u => mkStr([u]));
const amodel = (name, impl) =>
    model(A[name], (self, args) => {
        if (isA(self)) return impl(self, args);
        if (!(self instanceof SymStr)) return NATIVE;
        const list = unitList(self);
        const r = impl(list, args);
        return r === NATIVE ? A[name].apply(list, args) : r;
    });
amodel('filter', (a, [f, t]) => {
    needFn(f);
    const out = [];
    for (let i = 0, n = a.length; i < n; i++) if (i in a) {
        const v = a[i];
        if (truth(cb(f, t, [v, i, a]))) out.push(v);
    }
    return out;
});
amodel('some', (a, [f, t]) => {
    needFn(f);
    for (let i = 0, n = a.length; i < n; i++) if (i in a && truth(cb(f, t, [a[i], i, a]))) return true;
    return false;
});
amodel('every', (a, [f, t]) => {
    needFn(f);
    for (let i = 0, n = a.length; i < n; i++) if (i in a && !truth(cb(f, t, [a[i], i, a]))) return false;
    return true;
});
amodel('find', (a, [f, t]) => {
    needFn(f);
    for (let i = 0, n = a.length; i < n; i++) {
        const v = a[i];
        if (truth(cb(f, t, [v, i, a]))) return v;
    }
});
amodel('findIndex', (a, [f, t]) => {
    needFn(f);
    for (let i = 0, n = a.length; i < n; i++) if (truth(cb(f, t, [a[i], i, a]))) return i;
    return -1;
});
amodel('findLast', (a, [f, t]) => {
    needFn(f);
    for (let i = a.length - 1; i >= 0; i--) {
        const v = a[i];
        if (truth(cb(f, t, [v, i, a]))) return v;
    }
});
amodel('findLastIndex', (a, [f, t]) => {
    needFn(f);
    for (let i = a.length - 1; i >= 0; i--) if (truth(cb(f, t, [a[i], i, a]))) return i;
    return -1;
});
amodel('map', (a, [f, t]) => {
    needFn(f);
    const n = a.length;
    const out = new Array(n);
    for (let i = 0; i < n; i++) if (i in a) out[i] = cb(f, t, [a[i], i, a]);
    return out;
});
amodel('forEach', (a, [f, t]) => {
    needFn(f);
    for (let i = 0, n = a.length; i < n; i++) if (i in a) cb(f, t, [a[i], i, a]);
});
amodel('reduce', (a, args) => {
    needFn(args[0]);
    let i = 0;
    let acc;
    const n = a.length;
    if (args.length > 1) acc = args[1];
    else {
        while (i < n && !(i in a)) i++;
        if (i >= n) throw new TypeError('Reduce of empty array with no initial value');
        acc = a[i++];
    }
    for (; i < n; i++) if (i in a) acc = cb(args[0], undefined, [acc, a[i], i, a]);
    return acc;
});
amodel('reduceRight', (a, args) => {
    needFn(args[0]);
    let i = a.length - 1;
    let acc;
    if (args.length > 1) acc = args[1];
    else {
        while (i >= 0 && !(i in a)) i--;
        if (i < 0) throw new TypeError('Reduce of empty array with no initial value');
        acc = a[i--];
    }
    for (; i >= 0; i--) if (i in a) acc = cb(args[0], undefined, [acc, a[i], i, a]);
    return acc;
});
amodel('flatMap', (a, [f, t]) => {
    needFn(f);
    const out = [];
    a.forEach((v, i) => {
        const r = cb(f, t, [v, i, a]);
        if (isA(r)) for (const x of r) out.push(x);
        else out.push(r);
    });
    return out;
});
const hasAny = (a, args) => args.some(isSym) || a.some(isSym);
amodel('indexOf', (a, [x, p]) => {
    if (!hasAny(a, [x, p])) return NATIVE;
    for (let i = relInt(p, a.length, 0); i < a.length; i++) if (i in a && branch(rt.seqT(a[i], x))) return i;
    return -1;
});
amodel('lastIndexOf', (a, args) => {
    if (!hasAny(a, args)) return NATIVE;
    let i = args.length > 1 ? relInt(args[1], a.length, 0) : a.length - 1;
    for (i = Math.min(i, a.length - 1); i >= 0; i--) if (i in a && branch(rt.seqT(a[i], args[0]))) return i;
    return -1;
});
amodel('includes', (a, [x, p]) => {
    if (!hasAny(a, [x, p])) return NATIVE;
    const cs = [];
    for (let i = relInt(p, a.length, 0); i < a.length; i++) cs.push(rt.sameZeroT(a[i], x));
    return mkBool(T.or(...cs));
});
let joinDepth = 0;
amodel('join', (a, [sep]) => {
    if (!isSym(sep) && a.every(x => typeof x !== 'object' || x === null)) return NATIVE;
    const s = sep === undefined ? ',' : toStr(sep);
    if (++joinDepth > 200) {
        joinDepth = 0;
        return NATIVE;
    }
    let r = '';
    for (let i = 0; i < a.length; i++) {
        if (i) r = rt.concat(r, s);
        const v = a[i];
        if (v !== null && v !== undefined) r = rt.concat(r, toStr(v));
    }
    joinDepth--;
    return r;
});
amodel('toString', (a, args) => MODELS.get(A.join)(a, []) === NATIVE ? A.join.call(a) : MODELS.get(A.join)(a, []));
amodel('slice', (a, [s, e]) => {
    if (!isSym(s) && !isSym(e)) return NATIVE;
    return A.slice.call(a, relInt(s, a.length, 0), relInt(e, a.length, a.length));
});
amodel('splice', (a, args) => {
    if (!isSym(args[0]) && !isSym(args[1])) return A.splice.apply(a, args);
    const s = relInt(args[0], a.length, 0);
    const r = [s];
    if (args.length > 1) r.push(argInt(args[1], 0, a.length - s, 0), ...args.slice(2));
    return A.splice.apply(a, r);
});
amodel('at', (a, [i]) => {
    if (!isSym(i)) return NATIVE;
    const n = a.length;
    let k = argInt(i, -n - 1, n, 0);
    if (k < 0) k += n;
    return k < 0 || k >= n ? undefined : a[k];
});
amodel('with', (a, [i, v]) => {
    if (!isSym(i)) return A.with.call(a, i, v);
    return A.with.call(a, argInt(i, -a.length - 1, a.length, 0), v);
});
amodel('fill', (a, [v, s, e]) => A.fill.call(a, v, relInt(s, a.length, 0), relInt(e, a.length, a.length)));
amodel('copyWithin', (a, [t, s, e]) => A.copyWithin.call(a, relInt(t, a.length, 0), relInt(s, a.length, 0), relInt(e, a.length, a.length)));
amodel('flat', (a, [d]) => A.flat.call(a, argInt(d, -1, 20, d === undefined ? 1 : 0)));
// V8's algorithm for short arrays: run detection, then binary insertion
function sortValues(work, cmp) {
    const n = work.length;
    if (n < 2) return;
    if (n >= 64) return unsupported('sort of a long array');
    const order = (x, y) => {
        if (cmp) {
            const r = toNum(cb(cmp, undefined, [x, y]));
            if (typeof r === 'number') return r;
            if (branch(rt.numCmp('lt', r, 0))) return -1;
            return branch(rt.numEq(r, 0)) ? 0 : 1;
        }
        const a = toStr(x);
        const b = toStr(y);
        if (!isSym(a) && !isSym(b)) return a < b ? -1 : a > b ? 1 : 0;
        if (branch(rt.strLess(a, b, false))) return -1;
        return branch(rt.strLess(b, a, false)) ? 1 : 0;
    };
    let run = 2;
    let o = order(work[1], work[0]);
    const desc = o < 0;
    let prev = work[1];
    for (let i = 2; i < n; i++) {
        o = order(work[i], prev);
        if (desc ? o >= 0 : o < 0) break;
        prev = work[i];
        run++;
    }
    if (desc) {
        const part = work.slice(0, run).reverse();
        for (let i = 0; i < run; i++) work[i] = part[i];
    }
    for (let s = run; s < n; s++) {
        let l = 0;
        let r = s;
        const pivot = work[s];
        while (l < r) {
            const mid = l + ((r - l) >> 1);
            if (order(pivot, work[mid]) < 0) r = mid;
            else l = mid + 1;
        }
        for (let p = s; p > l; p--) work[p] = work[p - 1];
        work[l] = pivot;
    }
}
const doSort = (a, cmp) => {
    if (cmp !== undefined && typeof cmp !== 'function') throw new TypeError('The comparison function must be either a function or undefined');
    const vals = [];
    let undef = 0;
    for (let i = 0; i < a.length; i++) if (i in a) a[i] === undefined ? undef++ : vals.push(a[i]);
    sortValues(vals, cmp);
    return { vals, undef };
};
amodel('sort', (a, [cmp]) => {
    if (cmp === undefined && !a.some(x => typeof x === 'object')) return NATIVE;
    const { vals, undef } = doSort(a, cmp);
    const n = a.length;
    let i = 0;
    for (; i < vals.length; i++) a[i] = vals[i];
    for (let j = 0; j < undef; j++) a[i++] = undefined;
    for (; i < n; i++) delete a[i];
    return a;
});
amodel('toSorted', (a, [cmp]) => {
    const { vals, undef } = doSort(a, cmp);
    for (let j = 0; j < undef + (a.length - vals.length - undef); j++) vals.push(undefined);
    return vals;
});
for (const k of ['push', 'unshift', 'pop', 'shift', 'concat', 'reverse', 'keys', 'entries', 'values', 'toReversed'])
    SAFE.add(A[k]);
SAFE.add(A[Symbol.iterator]);
model(A.toSpliced, (self, args) => {
    const c = self.slice();
    MODELS.get(A.splice)(c, args);
    return c;
});
SAFE.add(Array.of);
SAFE.add(Array.isArray);
model(Array.from, (self, [src, f, t]) => {
    const step = (v, i) => (f === undefined ? v : cb(f, t, [v, i]));
    if (self !== Array && self !== undefined && typeof self === 'function') return NATIVE;
    if (src instanceof SymStr) return rt.codePoints(src).map((v, i) => step(v, i));
    if (isSym(src)) return [];
    if (src === null || src === undefined) return NATIVE;
    if (src[Symbol.iterator]) {
        const out = [];
        let i = 0;
        for (const v of src) out.push(step(v, i++));
        return out;
    }
    const n = src.length;
    const len = isSym(n) ? argInt(n, 0, 4096, 0) : Math.max(0, Math.trunc(Number(n)) || 0);
    const out = [];
    for (let i = 0; i < len; i++) out.push(step(src[i], i));
    return out;
});
const newArr = args => {
    if (args.length !== 1 || !isSym(args[0])) return NATIVE;
    const x = args[0];
    if (!isNumSym(x)) return [x];
    if (x instanceof SymRat) {
        if (!branch(T.eq(T.imod(x.n, x.d), 0))) throw new RangeError('Invalid array length');
        return new Array(pickTerm(T.idiv(x.n, x.d)));
    }
    if (x instanceof SymFP) return unsupported('float array length');
    if (branch(T.lt(x.t, 0))) throw new RangeError('Invalid array length');
    return new Array(argInt(x, 0, 4096, 0));
};
model(Array, (self, args) => newArr(args));
CONS.set(Array, newArr);

/* ------------------------------------------------------------ Map, Set */
// Symbolic keys are scanned with SameValueZero.
const symKeys = m => m.__sym === true;
const markSym = m => Object.defineProperty(m, '__sym', { value: true, enumerable: false, configurable: true });
const findKey = (m, k) => {
    if (!isSym(k) && !symKeys(m)) return m.__proto__ && (MapHas.call(m, k) ? k : NONE);
    if (!isSym(k) && MapHas.call(m, k)) return k;
    for (const q of MapKeys.call(m)) if (q === k || ((isSym(q) || isSym(k)) && branch(rt.sameZeroT(q, k)))) return q;
    return NONE;
};
const NONE = Symbol('none');
const MapHas = Map.prototype.has;
const MapKeys = Map.prototype.keys;
const SetHas = Set.prototype.has;
const findIn = (s, k) => {
    if (!isSym(k) && !symKeys(s)) return SetHas.call(s, k) ? k : NONE;
    if (!isSym(k) && SetHas.call(s, k)) return k;
    for (const q of Set.prototype.values.call(s)) if (q === k || ((isSym(q) || isSym(k)) && branch(rt.sameZeroT(q, k)))) return q;
    return NONE;
};
const isM = x => x instanceof Map;
const isS = x => x instanceof Set;
const MP = Map.prototype;
const SP = Set.prototype;
const mget = MP.get;
const mset = MP.set;
const mdel = MP.delete;
const sadd = SP.add;
const sdel = SP.delete;
model(mget, (m, [k]) => {
    if (!isM(m) || (!isSym(k) && !symKeys(m))) return NATIVE;
    const q = findKey(m, k);
    return q === NONE ? undefined : mget.call(m, q);
});
model(MapHas, (m, [k]) => {
    if (!isM(m) || (!isSym(k) && !symKeys(m))) return NATIVE;
    return findKey(m, k) !== NONE;
});
model(mset, (m, [k, v]) => {
    if (!isM(m) || (!isSym(k) && !symKeys(m))) return mset.call(m, k, v);
    const q = findKey(m, k);
    if (isSym(k)) markSym(m);
    mset.call(m, q === NONE ? k : q, v);
    return m;
});
model(mdel, (m, [k]) => {
    if (!isM(m) || (!isSym(k) && !symKeys(m))) return NATIVE;
    const q = findKey(m, k);
    return q === NONE ? false : mdel.call(m, q);
});
model(SetHas, (m, [k]) => {
    if (!isS(m) || (!isSym(k) && !symKeys(m))) return NATIVE;
    return findIn(m, k) !== NONE;
});
model(sadd, (m, [k]) => {
    if (!isS(m) || (!isSym(k) && !symKeys(m))) return NATIVE;
    if (findIn(m, k) !== NONE) return m;
    if (isSym(k)) markSym(m);
    return sadd.call(m, k);
});
model(sdel, (m, [k]) => {
    if (!isS(m) || (!isSym(k) && !symKeys(m))) return NATIVE;
    const q = findIn(m, k);
    return q === NONE ? false : sdel.call(m, q);
});
for (const P of [MP, SP]) for (const k of ['forEach', 'keys', 'values', 'entries', 'clear']) SAFE.add(P[k]);
CONS.set(Set, ([it]) => {
    if (it === undefined || it === null) return NATIVE;
    const s = new Set();
    for (const v of S.iter(it)) invoke(sadd, s, [v]);
    return s;
});
CONS.set(Map, ([it]) => {
    if (it === undefined || it === null) return NATIVE;
    const m = new Map();
    for (const e of S.iter(it)) invoke(mset, m, [e[0], e[1]]);
    return m;
});
for (const W of [WeakMap.prototype, WeakSet.prototype])
    for (const k of ['set', 'add', 'get', 'has', 'delete']) {
        const f = W[k];
        model(f, (self, args) => {
            if (!isSym(args[0])) return Reflect.apply(f, self, args);
            if (k === 'set' || k === 'add') throw new TypeError('Invalid value used as weak map key');
            return k === 'get' ? undefined : false;
        });
    }

/* ------------------------------------------------------------- Promise */
for (const k of ['resolve', 'reject', 'all', 'race', 'allSettled', 'any']) SAFE.add(Promise[k]);
for (const k of ['then', 'catch', 'finally']) SAFE.add(Promise.prototype[k]);
for (const g of [function* () {}, async function* () {}]) {
    const p = Object.getPrototypeOf(Object.getPrototypeOf(g()));
    for (const k of ['next', 'return', 'throw']) if (p[k]) SAFE.add(p[k]);
}
SAFE.add(Symbol);
SAFE.add(Error.captureStackTrace);

/* --------------------------------------------------------------- Errors */
for (const C of [Error, TypeError, RangeError, SyntaxError, ReferenceError, EvalError, URIError]) {
    const make = (args, Ctor) => {
        if (!isSym(args[0])) return NATIVE;
        const e = new Ctor();
        Object.defineProperty(e, 'message', { value: toStr(args[0]), writable: true, enumerable: false, configurable: true });
        if (args[1] && typeof args[1] === 'object' && 'cause' in args[1]) e.cause = args[1].cause;
        return e;
    };
    CONS.set(C, args => make(args, C));
    model(C, (self, args) => make(args, C));
}
model(Error.prototype.toString, self => {
    if (!isSym(self.message) && !isSym(self.name)) return NATIVE;
    const n = toStr(self.name);
    const m = toStr(self.message);
    return n.length === 0 ? m : m.length === 0 ? n : rt.concat(rt.concat(n, ': '), m);
});

/* ----------------------------------------------------------------- JSON */
const q = (() => {
    // JSON string quoting over units
    const HEX = '0123456789abcdef';
    return s => {
        const out = [34];
        const u = units(s);
        for (let i = 0; i < u.length; i++) {
            let c = u[i];
            if (T.isT(c)) {
                if (branch(T.inSet(c, [[32, 33], [35, 91], [93, 0xd7ff], [0xe000, 0xffff]]))) {
                    out.push(c);
                    continue;
                }
                if (branch(T.inSet(c, [[34, 34], [92, 92]]))) {
                    out.push(92, c);
                    continue;
                }
                if (branch(T.lt(c, 32))) c = pickTerm(c, 'control character');
                else if (branch(T.inSet(c, [[0xd800, 0xdbff]])) && i + 1 < u.length && branch(T.inSet(u[i + 1], [[0xdc00, 0xdfff]]))) {
                    out.push(c, u[++i]);
                    continue;
                } else {
                    out.push(92, 117);
                    for (const k of [4096, 256, 16, 1]) {
                        const d = T.imod(T.idiv(c, k), 16);
                        out.push(T.iite(T.lt(d, 10), T.add(d, 48), T.add(d, 87)));
                    }
                    continue;
                }
            }
            const one = String.fromCharCode(c);
            if (c >= 0xd800 && c <= 0xdbff && i + 1 < u.length && T.isT(u[i + 1])) {
                if (branch(T.inSet(u[i + 1], [[0xdc00, 0xdfff]]))) {
                    out.push(c, u[++i]);
                    continue;
                }
            } else if (c >= 0xd800 && c <= 0xdbff && i + 1 < u.length && u[i + 1] >= 0xdc00 && u[i + 1] <= 0xdfff) {
                out.push(c, u[++i]);
                continue;
            }
            out.push(...units(JSON.stringify(one).slice(1, -1)));
        }
        void HEX;
        out.push(34);
        return mkStr(out);
    };
})();
rt.quoteJSON = q;
model(JSON.stringify, (self, [value, replacer, space]) => {
    if (!rt.deepHasSym(value) && !isSym(space) && !(typeof replacer === 'function')) return NATIVE;
    let gap = space;
    if (isSym(gap)) gap = concretise(gap, 'JSON indent');
    if (typeof gap === 'number') gap = ' '.repeat(Math.max(0, Math.min(10, Math.trunc(gap) || 0)));
    gap = typeof gap === 'string' ? gap.slice(0, 10) : '';
    const allow = isA(replacer) ? replacer.map(String) : null;
    const stack = [];
    const ser = (holder, key, indent) => {
        let v = key instanceof SymStr ? S.get(holder, key) : holder[key];
        if (v !== null && v !== undefined && !isSym(v) && (typeof v === 'object' || typeof v === 'bigint') && typeof v.toJSON === 'function') v = invoke(v.toJSON, v, [key]);
        if (typeof replacer === 'function') v = invoke(replacer, holder, [key, v]);
        if (v === null) return 'null';
        if (v === true) return 'true';
        if (v === false) return 'false';
        if (v instanceof SymStr || typeof v === 'string') return q(v);
        if (v instanceof SymBool) return toStr(v);
        if (isNumSym(v)) return v instanceof SymFP ? unsupported('JSON of a float') : toStr(v);
        if (typeof v === 'number') return Number.isFinite(v) ? String(v) : 'null';
        if (typeof v === 'bigint') throw new TypeError('Do not know how to serialize a BigInt');
        if (typeof v !== 'object') return undefined;
        if (v instanceof Number || v instanceof String || v instanceof Boolean) return JSON.stringify(v);
        if (stack.includes(v)) throw new TypeError('Converting circular structure to JSON');
        stack.push(v);
        const inner = indent + gap;
        const parts = [];
        if (isA(v)) {
            for (let i = 0; i < v.length; i++) parts.push(ser(v, String(i), inner) ?? 'null');
        } else {
            for (const k of allow || Object.keys(v)) {
                const kk = keyVal(k);
                const t = ser(v, isPh(k) ? kk : k, inner);
                if (t !== undefined) parts.push(rt.concat(rt.concat(q(kk), gap ? ': ' : ':'), t));
            }
        }
        stack.pop();
        const [l, r] = isA(v) ? ['[', ']'] : ['{', '}'];
        if (!parts.length) return l + r;
        let out = gap ? `${l}\n${inner}` : l;
        parts.forEach((p, i) => {
            if (i) out = rt.concat(out, gap ? `,\n${inner}` : ',');
            out = rt.concat(out, p);
        });
        return rt.concat(out, gap ? `\n${indent}${r}` : r);
    };
    return ser({ '': value }, '', '');
});
model(JSON.parse, (self, [s, rev]) => {
    if (!isSym(s)) {
        if (rev !== undefined) return NATIVE;
        return NATIVE;
    }
    if (isNumSym(s) || s instanceof SymBool) return s;
    return parseJSON(s, rev);
});
function parseJSON(s, rev) {
    if (rev !== undefined) unsupported('JSON.parse reviver on symbolic text');
    const u = units(s);
    let p = 0;
    const err = () => {
        throw new SyntaxError('Unexpected token in JSON');
    };
    const is = (rs, i = p) => i < u.length && branch(T.inSet(u[i], rs));
    const ch = c => is([[c.charCodeAt(0), c.charCodeAt(0)]]);
    const ws = () => {
        while (is([[9, 10], [13, 13], [32, 32]])) p++;
    };
    const word = w => {
        for (const c of w) {
            if (!ch(c)) err();
            p++;
        }
    };
    const str = () => {
        p++;
        const out = [];
        for (;;) {
            if (p >= u.length || is([[0, 31]])) err();
            if (ch('"')) return p++, mkStr(out);
            if (ch('\\')) {
                p++;
                if (is([[34, 34], [47, 47], [92, 92]])) out.push(u[p++]);
                else if (ch('u')) {
                    p++;
                    let v = 0;
                    for (let i = 0; i < 4; i++) {
                        if (!is([[48, 57], [65, 70], [97, 102]])) err();
                        const c = u[p++];
                        v = T.add(T.scale(v, 16), T.iite(T.inSet(c, [[48, 57]]), T.sub(c, 48), T.iite(T.inSet(c, [[65, 70]]), T.sub(c, 55), T.sub(c, 87))));
                    }
                    out.push(v);
                } else {
                    let hit = false;
                    for (const [a, b] of [['b', 8], ['f', 12], ['n', 10], ['r', 13], ['t', 9]])
                        if (ch(a)) {
                            out.push(b);
                            p++;
                            hit = true;
                            break;
                        }
                    if (!hit) err();
                }
            } else out.push(u[p++]);
        }
    };
    const D = [[48, 57]];
    const val = () => {
        ws();
        if (p >= u.length) err();
        let r;
        if (ch('"')) r = str();
        else if (ch('{')) {
            p++;
            r = {};
            ws();
            if (ch('}')) p++;
            else
                for (;;) {
                    ws();
                    if (!ch('"')) err();
                    const k = str();
                    ws();
                    if (!ch(':')) err();
                    p++;
                    const v = val();
                    const one = S.mkobj([[r], [k, v]]);
                    r = one;
                    if (ch(',')) p++;
                    else if (ch('}')) {
                        p++;
                        break;
                    } else err();
                }
        } else if (ch('[')) {
            p++;
            r = [];
            ws();
            if (ch(']')) p++;
            else
                for (;;) {
                    r.push(val());
                    if (ch(',')) p++;
                    else if (ch(']')) {
                        p++;
                        break;
                    } else err();
                }
        } else if (ch('t')) word('true'), (r = true);
        else if (ch('f')) word('false'), (r = false);
        else if (ch('n')) word('null'), (r = null);
        else {
            const st = p;
            if (ch('-')) p++;
            if (ch('0')) p++;
            else {
                if (!is([[49, 57]])) err();
                while (is(D)) p++;
            }
            if (ch('.')) {
                p++;
                if (!is(D)) err();
                while (is(D)) p++;
            }
            if (is([[69, 69], [101, 101]])) {
                p++;
                if (is([[43, 43], [45, 45]])) p++;
                if (!is(D)) err();
                while (is(D)) p++;
            }
            r = toNum(mkStr(u.slice(st, p)));
        }
        ws();
        return r;
    };
    const r = val();
    if (p < u.length) err();
    return r;
}

/* ------------------------------------------------------- URI components */
const hexU = n => T.iite(T.lt(n, 10), T.add(n, 48), T.add(n, 55));
const pct = b => [37, hexU(T.idiv(b, 16)), hexU(T.imod(b, 16))];
const encode = keep => (self, [x]) => {
    if (!isSym(x)) return NATIVE;
    const u = units(toStr(x));
    const out = [];
    for (let i = 0; i < u.length; i++) {
        let c = u[i];
        if (branch(T.inSet(c, keep))) {
            out.push(c);
            continue;
        }
        if (branch(T.lt(c, 0x80))) {
            out.push(...pct(c));
            continue;
        }
        if (branch(T.inSet(c, [[0xdc00, 0xdfff]]))) throw new URIError('URI malformed');
        if (branch(T.inSet(c, [[0xd800, 0xdbff]]))) {
            if (i + 1 >= u.length || !branch(T.inSet(u[i + 1], [[0xdc00, 0xdfff]]))) throw new URIError('URI malformed');
            c = T.add(T.add(T.scale(T.sub(c, 0xd800), 0x400), T.sub(u[++i], 0xdc00)), 0x10000);
            out.push(...pct(T.add(0xf0, T.idiv(c, 0x40000))), ...pct(T.add(0x80, T.imod(T.idiv(c, 0x1000), 64))), ...pct(T.add(0x80, T.imod(T.idiv(c, 64), 64))), ...pct(T.add(0x80, T.imod(c, 64))));
            continue;
        }
        if (branch(T.lt(c, 0x800))) out.push(...pct(T.add(0xc0, T.idiv(c, 64))), ...pct(T.add(0x80, T.imod(c, 64))));
        else out.push(...pct(T.add(0xe0, T.idiv(c, 0x1000))), ...pct(T.add(0x80, T.imod(T.idiv(c, 64), 64))), ...pct(T.add(0x80, T.imod(c, 64))));
    }
    return mkStr(out);
};
const setOf = s => T.normRanges([...s].map(c => [c.charCodeAt(0), c.charCodeAt(0)]));
const UNRES = [[48, 57], [65, 90], [97, 122], ...setOf("-_.!~*'()")];
model(encodeURIComponent, encode(T.normRanges(UNRES.map(r => r.slice()))));
model(encodeURI, encode(T.normRanges([...UNRES.map(r => r.slice()), ...setOf(';/?:@&=+$,#')])));
const decode = reserved => (self, [x]) => {
    if (!isSym(x)) return NATIVE;
    const u = units(toStr(x));
    const out = [];
    const hexv = c => {
        if (!branch(T.inSet(c, [[48, 57], [65, 70], [97, 102]]))) throw new URIError('URI malformed');
        return T.iite(T.inSet(c, [[48, 57]]), T.sub(c, 48), T.iite(T.inSet(c, [[65, 70]]), T.sub(c, 55), T.sub(c, 87)));
    };
    const byte = i => {
        if (i + 2 >= u.length || !branch(T.eq(u[i], 37))) throw new URIError('URI malformed');
        return T.add(T.scale(hexv(u[i + 1]), 16), hexv(u[i + 2]));
    };
    for (let i = 0; i < u.length; i++) {
        if (!branch(T.eq(u[i], 37))) {
            out.push(u[i]);
            continue;
        }
        const st = i;
        const b = byte(i);
        i += 2;
        if (branch(T.lt(b, 0x80))) {
            if (reserved.length && branch(T.inSet(b, reserved))) out.push(...u.slice(st, i + 1));
            else out.push(b);
            continue;
        }
        const n = branch(T.inSet(b, [[0xc2, 0xdf]])) ? 2 : branch(T.inSet(b, [[0xe0, 0xef]])) ? 3 : branch(T.inSet(b, [[0xf0, 0xf4]])) ? 4 : 0;
        if (!n) throw new URIError('URI malformed');
        let v = T.sub(b, n === 2 ? 0xc0 : n === 3 ? 0xe0 : 0xf0);
        for (let j = 1; j < n; j++) {
            const c = byte(i + 1);
            i += 3;
            if (!branch(T.inSet(c, [[0x80, 0xbf]]))) throw new URIError('URI malformed');
            v = T.add(T.scale(v, 64), T.sub(c, 0x80));
        }
        const lowest = [0, 0, 0x80, 0x800, 0x10000][n];
        if (!branch(T.and(T.le(lowest, v), T.le(v, 0x10ffff), T.not(T.and(T.le(0xd800, v), T.le(v, 0xdfff)))))) throw new URIError('URI malformed');
        if (n < 4) out.push(v);
        else {
            const c = T.sub(v, 0x10000);
            out.push(T.add(T.idiv(c, 0x400), 0xd800), T.add(T.imod(c, 0x400), 0xdc00));
        }
    }
    return mkStr(out);
};
model(decodeURIComponent, decode([]));
model(decodeURI, decode(setOf(';/?:@&=+$,#')));

/* --------------------------------------------------------------- Buffer */
// Only the text <-> bytes view is modelled; see loader stubs for the rest.
model(Buffer.byteLength, (self, [x, enc]) => {
    if (!isSym(x)) return NATIVE;
    if (enc !== undefined && !/^utf-?8$/i.test(enc)) return unsupported('Buffer.byteLength encoding');
    return rt.utf8(units(x)).length;
});
rt.utf8 = u => {
    const out = [];
    for (let i = 0; i < u.length; i++) {
        let c = u[i];
        if (branch(T.lt(c, 0x80))) out.push(c);
        else if (branch(T.lt(c, 0x800))) out.push(T.add(0xc0, T.idiv(c, 64)), T.add(0x80, T.imod(c, 64)));
        else {
            let cp = null;
            if (branch(T.inSet(c, [[0xd800, 0xdbff]]))) {
                if (i + 1 < u.length && branch(T.inSet(u[i + 1], [[0xdc00, 0xdfff]]))) {
                    cp = T.add(T.add(T.scale(T.sub(c, 0xd800), 0x400), T.sub(u[++i], 0xdc00)), 0x10000);
                } else c = 0xfffd;
            } else if (branch(T.inSet(c, [[0xdc00, 0xdfff]]))) c = 0xfffd;
            if (cp !== null) out.push(T.add(0xf0, T.idiv(cp, 0x40000)), T.add(0x80, T.imod(T.idiv(cp, 0x1000), 64)), T.add(0x80, T.imod(T.idiv(cp, 64), 64)), T.add(0x80, T.imod(cp, 64)));
            else out.push(T.add(0xe0, T.idiv(c, 0x1000)), T.add(0x80, T.imod(T.idiv(c, 64), 64)), T.add(0x80, T.imod(c, 64)));
        }
    }
    return out;
};
void SymInt;
