'use strict';
// The `__S` operations that instrumented code calls. Concrete operands run
// natively; symbolic operands build terms or ask the path explorer.
const T = require('./terms');
const V = require('./values');
const { SymBool, SymInt, SymRat, SymFP, SymStr, isSym, isNumSym, mkBool, bt, mkStr, units, strEqT, isStr } = V;
const { Excluded, LoopLimit, EngineSignal } = require('./explore');

const MAX = Number.MAX_SAFE_INTEGER;
const rt = {};
let eng = null;
const S = {}; // what instrumented code sees
rt.S = S;
rt.use = e => {
    eng = e;
    rt.eng = e;
};
rt.functions = []; // id -> name
rt.entered = new Set();

function unsupported(what) {
    if (eng && !eng.dead) {
        eng.note('excluded', what);
        eng.stop(new Excluded(what));
    }
    throw new Excluded(what);
}
rt.unsupported = unsupported;
V.hooks.unsupported = unsupported;
function alive() {
    if (eng.signal) throw eng.signal;
}
function branch(c) {
    if (c === true || c === false) return c;
    alive();
    return eng.branch(c);
}
rt.branch = branch;
// enumerate the values of a term; `what` labels a limited (partial) choice
function pickTerm(t, what, limit) {
    if (!T.isT(t)) return t;
    alive();
    if (limit === undefined && !(t.hi - t.lo <= 5000)) limit = 40;
    return eng.pick(t, limit === undefined ? Infinity : limit, what);
}
rt.pickTerm = pickTerm;
function concretise(x, what, limit = 3) {
    if (!isSym(x)) return x;
    if (x instanceof SymBool) return branch(x.t);
    if (x instanceof SymInt) return pickTerm(x.t, what, x.t.hi - x.t.lo < 64 ? undefined : limit);
    if (x instanceof SymRat) return pickTerm(x.n, what, x.n.hi - x.n.lo < 64 ? undefined : limit) / x.d;
    if (x instanceof SymStr) return mkStr(x.u.map(u => pickTerm(u, what, limit)));
    return unsupported('concretise ' + x.constructor.name + ' in ' + what);
}
rt.concretise = concretise;

/* -------------------------------------------------------------- numbers */
function mkInt(t) {
    if (!T.isT(t)) return t;
    if (t.lo < -MAX || t.hi > MAX) {
        if (!branch(T.and(T.le(-MAX, t), T.le(t, MAX)))) unsupported('integer beyond 2^53');
    }
    return new SymInt(t);
}
const gcd = (a, b) => (b ? gcd(b, a % b) : Math.abs(a));
function mkRat(n, d) {
    if (!T.isT(n)) return n / d;
    if (d === 1) return mkInt(n);
    let g = d;
    g = gcd(g, n.c);
    for (const [, k] of n.m) {
        if (g === 1) break;
        g = gcd(g, k);
    }
    if (g > 1) {
        n = divExact(n, g);
        d /= g;
        if (d === 1) return mkInt(n);
    }
    const lim = 2 ** 51;
    if (n.lo < -lim || n.hi > lim) {
        if (!branch(T.and(T.le(-lim, n), T.le(n, lim)))) unsupported('rational beyond 2^51');
    }
    return new SymRat(n, d);
}
function divExact(t, g) {
    return T.idiv(t, g);
}
rt.mkInt = mkInt;
rt.mkRat = mkRat;
// concrete double -> {n, d} with d a power of two, or null
function dyadic(x) {
    if (Number.isInteger(x)) return Number.isSafeInteger(x) ? { n: x, d: 1 } : null;
    if (!Number.isFinite(x)) return null;
    let d = 1;
    while (!Number.isInteger(x) && d < 2 ** 40) {
        x *= 2;
        d *= 2;
    }
    return Number.isInteger(x) && Math.abs(x) < 2 ** 40 ? { n: x, d } : null;
}
const ratOf = x => (x instanceof SymInt ? { n: x.t, d: 1 } : x instanceof SymRat ? { n: x.n, d: x.d } : dyadic(x));

// numeric value of any operand (ToNumeric)
function toNum(x) {
    if (typeof x === 'number' || typeof x === 'bigint' || isNumSym(x)) return x;
    if (x instanceof SymBool) return mkInt(T.iite(x.t, 1, 0));
    if (x instanceof SymStr) return rt.strToNum(x);
    if (x !== null && typeof x === 'object') {
        const p = toPrim(x, 'number');
        return typeof p === 'object' && p !== null && !isSym(p) ? Number(p) : toNum(p);
    }
    return Number(x);
}
rt.toNum = toNum;
function toPrim(x, hint) {
    if (x === null || (typeof x !== 'object' && typeof x !== 'function') || isSym(x)) return x;
    const ex = x[Symbol.toPrimitive];
    if (ex !== undefined && ex !== null) return rt.invoke(ex, x, [hint]);
    for (const m of hint === 'string' ? ['toString', 'valueOf'] : ['valueOf', 'toString']) {
        const f = x[m];
        if (typeof f === 'function') {
            const r = rt.invoke(f, x, []);
            if (r === null || (typeof r !== 'object' && typeof r !== 'function') || isSym(r)) return r;
        }
    }
    throw new TypeError('Cannot convert object to primitive value');
}
rt.toPrim = toPrim;

const fpOf = x => {
    if (x instanceof SymFP) return x.t;
    if (typeof x === 'number') return x;
    return concretise(x, 'float arithmetic');
};
function native2(op, a, b) {
    switch (op) {
        case 'sub': return a - b;
        case 'mul': return a * b;
        case 'div': return a / b;
        case 'mod': return a % b;
        case 'pow': return a ** b;
        case 'add': return a + b;
    }
    throw new Error(op);
}
function arith(op, a, b) {
    a = toNum(a);
    b = toNum(b);
    if (!isSym(a) && !isSym(b)) return native2(op, a, b);
    if (typeof a === 'bigint' || typeof b === 'bigint') throw new TypeError('Cannot mix BigInt and other types, use explicit conversions');
    if (a instanceof SymFP || b instanceof SymFP) {
        const x = fpOf(a);
        const y = fpOf(b);
        if (!T.isT(x) && !T.isT(y)) return native2(op, x, y);
        if (op === 'mod') {
            // exact for powers of two only
            if (!(y >= 1 && Number.isInteger(Math.log2(y)))) unsupported('float remainder');
            return new SymFP(T.fop('mod', x, y));
        }
        if (op === 'pow') unsupported('float power');
        return new SymFP(T.fop(op, x, y));
    }
    // non-finite concrete operand
    for (const [v, o, first] of [[a, b, true], [b, a, false]]) {
        if (typeof v === 'number' && !Number.isFinite(v)) {
            if (v !== v) return NaN;
            const s = signOf(o);
            return first ? native2(op, v, s) : native2(op, s, v);
        }
    }
    const x = ratOf(a);
    const y = ratOf(b);
    if (!x || !y) {
        // an operand outside the exact fragment
        a = concretise(a, 'inexact arithmetic ' + op);
        b = concretise(b, 'inexact arithmetic ' + op);
        return native2(op, a, b);
    }
    const inexact = v => v instanceof SymRat && !v.exact;
    if (inexact(a) || inexact(b)) {
        // rounding happened before: only multiplication/division that keep a
        // single rounding are not exact either, so enumerate
        return native2(op, concretise(a, 'inexact ' + op), concretise(b, 'inexact ' + op));
    }
    switch (op) {
        case 'add':
        case 'sub': {
            const l = (x.d * y.d) / gcd(x.d, y.d);
            const p = T.scale(x.n, l / x.d);
            const q = T.scale(y.n, l / y.d);
            return mkRat(op === 'add' ? T.add(p, q) : T.sub(p, q), l);
        }
        case 'mul':
            return mkRat(T.imul(x.n, y.n), x.d * y.d);
        case 'div': {
            if (isSym(b)) {
                const d = pickTerm(y.n, 'symbolic divisor');
                return arith('div', a, d / y.d);
            }
            if (b === 0) {
                const s = signOf(a);
                return s / b;
            }
            // (xn/xd) / (yn/yd)
            let n = T.scale(x.n, y.d);
            let d = x.d * y.n;
            if (d < 0) {
                n = T.neg(n);
                d = -d;
            }
            if (d > (Number.isInteger(Math.log2(d)) ? 2 ** 50 : 2 ** 40)) return concretise(a, 'division') / b;
            return mkRat(n, d);
        }
        case 'mod': {
            if (isSym(b)) {
                const d = pickTerm(y.n, 'symbolic modulus');
                return arith('mod', a, d / y.d);
            }
            if (b === 0) return NaN;
            const l = (x.d * y.d) / gcd(x.d, y.d);
            const p = T.scale(x.n, l / x.d);
            const q = Math.abs(y.n * (l / y.d));
            if (!T.isT(p)) return (p % q) / l;
            if (p.lo >= 0 || branch(T.le(0, p))) return mkRat(T.imod(p, q), l);
            return mkRat(T.neg(T.imod(T.neg(p), q)), l);
        }
        case 'pow': {
            const e = isSym(b) ? pickTerm(b instanceof SymInt ? b.t : unsupported('fractional power'), 'exponent') : b;
            if (!isSym(a)) return a ** e;
            if (!Number.isInteger(e) || e < 0 || e > 8 || !(a instanceof SymInt)) return concretise(a, 'power') ** e;
            let r = 1;
            for (let i = 0; i < e; i++) r = arith('mul', r, a);
            return r;
        }
    }
    throw new Error('arith ' + op);
}
rt.arith = arith;
// concrete representative with the sign of a symbolic number
function signOf(x) {
    if (!isSym(x)) return x;
    const { n } = ratOf(x);
    if (branch(T.eq(n, 0))) return 0;
    return branch(T.lt(n, 0)) ? -1 : 1;
}
rt.signOf = signOf;

S.add = (a, b) => {
    const ta = typeof a;
    const tb = typeof b;
    if (ta === 'number' && tb === 'number') return a + b;
    if (ta === 'string' && tb === 'string') return a + b;
    if (!isSym(a) && ta === 'object' && a !== null) a = toPrim(a, 'default');
    if (!isSym(b) && tb === 'object' && b !== null) b = toPrim(b, 'default');
    if (isStr(a) || isStr(b)) return concat(toStr(a), toStr(b));
    if (!isSym(a) && !isSym(b)) return a + b;
    return arith('add', a, b);
};
S.sub = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a - b : arith('sub', a, b));
S.mul = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a * b : arith('mul', a, b));
S.div = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a / b : arith('div', a, b));
S.mod = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a % b : arith('mod', a, b));
S.pow = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a ** b : arith('pow', a, b));
S.neg = a => {
    if (typeof a === 'number') return -a;
    a = toNum(a);
    if (!isSym(a)) return -a;
    if (a instanceof SymInt) return mkInt(T.neg(a.t));
    if (a instanceof SymRat) return mkRat(T.neg(a.n), a.d);
    return new SymFP(T.fop('neg', a.t));
};
S.pos = a => {
    if (typeof a === 'number') return a;
    if (typeof a === 'bigint') return +a;
    return toNum(a);
};
S.toNumeric = a => (typeof a === 'number' ? a : toNum(a));

/* ------------------------------------------------------------- bit ops */
function int32(x) {
    x = toNum(x);
    if (!isSym(x)) return x | 0;
    if (x instanceof SymFP) return unsupported('bit operation on a float');
    let t = x instanceof SymRat ? truncTerm(x) : x.t;
    if (!T.isT(t)) return t | 0;
    if (t.lo >= -(2 ** 31) && t.hi < 2 ** 31) return t;
    return T.sub(T.imod(T.add(t, 2 ** 31), 2 ** 32), 2 ** 31);
}
function truncTerm(r) {
    if (branch(T.le(0, r.n))) return T.idiv(r.n, r.d);
    return T.neg(T.idiv(T.neg(r.n), r.d));
}
rt.truncTerm = truncTerm;
const asVal = t => (T.isT(t) ? mkInt(t) : t);
function maskTerm(t, m) {
    // t & m for an int32 term and a constant mask
    if (m === -1) return t;
    let r = 0;
    let i = 0;
    let u = m >>> 0;
    while (i < 32) {
        if (!((u >>> i) & 1)) {
            i++;
            continue;
        }
        let j = i;
        while (j < 32 && (u >>> j) & 1) j++;
        if (j === 32) {
            // sign-extended run: bits i.. of two's complement
            r = T.add(r, T.scale(T.idiv(t, 2 ** i), 2 ** i));
        } else r = T.add(r, T.scale(T.imod(T.idiv(t, 2 ** i), 2 ** (j - i)), 2 ** i));
        i = j;
    }
    return r;
}
function bitsDisjoint(x, y) {
    // multiples of 2^k against values below 2^k
    const pw = t => {
        if (!T.isT(t)) return t === 0 ? 2 ** 31 : t & -t;
        let g = t.c;
        for (const [, k] of t.m) g = gcd(g, k);
        return g & -g;
    };
    return (T.lo(y) >= 0 && T.hi(y) < pw(x)) || (T.lo(x) >= 0 && T.hi(x) < pw(y));
}
function bitAnd(x, y) {
    if (!T.isT(x) && !T.isT(y)) return x & y;
    if (!T.isT(x)) return maskTerm(y, x);
    if (!T.isT(y)) return maskTerm(x, y);
    if (T.lo(x) >= 0 && T.lo(y) >= 0 && Math.min(T.hi(x), T.hi(y)) < 256) {
        let r = 0;
        for (let i = 0; i < 8; i++) {
            const b = t => T.eq(T.imod(T.idiv(t, 2 ** i), 2), 1);
            r = T.add(r, T.iite(T.and(b(x), b(y)), 2 ** i, 0));
        }
        return r;
    }
    return unsupported('bitwise and of two symbols');
}
function bitop(op, a, b) {
    a = toNum(a);
    b = toNum(b);
    if (typeof a === 'bigint' || typeof b === 'bigint' || (!isSym(a) && !isSym(b))) {
        switch (op) {
            case 'and': return a & b;
            case 'or': return a | b;
            case 'xor': return a ^ b;
            case 'shl': return a << b;
            case 'sar': return a >> b;
            case 'shr': return a >>> b;
        }
    }
    const x = int32(a);
    let y = int32(b);
    switch (op) {
        case 'and':
            return asVal(bitAnd(x, y));
        case 'or':
            if (x === 0) return asVal(y);
            if (y === 0) return asVal(x);
            if (bitsDisjoint(x, y)) return asVal(T.add(x, y));
            return asVal(T.sub(T.add(x, y), bitAnd(x, y)));
        case 'xor':
            if (y === 0) return asVal(x);
            if (y === -1) return asVal(T.sub(-1, x));
            return asVal(T.sub(T.add(x, y), T.scale(bitAnd(x, y), 2)));
    }
    if (T.isT(y)) y = pickTerm(y, 'shift count');
    y &= 31;
    switch (op) {
        case 'shl': {
            const r = T.scale(x, 2 ** y);
            return asVal(T.isT(r) ? int32(new SymInt(r)) : r | 0);
        }
        case 'sar':
            return asVal(T.idiv(x, 2 ** y));
        case 'shr':
            return asVal(T.idiv(T.lo(x) >= 0 ? x : T.imod(x, 2 ** 32), 2 ** y));
    }
}
for (const [n, op] of [['band', 'and'], ['bor', 'or'], ['bxor', 'xor'], ['shl', 'shl'], ['sar', 'sar'], ['shr', 'shr']])
    S[n] = (a, b) => bitop(op, a, b);
S.bnot = a => {
    a = toNum(a);
    if (!isSym(a)) return ~a;
    return asVal(T.sub(-1, int32(a)));
};

/* ----------------------------------------------------------- comparison */
function numCmp(op, a, b) {
    // op: lt | le, on numeric values
    if (!isSym(a) && !isSym(b)) return op === 'lt' ? a < b : a <= b;
    if (a instanceof SymFP || b instanceof SymFP) return T.fpred(op, fpOf(a), fpOf(b));
    for (const [v, first] of [[a, true], [b, false]])
        if (typeof v === 'number' && !Number.isFinite(v)) {
            if (v !== v) return false;
            return first ? v < 0 : v > 0;
        }
    let x = ratOf(a);
    let y = ratOf(b);
    if (!x || !y) {
        // compare an integer with a constant outside the exact fragment
        if (a instanceof SymInt && typeof b === 'number') {
            const f = Math.floor(b);
            if (Math.abs(b) > MAX) return b > 0;
            return op === 'lt' ? (f === b ? T.lt(a.t, b) : T.le(a.t, f)) : T.le(a.t, f);
        }
        if (b instanceof SymInt && typeof a === 'number') {
            const c = Math.ceil(a);
            if (Math.abs(a) > MAX) return a < 0;
            return op === 'lt' ? (c === a ? T.lt(a, b.t) : T.le(c, b.t)) : T.le(c, b.t);
        }
        a = concretise(a, 'inexact comparison');
        b = concretise(b, 'inexact comparison');
        return op === 'lt' ? a < b : a <= b;
    }
    const bad = (v, o) => v instanceof SymRat && !v.exact && o.d !== 1 && !farApart(x, y);
    if (bad(a, y) || bad(b, x)) {
        a = concretise(a, 'inexact comparison');
        b = concretise(b, 'inexact comparison');
        return bt(numCmpV(op, a, b));
    }
    const p = T.scale(x.n, y.d);
    const q = T.scale(y.n, x.d);
    return op === 'lt' ? T.lt(p, q) : T.le(p, q);
}
const numCmpV = (op, a, b) => mkBool(numCmp(op, a, b));
rt.numCmp = numCmp;
// two different quotients n/d and m/e are at least 1/(d*e) apart; when that
// exceeds their rounding errors the doubles are ordered like the quotients
function farApart(x, y) {
    const m = r => Math.max(Math.abs(T.lo(r.n)), Math.abs(T.hi(r.n)));
    return Math.max(m(x) * y.d, m(y) * x.d) < 2 ** 50;
}
// lexicographic a < b (or <=) over code units
function strLess(a, b, orEq) {
    const x = units(a);
    const y = units(b);
    const n = Math.min(x.length, y.length);
    let r = orEq ? x.length <= y.length : x.length < y.length;
    for (let i = n - 1; i >= 0; i--) r = T.or(T.lt(x[i], y[i]), T.and(T.eq(x[i], y[i]), r));
    return r;
}
rt.strLess = strLess;
function rel(op, a, b) {
    // lt, le, gt, ge
    if (!isSym(a) && a !== null && typeof a === 'object') a = toPrim(a, 'number');
    if (!isSym(b) && b !== null && typeof b === 'object') b = toPrim(b, 'number');
    if (!isSym(a) && !isSym(b)) {
        switch (op) {
            case 'lt': return a < b;
            case 'le': return a <= b;
            case 'gt': return a > b;
            default: return a >= b;
        }
    }
    if (isStr(a) && isStr(b)) {
        switch (op) {
            case 'lt': return mkBool(strLess(a, b, false));
            case 'le': return mkBool(strLess(a, b, true));
            case 'gt': return mkBool(strLess(b, a, false));
            default: return mkBool(strLess(b, a, true));
        }
    }
    a = toNum(a);
    b = toNum(b);
    switch (op) {
        case 'lt': return numCmpV('lt', a, b);
        case 'le': return numCmpV('le', a, b);
        case 'gt': return numCmpV('lt', b, a);
        default: return numCmpV('le', b, a);
    }
}
S.lt = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a < b : rel('lt', a, b));
S.le = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a <= b : rel('le', a, b));
S.gt = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a > b : rel('gt', a, b));
S.ge = (a, b) => (typeof a === 'number' && typeof b === 'number' ? a >= b : rel('ge', a, b));

function numEq(a, b) {
    if (!isSym(a) && !isSym(b)) return a === b;
    if (a instanceof SymFP || b instanceof SymFP) return T.fpred('eq', fpOf(a), fpOf(b));
    const x = ratOf(a);
    const y = ratOf(b);
    if (!x || !y) {
        if ((a instanceof SymInt && !Number.isInteger(b)) || (b instanceof SymInt && !Number.isInteger(a))) return false;
        for (const v of [a, b]) if (typeof v === 'number' && !(Math.abs(v) <= MAX)) return false;
        return concretise(a, 'inexact equality') === concretise(b, 'inexact equality');
    }
    const bad = (v, o) => v instanceof SymRat && !v.exact && o.d !== 1 && !farApart(x, y);
    if (bad(a, y) || bad(b, x)) return concretise(a, 'inexact equality') === concretise(b, 'inexact equality');
    return T.eq(T.scale(x.n, y.d), T.scale(y.n, x.d));
}
rt.numEq = numEq;
// strict equality as a formula
function seqT(a, b) {
    if (!isSym(a) && !isSym(b)) return a === b;
    if (isStr(a)) return isStr(b) ? strEqT(a, b) : false;
    if (isStr(b)) return false;
    if (a instanceof SymBool || b instanceof SymBool) {
        const x = bt(a);
        const y = bt(b);
        const ok = v => v === true || v === false || T.isT(v);
        return ok(x) && ok(y) && !isSym(x) && !isSym(y) ? T.iff(x, y) : false;
    }
    const num = v => typeof v === 'number' || isNumSym(v);
    if (num(a) && num(b)) return numEq(a, b);
    return false;
}
rt.seqT = seqT;
// SameValueZero as a formula
function sameZeroT(a, b) {
    if (!isSym(a) && !isSym(b)) return a === b || (a !== a && b !== b);
    if (a instanceof SymFP || b instanceof SymFP) {
        const num = v => typeof v === 'number' || isNumSym(v);
        if (!num(a) || !num(b)) return false;
        const x = fpOf(a);
        const y = fpOf(b);
        return T.or(T.fpred('eq', x, y), T.and(T.fpred('nan', x), T.fpred('nan', y)));
    }
    return seqT(a, b);
}
rt.sameZeroT = sameZeroT;
S.seq = (a, b) => (isSym(a) || isSym(b) ? mkBool(seqT(a, b)) : a === b);
S.sne = (a, b) => (isSym(a) || isSym(b) ? mkBool(T.not(seqT(a, b))) : a !== b);
function looseT(a, b) {
    if (!isSym(a) && !isSym(b)) {
        if (a !== null && b !== null && a !== undefined && b !== undefined) {
            if (typeof a === 'object' && typeof b !== 'object') return looseT(toPrim(a, 'default'), b);
            if (typeof b === 'object' && typeof a !== 'object') return looseT(a, toPrim(b, 'default'));
        }
        return a == b;
    }
    if (a === null || a === undefined || b === null || b === undefined) return false;
    if (isStr(a) && isStr(b)) return strEqT(a, b);
    if (typeof a === 'symbol' || typeof b === 'symbol') return false;
    if (!isSym(a) && (typeof a === 'object' || typeof a === 'function')) return looseT(toPrim(a, 'default'), b);
    if (!isSym(b) && (typeof b === 'object' || typeof b === 'function')) return looseT(a, toPrim(b, 'default'));
    const isB = v => typeof v === 'boolean' || v instanceof SymBool;
    if (isB(a) && isB(b)) return T.iff(bt(a), bt(b));
    return numEq(toNum(a), toNum(b));
}
S.eq = (a, b) => mkBool(looseT(a, b));
S.ne = (a, b) => mkBool(T.not(looseT(a, b)));

function truthT(x) {
    if (!isSym(x)) return !!x;
    if (x instanceof SymBool) return x.t;
    if (x instanceof SymInt) return T.not(T.eq(x.t, 0));
    if (x instanceof SymRat) return T.not(T.eq(x.n, 0));
    if (x instanceof SymStr) return x.u.length > 0;
    return T.not(T.or(T.fpred('nan', x.t), T.fpred('eq', x.t, 0)));
}
rt.truthT = truthT;
const truth = x => (isSym(x) ? branch(truthT(x)) : !!x);
S.truth = truth;
rt.truth = truth;
S.not = x => (isSym(x) ? mkBool(T.not(truthT(x))) : !x);
S.loop = x => {
    if (eng.signal) throw eng.signal;
    if (++eng.loops > eng.opts.loopLimit) eng.stop(new LoopLimit('loop limit'));
    if ((eng.loops & 1023) === 0 && Date.now() > eng.deadline) eng.stop(new (require('./explore').Budget)('time budget'));
    return truth(x);
};
S.typeof_ = x => {
    if (!isSym(x)) return typeof x;
    if (x instanceof SymStr) return 'string';
    if (x instanceof SymBool) return 'boolean';
    return 'number';
};
S.sw = (v, cases) => {
    for (let i = 0; i < cases.length; i++) if (truth(S.seq(v, cases[i]()))) return i;
    return -1;
};
S.enter = id => {
    if (eng.signal) throw eng.signal;
    rt.entered.add(id);
    if (++eng.calls > eng.opts.callLimit) eng.stop(new LoopLimit('call limit'));
};
S.rethrow = e => {
    if (e instanceof EngineSignal) throw e;
    if (eng.signal) throw eng.signal;
    // stack exhaustion inside the engine must not look like program behaviour
    if (e instanceof RangeError && typeof e.message === 'string' && /Maximum call stack/.test(e.message)) eng.stop(new LoopLimit('recursion limit'));
};

/* -------------------------------------------------------------- strings */
function concat(a, b) {
    if (typeof a === 'string' && typeof b === 'string') return a + b;
    if (a.length === 0) return b;
    if (b.length === 0) return a;
    return mkStr(units(a).concat(units(b)));
}
rt.concat = concat;
function digitsOf(t, radix = 10) {
    // units of a non-negative integer term
    let n = 1;
    while (n < 40) {
        const p = radix ** n;
        if (p > MAX || T.hi(t) < p) break;
        if (T.lo(t) < p && branch(T.lt(t, p))) break;
        n++;
    }
    const out = [];
    for (let i = n - 1; i >= 0; i--) {
        const q = T.idiv(t, radix ** i);
        const d = i === n - 1 ? q : T.imod(q, radix);
        // leading digit: already below radix on this path
        const dd = T.isT(d) && i === n - 1 && d.hi >= radix ? T.imod(d, radix) : d;
        out.push(radix > 10 ? T.iite(T.lt(dd, 10), T.add(dd, 48), T.add(dd, 87)) : T.add(dd, 48));
    }
    if (radix === 10 && T.isT(t)) rt.digitTexts.set(textKey(out), t);
    return out;
}
// digit texts produced on this path, so that reading one back needs no arithmetic
const textKey = u => u.map(c => (T.isT(c) ? 't' + c.id : c)).join(',');
rt.readBack = u => rt.digitTexts.get(textKey(u));
rt.digitsOf = digitsOf;
function intToStr(t, radix = 10) {
    if (!T.isT(t)) return t.toString(radix);
    if (T.hi(t) - T.lo(t) <= 1) t = pickTerm(t);
    if (!T.isT(t)) return t.toString(radix);
    if (t.hi < 0 || (t.lo < 0 && branch(T.lt(t, 0)))) return mkStr([45, ...digitsOf(T.neg(t), radix)]);
    return mkStr(digitsOf(t, radix));
}
rt.intToStr = intToStr;
function toStr(x) {
    if (typeof x === 'string') return x;
    if (isSym(x)) {
        if (x instanceof SymStr) return x;
        if (x instanceof SymInt) return intToStr(x.t);
        if (x instanceof SymBool) return branch(x.t) ? 'true' : 'false';
        if (x instanceof SymRat) return String(concretise(x, 'decimal text of a fraction'));
        return unsupported('text of a float');
    }
    if (x !== null && (typeof x === 'object' || typeof x === 'function')) return toStr(toPrim(x, 'string'));
    return `${x}`;
}
rt.toStr = toStr;
V.hooks.toStr = x => toStr(x);
S.tpl = (strs, vals) => {
    if (vals.some(v => isNumSym(v) || v instanceof SymBool || (v instanceof SymStr && v._u === null))) {
        const parts = [strs[0]];
        vals.forEach((v, i) => parts.push(isSym(v) ? v : toStr(v), strs[i + 1]));
        return new SymStr(null, parts);
    }
    let r = strs[0];
    for (let i = 0; i < vals.length; i++) {
        r = concat(r, toStr(vals[i]));
        r = concat(r, strs[i + 1]);
    }
    return r;
};
// code points of a string as an array of strings
function codePoints(s) {
    const u = units(s);
    const out = [];
    for (let i = 0; i < u.length; i++) {
        if (i + 1 < u.length && branch(T.and(T.inSet(u[i], [[0xd800, 0xdbff]]), T.inSet(u[i + 1], [[0xdc00, 0xdfff]])))) {
            out.push(mkStr([u[i], u[i + 1]]));
            i++;
        } else out.push(mkStr([u[i]]));
    }
    return out;
}
rt.codePoints = codePoints;
V.hooks.iterStr = codePoints;
S.iter = x => {
    if (x instanceof SymStr) return codePoints(x);
    if (isSym(x)) throw new TypeError(`${S.typeof_(x)} is not iterable`);
    return x;
};

/* -------------------------------------------- objects and symbolic keys */
const PH = '\u0001SK';
rt.resetKeys = () => {
    rt.keys = [];
    rt.keyOf = new Map();
    rt.digitTexts = new Map();
};
rt.resetKeys();
const isPh = k => typeof k === 'string' && k.charCodeAt(0) === 1 && k.startsWith(PH);
rt.isPh = isPh;
const keyVal = k => (isPh(k) ? rt.keys[Number(k.slice(PH.length))] : k);
rt.keyVal = keyVal;
const sigOf = s => s.u.map(u => (T.isT(u) ? 't' + u.id : u)).join(',');
function keyMatches(k, s) {
    const v = keyVal(k);
    if (v === s) return true;
    if (v.length !== s.length) return false;
    const c = strEqT(v, s);
    return c === true || (c !== false && branch(c));
}
// the actual own key of `o` equal to s, or undefined
function ownKeyFor(o, s) {
    const sig = sigOf(s);
    const known = rt.keyOf.get(sig);
    if (known !== undefined && Object.prototype.hasOwnProperty.call(o, known)) return known;
    if (typeof o === 'string') o = Object(o);
    for (const k of Object.getOwnPropertyNames(o)) if (keyMatches(k, s)) return k;
    return undefined;
}
function placeholderFor(s) {
    const sig = sigOf(s);
    const known = rt.keyOf.get(sig);
    if (known !== undefined) return known;
    for (let i = 0; i < rt.keys.length; i++) {
        if (rt.keys[i].length === s.length && branch(strEqT(rt.keys[i], s))) {
            rt.keyOf.set(sig, PH + i);
            return PH + i;
        }
    }
    rt.keys.push(s);
    const k = PH + (rt.keys.length - 1);
    rt.keyOf.set(sig, k);
    return k;
}
// canonical array index / integer key: ordering differs, so enumerate it
function indexLike(s) {
    const u = units(s);
    if (u.length > 10) return false;
    const cs = [T.inSet(u[0], u.length === 1 ? [[48, 57]] : [[49, 57]])];
    for (let i = 1; i < u.length; i++) cs.push(T.inSet(u[i], [[48, 57]]));
    return T.and(...cs);
}
// ToPropertyKey
function propKey(k) {
    if (typeof k === 'string' || typeof k === 'number' || typeof k === 'symbol') return k;
    if (k instanceof SymStr) return k;
    if (k instanceof SymInt) return toStr(k);
    if (isSym(k)) return toStr(k);
    if (k !== null && typeof k === 'object') {
        const p = toPrim(k, 'string');
        return typeof p === 'symbol' ? p : toStr(p);
    }
    return k;
}
rt.propKey = propKey;
// native key to use for reading (own or inherited); undefined if absent
function readKey(o, s) {
    for (let p = Object(o); p !== null; p = Object.getPrototypeOf(p)) {
        const k = ownKeyFor(p, s);
        if (k !== undefined) return k;
    }
    return undefined;
}
rt.ownKeyFor = ownKeyFor;
rt.readKey = readKey;
// a concrete key may equal a symbolic key already stored in the object
function concreteKey(o, k) {
    if (rt.keys.length === 0 || typeof k !== 'string' || o === null || (typeof o !== 'object' && typeof o !== 'function') || isPh(k)) return k;
    if (Object.prototype.hasOwnProperty.call(o, k)) return k;
    for (const q of Object.getOwnPropertyNames(o)) {
        if (!isPh(q)) continue;
        const v = keyVal(q);
        if (v.length === k.length && branch(strEqT(v, k))) return q;
    }
    return k;
}
rt.concreteKey = concreteKey;
function writeKey(o, s) {
    if (typeof s === 'string') return concreteKey(o, s);
    const own = ownKeyFor(o, s);
    if (own !== undefined) return own;
    const inh = Object.getPrototypeOf(o);
    if (inh !== null) {
        const k = readKey(inh, s);
        if (k !== undefined) return k;
    }
    const ix = indexLike(s);
    if (ix !== false && branch(ix)) return mkStr(s.u.map(u => pickTerm(u, 'index-like key')));
    return placeholderFor(s);
}
rt.writeKey = writeKey;

function arrayIndex(o, t, forSet) {
    const n = o.length;
    if (n > 0 && branch(T.and(T.le(0, t), T.lt(t, n)))) return pickTerm(t, 'index');
    if (forSet) return pickTerm(t, 'array write out of range');
    return undefined;
}
// constant table of integers or equally long texts: one term instead of a
// path per entry (undefined when the table or the index is not suitable)
function tableValue(o, t) {
    const n = o.length;
    if (n < 3 || n > 300 || !T.isT(t)) return undefined;
    const ints = typeof o[0] === 'number';
    const len = ints ? 0 : typeof o[0] === 'string' ? o[0].length : -1;
    if (len < 0 || len > 8) return undefined;
    for (let i = 0; i < n; i++) {
        const x = o[i];
        if (ints ? !Number.isSafeInteger(x) || Object.is(x, -0) : typeof x !== 'string' || x.length !== len) return undefined;
    }
    if (!branch(T.and(T.le(0, t), T.lt(t, n)))) return undefined;
    const lo = Math.max(0, T.lo(t));
    const hi = Math.min(n - 1, T.hi(t));
    const pick = f => {
        let step = hi > lo ? f(lo + 1) - f(lo) : 0;
        let linear = true;
        for (let i = lo + 1; i <= hi && linear; i++) linear = f(i) - f(i - 1) === step;
        if (linear) return T.add(T.scale(t, step), f(lo) - step * lo);
        let r = f(hi);
        for (let i = hi - 1; i >= lo; i--) r = T.iite(T.eq(t, i), f(i), r);
        return r;
    };
    if (ints) return mkInt(pick(i => o[i]));
    const u = [];
    for (let j = 0; j < len; j++) u.push(pick(i => o[i].charCodeAt(j)));
    return mkStr(u);
}
const isArr = o => Array.isArray(o) || ArrayBuffer.isView(o);
S.get = (o, k) => {
    if (isSym(o)) return getSym(o, k);
    if (isSym(k) || (typeof k === 'object' && k !== null)) {
        if (o === null || o === undefined) throw new TypeError(`Cannot read properties of ${o}`);
        if (k instanceof SymInt && (isArr(o) || typeof o === 'string')) {
            const v = tableValue(o, k.t);
            if (v !== undefined) return v;
            const i = arrayIndex(o, k.t);
            return i === undefined ? undefined : o[i];
        }
        k = propKey(k);
        if (!(k instanceof SymStr)) return S.get(o, k);
        const key = readKey(o, k);
        return key === undefined ? undefined : o[key];
    }
    if (rt.keys.length) k = concreteKey(o, k);
    if (rt.regexSource && k === 'source' && o instanceof RegExp && rt.regexSource.has(o)) return rt.regexSource.get(o);
    return o[k];
};
function getSym(o, k) {
    if (o instanceof SymStr) {
        if (k === 'length') return o.u.length;
        if (k instanceof SymInt) {
            const i = arrayIndex(o.u, k.t);
            return i === undefined ? undefined : mkStr([o.u[i]]);
        }
        k = propKey(k);
        if (k instanceof SymStr) k = concretise(k, 'key on a string');
        if (typeof k !== 'symbol' && String(k) === String(Number(k)) && Number.isInteger(Number(k)) && Number(k) >= 0) {
            const i = Number(k);
            return i < o.u.length ? mkStr([o.u[i]]) : undefined;
        }
        return String.prototype[k];
    }
    if (isSym(k)) k = toStr(k);
    if (o instanceof SymBool) return Boolean.prototype[k];
    return Number.prototype[k];
}
S.set = (o, k, v) => {
    if (isSym(o)) throw new TypeError('Cannot create property on a primitive');
    if (isSym(k) || (typeof k === 'object' && k !== null)) {
        if (o === null || o === undefined) throw new TypeError(`Cannot set properties of ${o}`);
        if (k instanceof SymInt && isArr(o)) {
            k = arrayIndex(o, k.t, true);
        } else {
            k = propKey(k);
            if (k instanceof SymStr) k = writeKey(o, k);
        }
    } else if (rt.keys.length) k = concreteKey(o, k);
    if (isSym(v)) {
        if (Array.isArray(o) && k === 'length') v = concretise(v, 'array length');
        else if (ArrayBuffer.isView(o)) v = concretise(v, 'typed array element');
        else if (o instanceof RegExp && k === 'lastIndex') v = concretise(v, 'lastIndex');
    }
    o[k] = v;
    return v;
};
S.del = (o, k) => {
    if (isSym(k) || (typeof k === 'object' && k !== null)) {
        k = propKey(k);
        if (k instanceof SymStr) {
            k = ownKeyFor(o, k);
            if (k === undefined) return true;
        }
    } else k = concreteKey(o, k);
    return delete o[k];
};
S.in_ = (k, o) => {
    if (isSym(o) || o === null || (typeof o !== 'object' && typeof o !== 'function')) throw new TypeError("Cannot use 'in' operator");
    if (isSym(k) || (typeof k === 'object' && k !== null)) {
        k = propKey(k);
        if (k instanceof SymStr) return readKey(o, k) !== undefined;
    }
    return concreteKey(o, k) in o;
};
S.instof = (a, b) => {
    if (isSym(a)) {
        const h = b[Symbol.hasInstance];
        if (h !== Function.prototype[Symbol.hasInstance]) return rt.truth(rt.invoke(h, b, [a]));
        if (typeof b !== 'function') throw new TypeError("Right-hand side of 'instanceof' is not callable");
        return false;
    }
    return a instanceof b;
};
S.forin = o => {
    const out = [];
    if (o === null || o === undefined) return out;
    if (o instanceof SymStr) return o.u.map((_, i) => String(i));
    if (isSym(o)) return out;
    for (const k in o) out.push(keyVal(k));
    return out;
};
S.mkobj = parts => {
    const o = {};
    for (const p of parts) {
        if (p.length === 1) {
            const src = p[0];
            if (src === null || src === undefined) continue;
            if (src instanceof SymStr) {
                src.u.forEach((u, i) => (o[i] = mkStr([u])));
                continue;
            }
            if (isSym(src)) continue;
            for (const k of Reflect.ownKeys(Object(src))) {
                const d = Object.getOwnPropertyDescriptor(src, k);
                if (!d || !d.enumerable) continue;
                define(o, typeof k === 'string' ? keyVal(k) : k, src[k]);
            }
        } else define(o, propKey(p[0]), p[1]);
    }
    return o;
};
function define(o, k, v) {
    let key = k;
    if (k instanceof SymStr) {
        key = ownKeyFor(o, k);
        if (key === undefined) {
            const ix = indexLike(k);
            key = ix !== false && branch(ix) ? mkStr(k.u.map(u => pickTerm(u, 'index-like key'))) : placeholderFor(k);
        }
    } else key = concreteKey(o, k);
    Object.defineProperty(o, key, { value: v, writable: true, enumerable: true, configurable: true });
}

/* ---------------------------------------------------------------- calls */
const MODELS = new Map();
const NATIVE = Symbol('native');
const SAFE = new Set();
rt.MODELS = MODELS;
rt.NATIVE = NATIVE;
rt.SAFE = SAFE;
const nativeCache = new WeakMap();
// functions of Node's own libraries that are written in JavaScript
const nodeLib = new WeakSet();
for (const root of [Buffer, URL, URLSearchParams, TextEncoder, TextDecoder, Blob, FormData, require('buffer'), require('path'), require('url'), require('querystring'), require('string_decoder'), require('util').inspect, require('util').format]) {
    const todo = [root];
    const seen = new Set();
    while (todo.length) {
        const x = todo.pop();
        if (!x || (typeof x !== 'object' && typeof x !== 'function') || seen.has(x) || seen.size > 2000) continue;
        seen.add(x);
        if (typeof x === 'function') nodeLib.add(x);
        for (const k of Reflect.ownKeys(x)) {
            if (k === 'caller' || k === 'callee' || k === 'arguments' || k === 'constructor') continue;
            const p = Object.getOwnPropertyDescriptor(x, k);
            for (const y of [p.value, p.get, p.set]) if (typeof y === 'function' || (k === 'prototype' && y) || k === 'posix' || k === 'win32') todo.push(y);
        }
    }
}
function isNative(f) {
    let r = nativeCache.get(f);
    if (r === undefined) {
        r = nodeLib.has(f) || /\{\s*\[native code\]\s*\}\s*$/.test(Function.prototype.toString.call(f));
        nativeCache.set(f, r);
    }
    return r;
}
const hasSymIn = x => isSym(x) || (Array.isArray(x) && x.some(y => isSym(y) || (Array.isArray(y) && y.some(isSym))));
function deepHasSym(x, depth = 6, seen = new Set()) {
    if (isSym(x)) return true;
    if (x === null || typeof x !== 'object' || depth === 0 || seen.has(x)) return false;
    seen.add(x);
    if (x instanceof Map || x instanceof Set) return [...x].some(y => deepHasSym(y, depth - 1, seen));
    for (const k of Reflect.ownKeys(x)) {
        if (isPh(k)) return true;
        const d = Object.getOwnPropertyDescriptor(x, k);
        if (d && 'value' in d && deepHasSym(d.value, depth - 1, seen)) return true;
    }
    return false;
}
rt.deepHasSym = deepHasSym;
rt.isNative = isNative;
function invoke(f, self, args) {
    if (typeof f !== 'function') throw new TypeError(`${typeof f === 'object' ? 'object' : String(f)} is not a function`);
    if (eng.signal) throw eng.signal;
    const m = MODELS.get(f);
    if (m) {
        const r = m(self, args);
        if (r !== NATIVE) return r;
        return Reflect.apply(f, self, args);
    }
    if (!isNative(f)) return Reflect.apply(f, self, args);
    if (SAFE.has(f) || f.name === '' || f.name.startsWith('bound ')) return Reflect.apply(f, self, args);
    if (isSym(self) || args.some(hasSymIn) || (Array.isArray(self) && self.some(isSym))) {
        // unmodelled native: continue on a few concrete values (partial)
        const c = x => (Array.isArray(x) ? x.map(c) : concretise(x, 'native ' + (f.name || 'function'), 2));
        eng.note('concretised', 'native ' + f.name);
        return Reflect.apply(f, isSym(self) ? c(self) : self, args.map(c));
    }
    return Reflect.apply(f, self, args);
}
rt.invoke = invoke;
S.call = (f, args) => invoke(f, undefined, args);
S.mcall = (o, k, args) => {
    const f = S.get(o, k);
    if (typeof f !== 'function') {
        if (isSym(o)) throw new TypeError(`${String(k)} is not a function`);
        return o[k](...args); // native error
    }
    return invoke(f, o, args);
};
const CONS = new Map();
rt.CONS = CONS;
S.new_ = (C, args) => {
    const m = CONS.get(C);
    if (m) {
        const r = m(args, C);
        if (r !== NATIVE) return r;
    } else if (typeof C === 'function' && isNative(C) && !rt.SAFECONS.has(C) && args.some(hasSymIn)) {
        const c = x => (Array.isArray(x) ? x.map(c) : concretise(x, 'new ' + C.name, 2));
        args = args.map(c);
    }
    return new C(...args);
};
rt.SAFECONS = new Set([Promise, Proxy, WeakRef, Object]);

module.exports = rt;
require('./strings');
require('./builtins');
