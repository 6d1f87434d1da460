'use strict';
// Wrapper values that stand for symbolic JavaScript primitives.
const T = require('./terms');

const hooks = { unsupported: null, iterStr: null, toStr: null };
class Sym {
    [Symbol.toPrimitive]() {
        return hooks.unsupported('native coercion of a symbolic value');
    }
    toJSON() {
        return hooks.unsupported('native JSON of a symbolic value');
    }
}
class SymBool extends Sym {
    constructor(t) {
        super();
        this.t = t;
    }
}
class SymInt extends Sym {
    constructor(t) {
        super();
        this.t = t;
    }
}
// n / d with d a positive constant integer; exact as a double when d is a
// power of two, otherwise only order against integers and rounding are used.
class SymRat extends Sym {
    constructor(n, d) {
        super();
        this.n = n;
        this.d = d;
    }
    get exact() {
        return Number.isInteger(Math.log2(this.d));
    }
}
class SymFP extends Sym {
    constructor(t) {
        super();
        this.t = t;
    }
}
class SymStr extends Sym {
    constructor(u, parts) {
        super();
        this._u = u;
        this.parts = parts; // pieces whose text is produced only when needed
    }
    get u() {
        if (this._u === null) {
            const out = [];
            for (const p of this.parts) {
                const s = hooks.toStr(p);
                const u = s instanceof SymStr ? s.u : units(s);
                for (const c of u) out.push(c);
            }
            this._u = out;
        }
        return this._u;
    }
    get length() {
        return this.u.length;
    }
    [Symbol.iterator]() {
        return hooks.iterStr(this)[Symbol.iterator]();
    }
}
const isSym = x => x instanceof Sym;
const isNumSym = x => x instanceof SymInt || x instanceof SymRat || x instanceof SymFP;
const mkBool = t => (t === true || t === false ? t : new SymBool(t));
const bt = x => (x instanceof SymBool ? x.t : x);

function mkStr(u) {
    for (let i = 0; i < u.length; i++) if (T.isT(u[i])) return new SymStr(u);
    if (u.length < 4000) return String.fromCharCode(...u);
    return u.map(c => String.fromCharCode(c)).join('');
}
function units(x) {
    if (x instanceof SymStr) return x.u;
    const u = new Array(x.length);
    for (let i = 0; i < x.length; i++) u[i] = x.charCodeAt(i);
    return u;
}
function strEqT(a, b) {
    if (typeof a === 'string' && typeof b === 'string') return a === b;
    if (a.length !== b.length) return false;
    const x = units(a);
    const y = units(b);
    const cs = [];
    for (let i = 0; i < x.length; i++) {
        const e = T.eq(x[i], y[i]);
        if (e === false) return false;
        if (e !== true) cs.push(e);
    }
    return T.and(...cs);
}
const isStr = x => typeof x === 'string' || x instanceof SymStr;

module.exports = { hooks, Sym, SymBool, SymInt, SymRat, SymFP, SymStr, isSym, isNumSym, mkBool, bt, mkStr, units, strEqT, isStr };
