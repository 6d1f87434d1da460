'use strict';
// Models of String.prototype, RegExp and number parsing over symbolic units.
const T = require('./terms');
const rt = require('./runtime');
const R = require('./regex');
const V = require('./values');
const { SymBool, SymInt, SymRat, SymStr, isSym, mkBool, mkStr, units, strEqT, isStr } = V;
const { MODELS, NATIVE, branch, pickTerm, concretise, toStr, mkInt, unsupported } = rt;
R.init(rt);

const P = String.prototype;
const anySym = (self, args) => isSym(self) || args.some(isSym);
const model = (f, impl) => f && MODELS.set(f, impl);
// `this` as a string value
function thisStr(self, name) {
    if (self === null || self === undefined) throw new TypeError(`String.prototype.${name} called on null or undefined`);
    return toStr(self);
}
// ToIntegerOrInfinity clamped to [lo, hi]: enumerates a symbolic value
function argInt(x, lo, hi, dflt) {
    if (x === undefined) return dflt;
    x = rt.toNum(x);
    if (!isSym(x)) {
        x = Number(x);
        if (x !== x) return Math.max(lo, Math.min(hi, 0));
        return Math.max(lo, Math.min(hi, Math.trunc(x)));
    }
    if (x instanceof V.SymFP) unsupported('float as an index');
    let t = x instanceof SymRat ? rt.truncTerm(x) : x.t;
    if (!T.isT(t)) return Math.max(lo, Math.min(hi, t));
    if (t.lo < lo && branch(T.le(t, lo))) return lo;
    if (t.hi > hi && branch(T.le(hi, t))) return hi;
    return pickTerm(t, 'position');
}
rt.argInt = argInt;
// relative index (negative counts from the end), clamped into [0, n]
function relInt(x, n, dflt) {
    const v = argInt(x, -n, n, undefined);
    if (v === undefined) return dflt;
    return v < 0 ? n + v : v;
}
rt.relInt = relInt;

const sm = (name, impl) =>
    model(P[name], (self, args) => {
        if (!anySym(self, args) && (self === null || typeof self !== 'object')) return NATIVE;
        return impl(thisStr(self, name), args);
    });

for (const k of ['toString', 'valueOf']) model(P[k], self => (self instanceof SymStr ? self : NATIVE));
sm('charAt', (s, [i]) => {
    const n = s.length;
    const k = argInt(i, -1, n, 0);
    return k < 0 || k >= n ? '' : mkStr([units(s)[k]]);
});
sm('at', (s, [i]) => {
    const n = s.length;
    let k = argInt(i, -n - 1, n, 0);
    if (k < 0) k += n;
    return k < 0 || k >= n ? undefined : mkStr([units(s)[k]]);
});
sm('charCodeAt', (s, [i]) => {
    const n = s.length;
    const k = argInt(i, -1, n, 0);
    return k < 0 || k >= n ? NaN : mkInt(units(s)[k]);
});
sm('codePointAt', (s, [i]) => {
    const u = units(s);
    const k = argInt(i, -1, u.length, 0);
    if (k < 0 || k >= u.length) return undefined;
    if (k + 1 < u.length && branch(T.and(T.inSet(u[k], [[0xd800, 0xdbff]]), T.inSet(u[k + 1], [[0xdc00, 0xdfff]]))))
        return mkInt(T.add(T.add(T.scale(T.sub(u[k], 0xd800), 0x400), T.sub(u[k + 1], 0xdc00)), 0x10000));
    return mkInt(u[k]);
});
sm('slice', (s, [a, b]) => {
    const n = s.length;
    const i = relInt(a, n, 0);
    const j = relInt(b, n, n);
    return i < j ? mkStr(units(s).slice(i, j)) : '';
});
sm('substring', (s, [a, b]) => {
    const n = s.length;
    const i = argInt(a, 0, n, 0);
    const j = argInt(b, 0, n, n);
    return mkStr(units(s).slice(Math.min(i, j), Math.max(i, j)));
});
sm('substr', (s, [a, b]) => {
    const n = s.length;
    const i = relInt(a, n, 0);
    const l = argInt(b, 0, n - i, n - i);
    return mkStr(units(s).slice(i, i + l));
});
sm('concat', (s, args) => args.reduce((r, x) => rt.concat(r, toStr(x)), s));
const eqAt = (u, v, at) => {
    const cs = [];
    for (let i = 0; i < v.length; i++) {
        const e = T.eq(u[at + i], v[i]);
        if (e === false) return false;
        cs.push(e);
    }
    return T.and(...cs);
};
function indexOf(s, x, from) {
    const u = units(s);
    const v = units(x);
    for (let i = from; i + v.length <= u.length; i++) if (branch(eqAt(u, v, i))) return i;
    return -1;
}
rt.strIndexOf = indexOf;
sm('indexOf', (s, [x, p]) => indexOf(s, toStr(x), argInt(p, 0, s.length, 0)));
sm('lastIndexOf', (s, [x, p]) => {
    const u = units(s);
    const v = units(toStr(x));
    let k = p === undefined || (typeof p === 'number' && p !== p) ? u.length : argInt(p, 0, u.length, u.length);
    for (let i = Math.min(k, u.length - v.length); i >= 0; i--) if (branch(eqAt(u, v, i))) return i;
    return -1;
});
const noRegex = (x, name) => {
    if (x instanceof RegExp) throw new TypeError(`First argument to String.prototype.${name} must not be a regular expression`);
};
sm('includes', (s, [x, p]) => {
    noRegex(x, 'includes');
    const u = units(s);
    const v = units(toStr(x));
    const cs = [];
    for (let i = argInt(p, 0, u.length, 0); i + v.length <= u.length; i++) cs.push(eqAt(u, v, i));
    return mkBool(T.or(...cs));
});
sm('startsWith', (s, [x, p]) => {
    noRegex(x, 'startsWith');
    const v = toStr(x);
    const k = argInt(p, 0, s.length, 0);
    return k + v.length > s.length ? false : mkBool(eqAt(units(s), units(v), k));
});
sm('endsWith', (s, [x, p]) => {
    noRegex(x, 'endsWith');
    const v = toStr(x);
    const k = argInt(p, 0, s.length, s.length) - v.length;
    return k < 0 ? false : mkBool(eqAt(units(s), units(v), k));
});
const isSpace = u => T.inSet(u, R.SPACE);
function trim(u, l, r) {
    let a = 0;
    let b = u.length;
    if (l) while (a < b && branch(isSpace(u[a]))) a++;
    if (r) while (b > a && branch(isSpace(u[b - 1]))) b--;
    return u.slice(a, b);
}
sm('trim', s => mkStr(trim(units(s), true, true)));
sm('trimStart', s => mkStr(trim(units(s), true, false)));
sm('trimEnd', s => mkStr(trim(units(s), false, true)));
// case mapping: ASCII by formula, everything else must be caseless here
let casedRanges = null;
function cased() {
    if (!casedRanges) {
        const rs = [];
        for (let c = 128; c < 65536; c++) {
            const s = String.fromCharCode(c);
            if (s.toLowerCase() !== s || s.toUpperCase() !== s || (c >= 0xd800 && c <= 0xdfff) || c === 0x3a3 || c === 0x307) rs.push([c, c]);
        }
        casedRanges = T.normRanges(rs);
    }
    return casedRanges;
}
function mapCase(s, up) {
    const u = units(s);
    return mkStr(
        u.map(c => {
            if (!T.isT(c)) {
                const r = up ? String.fromCharCode(c).toUpperCase() : String.fromCharCode(c).toLowerCase();
                if (r.length !== 1) unsupported('special casing');
                return r.charCodeAt(0);
            }
            const nonAscii = T.inSet(c, cased());
            if (nonAscii !== false && branch(nonAscii)) {
                // enumerate a few of the non-ASCII letters
                const v = pickTerm(c, 'case mapping of a non-ASCII letter', 2);
                const r = up ? String.fromCharCode(v).toUpperCase() : String.fromCharCode(v).toLowerCase();
                if (r.length !== 1) unsupported('special casing');
                return r.charCodeAt(0);
            }
            return up ? T.iite(T.inSet(c, [[97, 122]]), T.sub(c, 32), c) : T.iite(T.inSet(c, [[65, 90]]), T.add(c, 32), c);
        })
    );
}
for (const n of ['toUpperCase', 'toLocaleUpperCase']) sm(n, s => mapCase(s, true));
for (const n of ['toLowerCase', 'toLocaleLowerCase']) sm(n, s => mapCase(s, false));
sm('repeat', (s, [n]) => {
    const k = rt.toNum(n);
    const num = isSym(k) ? (branch(rt.numCmp('lt', k, 0)) ? -1 : argInt(k, 0, 4096, 0)) : Math.trunc(k) || 0;
    if (num < 0 || num === Infinity) throw new RangeError(`Invalid count value: ${num}`);
    let u = [];
    const one = units(s);
    for (let i = 0; i < num; i++) u = u.concat(one);
    return mkStr(u);
});
function pad(s, n, f, start) {
    const max = argInt(n, 0, 4096, 0);
    if (max <= s.length) return s;
    const fill = f === undefined ? ' ' : toStr(f);
    if (fill.length === 0) return s;
    const fu = units(fill);
    const add = [];
    while (add.length < max - s.length) add.push(fu[add.length % fu.length]);
    return mkStr(start ? add.concat(units(s)) : units(s).concat(add));
}
sm('padStart', (s, [n, f]) => pad(s, n, f, true));
sm('padEnd', (s, [n, f]) => pad(s, n, f, false));
sm('isWellFormed', s => {
    const u = units(s);
    for (const cp of rt.codePoints(s)) if (cp.length === 1 && branch(T.inSet(units(cp)[0], [[0xd800, 0xdfff]]))) return false;
    void u;
    return true;
});
sm('localeCompare', (s, [x]) => {
    const y = toStr(x);
    return concretise(s, 'localeCompare').localeCompare(concretise(y, 'localeCompare'));
});

model(String.fromCharCode, (self, args) => {
    if (!args.some(isSym)) return NATIVE;
    return mkStr(
        args.map(a => {
            const n = rt.toNum(a);
            if (!isSym(n)) return n & 0xffff;
            const t = n instanceof SymRat ? rt.truncTerm(n) : n instanceof SymInt ? n.t : unsupported('fromCharCode float');
            return T.imod(t, 65536);
        })
    );
});
model(String.fromCodePoint, (self, args) => {
    if (!args.some(isSym)) return NATIVE;
    const out = [];
    for (const a of args) {
        const n = rt.toNum(a);
        if (!isSym(n)) {
            out.push(...units(String.fromCodePoint(n)));
            continue;
        }
        if (!(n instanceof SymInt)) {
            out.push(...units(String.fromCodePoint(concretise(n, 'fromCodePoint'))));
            continue;
        }
        if (!branch(T.and(T.le(0, n.t), T.le(n.t, 0x10ffff)))) throw new RangeError('Invalid code point');
        if (branch(T.lt(n.t, 0x10000))) out.push(n.t);
        else {
            const c = T.sub(n.t, 0x10000);
            out.push(T.add(T.idiv(c, 0x400), 0xd800), T.add(T.imod(c, 0x400), 0xdc00));
        }
    }
    return mkStr(out);
});

/* -------------------------------------------------------- number parsing */
const isDigit = u => T.inSet(u, [[48, 57]]);
function digitSum(u, radix = 10) {
    const known = radix === 10 && rt.readBack(u);
    if (known !== undefined && known !== false) return known;
    let v = 0;
    for (const c of u) {
        const d = radix <= 10 ? T.sub(c, 48) : T.iite(T.inSet(c, [[48, 57]]), T.sub(c, 48), T.iite(T.inSet(c, [[65, 90]]), T.sub(c, 55), T.sub(c, 87)));
        v = T.add(T.scale(v, radix), d);
    }
    return v;
}
// StringToNumber
rt.strToNum = s => {
    const u = trim(units(s), true, true);
    if (u.length === 0) return 0;
    if (u.every(c => !T.isT(c))) return Number(mkStr(u));
    const eqs = (c, ch) => branch(T.eq(c, ch.charCodeAt(0)));
    if (u.length > 1 && eqs(u[0], '0') && branch(T.not(T.inSet(u[1], [[46, 46], [48, 57], [69, 69], [101, 101]])))) {
        const radix = branch(T.inSet(u[1], [[88, 88], [120, 120]])) ? 16 : branch(T.inSet(u[1], [[79, 79], [111, 111]])) ? 8 : branch(T.inSet(u[1], [[66, 66], [98, 98]])) ? 2 : 0;
        if (!radix || u.length === 2) return NaN;
        const ok = radix === 16 ? [[48, 57], [65, 70], [97, 102]] : [[48, 47 + radix]];
        if (!branch(T.and(...u.slice(2).map(c => T.inSet(c, ok))))) return NaN;
        return mkInt(digitSum(u.slice(2), radix));
    }
    let i = 0;
    let neg = false;
    if (branch(T.inSet(u[0], [[43, 43], [45, 45]]))) {
        neg = eqs(u[0], '-');
        i = 1;
    }
    if (u.length - i === 8 && branch(strEqT(mkStr(u.slice(i)), 'Infinity'))) return neg ? -Infinity : Infinity;
    const int = [];
    while (i < u.length && branch(isDigit(u[i]))) int.push(u[i++]);
    let frac = null;
    if (i < u.length && eqs(u[i], '.')) {
        i++;
        frac = [];
        while (i < u.length && branch(isDigit(u[i]))) frac.push(u[i++]);
    }
    if (int.length === 0 && (!frac || frac.length === 0)) return NaN;
    if (i < u.length && branch(T.inSet(u[i], [[69, 69], [101, 101]]))) {
        i++;
        let en = false;
        if (i < u.length && branch(T.inSet(u[i], [[43, 43], [45, 45]]))) {
            en = eqs(u[i], '-');
            i++;
        }
        const ex = [];
        while (i < u.length && branch(isDigit(u[i]))) ex.push(u[i++]);
        if (ex.length === 0 || i < u.length) return NaN;
        // exponent form: enumerate the digits
        const c = l => l.map(d => String.fromCharCode(pickTerm(d, 'exponent form', 10))).join('');
        return Number(`${neg ? '-' : ''}${c(int)}${frac ? '.' + c(frac) : ''}e${en ? '-' : ''}${c(ex)}`);
    }
    if (i < u.length) return NaN;
    if (frac && frac.length && int.length + frac.length <= 15) {
        // the double nearest to n / 10^k
        const n = digitSum(int.concat(frac));
        if (T.isT(n) && !(neg && branch(T.eq(n, 0)))) return rt.mkRat(neg ? T.neg(n) : n, 10 ** frac.length);
    }
    if (frac && frac.length) {
        if (!branch(T.and(...frac.map(c => T.eq(c, 48))))) {
            const c = l => l.map(d => String.fromCharCode(pickTerm(d, 'decimal fraction', 3))).join('');
            return Number(`${neg ? '-' : ''}${c(int)}.${c(frac)}`);
        }
    }
    const v = digitSum(int);
    if (neg && !T.isT(v)) return -v;
    if (neg && branch(T.eq(v, 0))) return -0;
    return T.isT(v) ? mkInt(neg ? T.neg(v) : v) : v;
};
const parseIntModel = (self, [x, r]) => {
    if (!isSym(x) && !isSym(r)) return NATIVE;
    let radix = r === undefined ? 0 : argInt(r, -1, 37, 0);
    const u = trim(units(toStr(x)), true, false);
    let i = 0;
    let neg = false;
    if (i < u.length && branch(T.inSet(u[i], [[43, 43], [45, 45]]))) {
        neg = branch(T.eq(u[i], 45));
        i++;
    }
    if (radix !== 0 && (radix < 2 || radix > 36)) return NaN;
    if ((radix === 0 || radix === 16) && i + 1 < u.length && branch(T.and(T.eq(u[i], 48), T.inSet(u[i + 1], [[88, 88], [120, 120]])))) {
        i += 2;
        radix = 16;
    }
    if (radix === 0) radix = 10;
    const ok = radix <= 10 ? [[48, 47 + radix]] : [[48, 57], [65, 54 + radix], [97, 86 + radix]];
    const ds = [];
    while (i < u.length && branch(T.inSet(u[i], ok))) ds.push(u[i++]);
    if (!ds.length) return NaN;
    const v = digitSum(ds, radix);
    if (!T.isT(v)) return neg ? -v : v;
    return mkInt(neg ? T.neg(v) : v);
};
model(parseInt, parseIntModel);
model(Number.parseInt, parseIntModel);
const parseFloatModel = (self, [x]) => {
    if (!isSym(x)) return NATIVE;
    if (x instanceof SymInt || x instanceof SymRat) return x;
    const u = trim(units(toStr(x)), true, false);
    // longest prefix that is a decimal literal
    let i = 0;
    if (i < u.length && branch(T.inSet(u[i], [[43, 43], [45, 45]]))) i++;
    if (u.length - i >= 8 && branch(strEqT(mkStr(u.slice(i, i + 8)), 'Infinity'))) return rt.strToNum(mkStr(u.slice(0, i + 8)));
    let n = 0;
    while (i < u.length && branch(isDigit(u[i]))) i++, n++;
    let end = n ? i : -1;
    if (i < u.length && branch(T.eq(u[i], 46))) {
        let j = i + 1;
        let m = 0;
        while (j < u.length && branch(isDigit(u[j]))) j++, m++;
        if (n || m) {
            end = j;
            n += m;
        }
        i = j;
    }
    if (!n) return NaN;
    if (i < u.length && i === end && branch(T.inSet(u[i], [[69, 69], [101, 101]]))) {
        let j = i + 1;
        if (j < u.length && branch(T.inSet(u[j], [[43, 43], [45, 45]]))) j++;
        let m = 0;
        while (j < u.length && branch(isDigit(u[j]))) j++, m++;
        if (m) end = j;
    }
    return rt.strToNum(mkStr(u.slice(0, end)));
};
model(parseFloat, parseFloatModel);
model(Number.parseFloat, parseFloatModel);

/* ---------------------------------------------------------------- RegExp */
const parsed = new Map();
const regexSource = (rt.regexSource = new WeakMap()); // RegExp -> symbolic source
const regexAst = new WeakMap();
function compiled(re) {
    let c = regexAst.get(re);
    if (c) return c;
    const key = re.flags + '/' + re.source;
    c = parsed.get(key);
    if (!c) {
        c = R.parse(units(re.source), re.flags);
        parsed.set(key, c);
    }
    regexAst.set(re, c);
    return c;
}
rt.newRegExp = (src, flags) => {
    const f = flags === undefined ? '' : toStr(flags);
    const fl = concretise(f, 'regex flags');
    const re = new RegExp('(?:)', fl); // validates the flags
    let ast;
    try {
        ast = R.parse(units(src), fl);
    } catch (e) {
        if (e instanceof R.RegexSyntax) throw new SyntaxError(e.message);
        throw e;
    }
    regexAst.set(re, ast);
    regexSource.set(re, src.length ? src : '(?:)');
    return re;
};
rt.CONS.set(RegExp, args => {
    let [src, flags] = args;
    if (src instanceof RegExp && regexSource.has(src)) {
        if (flags === undefined) flags = src.flags;
        src = regexSource.get(src);
    }
    if (!isSym(src) && !isSym(flags)) return NATIVE;
    if (src instanceof RegExp) return new RegExp(src, concretise(flags, 'regex flags'));
    return rt.newRegExp(src === undefined ? '' : toStr(src), flags);
});
model(RegExp, (self, args) => {
    const r = rt.CONS.get(RegExp)(args);
    return r;
});
const needModel = (re, s) => isSym(s) || regexSource.has(re);

// RegExpBuiltinExec
function execRaw(re, s) {
    const u = units(s);
    const gy = re.global || re.sticky;
    let last = gy ? re.lastIndex : 0;
    const c = compiled(re);
    if (last > u.length) {
        re.lastIndex = 0;
        return null;
    }
    for (let i = last; i <= u.length; i++) {
        const m = R.run(c, u, i);
        if (m) {
            if (gy) re.lastIndex = m.end;
            return m;
        }
        if (re.sticky) break;
        // in unicode mode advance over whole code points
        if (c.U && i + 1 < u.length && branch(T.and(T.inSet(u[i], [[0xd800, 0xdbff]]), T.inSet(u[i + 1], [[0xdc00, 0xdfff]])))) i++;
    }
    if (gy) re.lastIndex = 0;
    return null;
}
function result(re, s, m) {
    const c = compiled(re);
    const u = units(s);
    const r = [mkStr(u.slice(m.start, m.end))];
    for (let i = 1; i <= c.ncap; i++) r.push(m.caps[i] ? mkStr(u.slice(m.caps[i][0], m.caps[i][1])) : undefined);
    r.index = m.start;
    r.input = s;
    r.groups = undefined;
    if (c.names.size) {
        r.groups = Object.create(null);
        for (const [n, i] of c.names) r.groups[n] = r[i];
    }
    if (re.hasIndices) unsupported('regex d flag');
    return r;
}
const isRe = x => x instanceof RegExp;
model(RegExp.prototype.exec, (self, [x]) => {
    if (!isRe(self)) return NATIVE;
    const s = isSym(x) ? toStr(x) : String(x);
    if (!needModel(self, s)) return NATIVE;
    const m = execRaw(self, s);
    return m ? result(self, s, m) : null;
});
model(RegExp.prototype.test, (self, [x]) => {
    if (!isRe(self)) return NATIVE;
    const s = isSym(x) ? toStr(x) : x;
    if (typeof s !== 'string' && !isSym(s)) {
        if (!regexSource.has(self)) return NATIVE;
        return execRaw(self, toStr(s)) !== null;
    }
    if (!needModel(self, s)) return NATIVE;
    const c = compiled(self);
    if (!self.global && !self.sticky && !c.U && R.formulable(c.ast)) return mkBool(R.testFormula(c, units(s)));
    return execRaw(self, s) !== null;
});
model(RegExp.prototype.toString, self => {
    if (!isRe(self) || !regexSource.has(self)) return NATIVE;
    return rt.concat(rt.concat('/', regexSource.get(self)), '/' + self.flags);
});
const advance = (c, s, i) => {
    const u = units(s);
    if (c.U && i + 1 < u.length && branch(T.and(T.inSet(u[i], [[0xd800, 0xdbff]]), T.inSet(u[i + 1], [[0xdc00, 0xdfff]])))) return i + 2;
    return i + 1;
};
function allMatches(re, s) {
    // global matching as String.prototype.match / replace do it
    const c = compiled(re);
    re.lastIndex = 0;
    const out = [];
    for (;;) {
        const m = execRaw(re, s);
        if (!m) break;
        out.push(m);
        if (m.end === m.start) re.lastIndex = advance(c, s, re.lastIndex);
    }
    return out;
}
const symArgs = (s, re) => isSym(s) || isSym(re) || (isRe(re) && regexSource.has(re));
model(P.match, (self, [re]) => {
    if (!symArgs(self, re)) return NATIVE;
    const s = thisStr(self, 'match');
    if (!isRe(re)) re = re === undefined ? /(?:)/ : rt.newRegExp(toStr(re), '');
    if (!re.global) {
        const m = execRaw(re, s);
        return m ? result(re, s, m) : null;
    }
    const ms = allMatches(re, s);
    const u = units(s);
    return ms.length ? ms.map(m => mkStr(u.slice(m.start, m.end))) : null;
});
model(P.matchAll, (self, [re]) => {
    if (!symArgs(self, re)) return NATIVE;
    const s = thisStr(self, 'matchAll');
    if (!isRe(re)) re = rt.newRegExp(toStr(re), 'g');
    if (!re.global) throw new TypeError('String.prototype.matchAll called with a non-global RegExp argument');
    const save = re.lastIndex;
    // works on a clone starting at lastIndex
    const c = compiled(re);
    const out = [];
    for (;;) {
        const m = execRaw(re, s);
        if (!m) break;
        out.push(result(re, s, m));
        if (m.end === m.start) re.lastIndex = advance(c, s, re.lastIndex);
    }
    re.lastIndex = save;
    return out[Symbol.iterator]();
});
model(P.search, (self, [re]) => {
    if (!symArgs(self, re)) return NATIVE;
    const s = thisStr(self, 'search');
    if (!isRe(re)) re = rt.newRegExp(toStr(re), '');
    const save = re.lastIndex;
    re.lastIndex = 0;
    const m = execRaw(re, s);
    re.lastIndex = save;
    return m ? m.start : -1;
});
// GetSubstitution
function substitute(tpl, u, start, end, caps, names) {
    if (isSym(tpl)) {
        const t = units(tpl);
        if (branch(T.and(...t.map(c => T.not(T.eq(c, 36)))))) return t;
        tpl = mkStr(t.map(c => (branch(T.eq(c, 36)) ? 36 : c)));
        if (isSym(tpl)) {
            // interpret with symbolic followers
            const out = [];
            const tu = units(tpl);
            for (let i = 0; i < tu.length; i++) {
                if (tu[i] !== 36 || i + 1 >= tu.length) {
                    out.push(tu[i]);
                    continue;
                }
                const n = tu[i + 1];
                const is = ch => branch(T.eq(n, ch.charCodeAt(0)));
                if (is('$')) out.push(36), i++;
                else if (is('&')) out.push(...u.slice(start, end)), i++;
                else if (is('`')) out.push(...u.slice(0, start)), i++;
                else if (is("'")) out.push(...u.slice(end)), i++;
                else if (caps.length > 1 && branch(T.inSet(n, [[48, 57]]))) return unsupported('symbolic capture reference');
                else if (names && is('<')) return unsupported('symbolic named reference');
                else out.push(36);
            }
            return out;
        }
    }
    const out = [];
    for (let i = 0; i < tpl.length; i++) {
        const ch = tpl[i];
        const nx = tpl[i + 1];
        if (ch !== '$' || nx === undefined) {
            out.push(tpl.charCodeAt(i));
            continue;
        }
        if (nx === '$') out.push(36), i++;
        else if (nx === '&') out.push(...u.slice(start, end)), i++;
        else if (nx === '`') out.push(...u.slice(0, start)), i++;
        else if (nx === "'") out.push(...u.slice(end)), i++;
        else if (/\d/.test(nx)) {
            const m = caps.length - 1;
            let d = Number(nx);
            let len = 1;
            const n2 = tpl[i + 2];
            if (n2 !== undefined && /\d/.test(n2) && d * 10 + Number(n2) >= 1 && d * 10 + Number(n2) <= m) {
                d = d * 10 + Number(n2);
                len = 2;
            }
            if (d >= 1 && d <= m) {
                const c = caps[d];
                if (c) out.push(...u.slice(c[0], c[1]));
                i += len;
            } else out.push(36);
        } else if (nx === '<' && names) {
            const e = tpl.indexOf('>', i);
            if (e < 0) out.push(36);
            else {
                const c = caps[names.get(tpl.slice(i + 2, e))];
                if (c) out.push(...u.slice(c[0], c[1]));
                i = e;
            }
        } else out.push(36);
    }
    return out;
}
function replaceWith(s, ms, rep, re) {
    const u = units(s);
    const out = [];
    let at = 0;
    const c = re && compiled(re);
    for (const m of ms) {
        let r;
        const ncap = c ? c.ncap : 0;
        const caps = [[m.start, m.end]];
        for (let i = 1; i <= ncap; i++) caps.push(m.caps[i]);
        if (typeof rep === 'function') {
            const args = caps.map(x => (x ? mkStr(u.slice(x[0], x[1])) : undefined));
            args.push(m.start, s);
            if (c && c.names.size) {
                const g = Object.create(null);
                for (const [n, i] of c.names) g[n] = args[i];
                args.push(g);
            }
            r = units(toStr(rt.invoke(rep, undefined, args)));
        } else r = substitute(rep, u, m.start, m.end, caps, c && c.names.size ? c.names : null);
        if (m.start >= at) {
            out.push(...u.slice(at, m.start), ...r);
            at = m.end;
        }
    }
    out.push(...u.slice(at));
    return mkStr(out);
}
const replaceModel = all => (self, [re, rep]) => {
    const fn = typeof rep === 'function';
    if (!symArgs(self, re) && !isSym(rep) && !(fn && !rt.isNative(rep))) return NATIVE;
    if (!isRe(re) && re !== null && typeof re === 'object' && !isSym(re)) return NATIVE;
    const s = thisStr(self, 'replace');
    if (!fn) rep = toStr(rep);
    if (isRe(re)) {
        if (all && !re.global) throw new TypeError('replaceAll must be called with a global RegExp');
        if (re.global) return replaceWith(s, allMatches(re, s), rep, re);
        const m = execRaw(re, s);
        return m ? replaceWith(s, [m], rep, re) : s;
    }
    const x = toStr(re);
    const ms = [];
    let i = indexOf(s, x, 0);
    while (i >= 0) {
        ms.push({ start: i, end: i + x.length, caps: [] });
        if (!all) break;
        const nx = i + Math.max(1, x.length);
        i = nx > s.length ? -1 : indexOf(s, x, nx);
    }
    return ms.length ? replaceWith(s, ms, rep, null) : s;
};
model(P.replace, replaceModel(false));
model(P.replaceAll, replaceModel(true));
model(P.split, (self, [sep, lim]) => {
    if (!symArgs(self, sep) && !isSym(lim)) return NATIVE;
    const s = thisStr(self, 'split');
    const limit = lim === undefined ? 2 ** 32 - 1 : argInt(lim, 0, 2 ** 31, 0);
    const u = units(s);
    if (limit === 0) return [];
    const out = [];
    if (isRe(sep)) {
        const c = compiled(sep);
        if (u.length === 0) return R.run(c, u, 0) ? [] : [s];
        let p = 0;
        let q = 0;
        while (q < u.length) {
            const m = R.run(c, u, q);
            if (!m || m.end === p) {
                q = advance(c, s, q);
                continue;
            }
            out.push(mkStr(u.slice(p, q)));
            if (out.length === limit) return out;
            p = m.end;
            for (let i = 1; i <= c.ncap; i++) {
                out.push(m.caps[i] ? mkStr(u.slice(m.caps[i][0], m.caps[i][1])) : undefined);
                if (out.length === limit) return out;
            }
            q = p;
        }
        out.push(mkStr(u.slice(p)));
        return out;
    }
    if (sep === undefined) return [s];
    const x = toStr(sep);
    if (x.length === 0) return u.slice(0, limit).map(c => mkStr([c]));
    let at = 0;
    for (;;) {
        const i = indexOf(s, x, at);
        if (i < 0) break;
        out.push(mkStr(u.slice(at, i)));
        if (out.length >= limit) return out;
        at = i + x.length;
    }
    out.push(mkStr(u.slice(at)));
    return out;
});
void SymBool;
void SymStr;
void isStr;
