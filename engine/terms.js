'use strict';
// Hash-consed SMT terms. Integers are kept in linear normal form over atoms,
// constraints over one atom are kept as range sets, so that most syntactic
// simplifications happen here; everything prints as SMT-LIB2.

let nextId = 1;
let table = new Map();

class Term {
    constructor(s, k) {
        this.s = s; // sort: I (Int) | B (Bool) | F (Float64)
        this.k = k; // kind
        this.id = nextId++;
        this._smt = null;
    }
}
const isT = x => x instanceof Term;

function mk(key, s, k, fields) {
    let t = table.get(key);
    if (!t) {
        t = new Term(s, k);
        Object.assign(t, fields);
        table.set(key, t);
    }
    return t;
}

const INF = Infinity;

/* ---------------------------------------------------------------- atoms */
function intVar(name, lo = -INF, hi = INF) {
    const t = atomTerm(`v:${name}`, { ak: 'var', name, lo, hi });
    if (t.lo !== lo || t.hi !== hi) throw new Error(`harness: input ${name} declared with two ranges`);
    return t;
}
function initAtom(key, a) {
    const t = table.get(key);
    t.c = 0;
    t.atom = { ...a, id: t.id };
    t.atom.self = t;
    t.m = [[t.atom, 1]];
    t.lo = a.lo;
    t.hi = a.hi;
    return t;
}
function atomTerm(key, a) {
    const t = mk(key, 'I', 'lin', {});
    return t.m ? t : initAtom(key, a);
}

/* ------------------------------------------------------------ linear ints */
function lin(c, m) {
    if (m.length === 0) return c;
    const key = 'l:' + c + ':' + m.map(([a, k]) => a.id + '*' + k).join(',');
    if (c === 0 && m.length === 1 && m[0][1] === 1) return m[0][0].self;
    let t = table.get(key);
    if (t) return t;
    let lo = c;
    let hi = c;
    for (const [a, k] of m) {
        if (k > 0) {
            lo += k * a.lo;
            hi += k * a.hi;
        } else {
            lo += k * a.hi;
            hi += k * a.lo;
        }
    }
    return mk(key, 'I', 'lin', { c, m, lo, hi });
}
const parts = t => (isT(t) ? t : { c: t, m: [] });

function combine(x, kx, y, ky) {
    x = parts(x);
    y = parts(y);
    const c = x.c * kx + y.c * ky;
    const out = [];
    let i = 0;
    let j = 0;
    const a = x.m;
    const b = y.m;
    while (i < a.length || j < b.length) {
        if (j >= b.length || (i < a.length && a[i][0].id < b[j][0].id)) {
            if (kx) out.push([a[i][0], a[i][1] * kx]);
            i++;
        } else if (i >= a.length || b[j][0].id < a[i][0].id) {
            if (ky) out.push([b[j][0], b[j][1] * ky]);
            j++;
        } else {
            const k = a[i][1] * kx + b[j][1] * ky;
            if (k !== 0) out.push([a[i][0], k]);
            i++;
            j++;
        }
    }
    return lin(c, out);
}
const add = (x, y) => (!isT(x) && !isT(y) ? x + y : combine(x, 1, y, 1));
const sub = (x, y) => (!isT(x) && !isT(y) ? x - y : combine(x, 1, y, -1));
const scale = (x, k) => (!isT(x) ? x * k : k === 0 ? 0 : combine(x, k, 0, 0));
const neg = x => scale(x, -1);
const lo = x => (isT(x) ? x.lo : x);
const hi = x => (isT(x) ? x.hi : x);

const fdiv = (a, n) => Math.floor(a / n);
const fmod = (a, n) => a - n * Math.floor(a / n);

// floor division / modulo by a positive constant
function idiv(x, n) {
    if (!isT(x)) return fdiv(x, n);
    if (n === 1) return x;
    // split off the part divisible by n
    const q = [];
    const r = [];
    for (const [a, k] of x.m) (k % n === 0 ? q : r).push([a, k]);
    const cq = fdiv(x.c, n);
    const cr = fmod(x.c, n);
    const quo = lin(cq, q.map(([a, k]) => [a, k / n]));
    const rest = lin(cr, r);
    if (!isT(rest)) return quo;
    const l = fdiv(rest.lo, n);
    const h = fdiv(rest.hi, n);
    if (l === h) return add(quo, l);
    return add(quo, atomTerm(`d:${rest.id}:${n}`, { ak: 'div', x: rest, n, lo: l, hi: h }));
}
function imod(x, n) {
    if (!isT(x)) return fmod(x, n);
    if (n === 1) return 0;
    const m = x.m.map(([a, k]) => [a, fmod(k, n)]).filter(e => e[1] !== 0);
    const rest = lin(fmod(x.c, n), m);
    if (!isT(rest)) return fmod(rest, n);
    const l = fdiv(rest.lo, n);
    const h = fdiv(rest.hi, n);
    if (l === h) return sub(rest, l * n);
    return atomTerm(`m:${rest.id}:${n}`, { ak: 'mod', x: rest, n, lo: 0, hi: n - 1 });
}
function imul(x, y) {
    if (!isT(x)) return scale(y, x);
    if (!isT(y)) return scale(x, y);
    if (x.id > y.id) [x, y] = [y, x];
    const ps = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi].map(v => (v !== v ? 0 : v));
    return atomTerm(`x:${x.id}:${y.id}`, { ak: 'mul', x, y, lo: Math.min(...ps), hi: Math.max(...ps) });
}
function iite(c, x, y) {
    if (c === true) return x;
    if (c === false) return y;
    if (x === y) return x;
    return atomTerm(`i:${c.id}:${isT(x) ? 't' + x.id : x}:${isT(y) ? 't' + y.id : y}`, {
        ak: 'ite',
        b: c,
        x,
        y,
        lo: Math.min(lo(x), lo(y)),
        hi: Math.max(hi(x), hi(y))
    });
}

/* ----------------------------------------------------------- range sets */
function normRanges(rs) {
    const s = rs.filter(r => r[0] <= r[1]).sort((a, b) => a[0] - b[0]);
    const out = [];
    for (const r of s) {
        const l = out[out.length - 1];
        if (l && r[0] <= l[1] + 1) {
            if (r[1] > l[1]) l[1] = r[1];
        } else out.push([r[0], r[1]]);
    }
    return out;
}
function interRanges(a, b) {
    const out = [];
    let i = 0;
    let j = 0;
    while (i < a.length && j < b.length) {
        const l = Math.max(a[i][0], b[j][0]);
        const h = Math.min(a[i][1], b[j][1]);
        if (l <= h) out.push([l, h]);
        if (a[i][1] < b[j][1]) i++;
        else j++;
    }
    return out;
}
function complRanges(rs, l, h) {
    const out = [];
    let at = l;
    for (const r of rs) {
        if (r[0] > at) out.push([at, r[0] - 1]);
        at = r[1] + 1;
    }
    if (at <= h) out.push([at, h]);
    return out.filter(r => r[0] <= r[1]);
}
const sameRanges = (a, b) =>
    a.length === b.length && a.every((r, i) => r[0] === b[i][0] && r[1] === b[i][1]);
const inRangesC = (v, rs) => rs.some(r => v >= r[0] && v <= r[1]);

/* ---------------------------------------------------------------- bools */
function inAtom(a, ranges) {
    const rs = interRanges(normRanges(ranges), [[a.lo, a.hi]]);
    if (rs.length === 0) return false;
    if (rs.length === 1 && rs[0][0] === a.lo && rs[0][1] === a.hi) return true;
    return mk(`n:${a.id}:${rs.join(';')}`, 'B', 'in', { a, rs });
}
// membership of an int term in constant ranges
function inSet(x, ranges) {
    if (!isT(x)) return inRangesC(x, ranges);
    if (x.m.length === 1 && Math.abs(x.m[0][1]) === 1) {
        const [a, k] = x.m[0];
        const c = x.c;
        return inAtom(
            a,
            ranges.map(r => (k === 1 ? [r[0] - c, r[1] - c] : [c - r[1], c - r[0]]))
        );
    }
    return or(...ranges.map(r => and(le(r[0], x), le(x, r[1]))));
}
function le0(t) {
    if (!isT(t)) return t <= 0;
    if (t.hi <= 0) return true;
    if (t.lo > 0) return false;
    if (t.m.length === 1) {
        const [a, k] = t.m[0];
        // k*a + c <= 0
        return k > 0
            ? inAtom(a, [[-INF, Math.floor(-t.c / k)]])
            : inAtom(a, [[Math.ceil(-t.c / k), INF]]);
    }
    return mk(`le:${t.id}`, 'B', 'le', { t });
}
const le = (x, y) => le0(sub(x, y));
const lt = (x, y) => le0(add(sub(x, y), 1));
function eq0(t) {
    if (!isT(t)) return t === 0;
    if (t.lo > 0 || t.hi < 0) return false;
    if (t.m.length === 1) {
        const [a, k] = t.m[0];
        const v = -t.c / k;
        return Number.isInteger(v) ? inAtom(a, [[v, v]]) : false;
    }
    if (t.m[0][1] < 0) t = neg(t);
    return mk(`eq:${t.id}`, 'B', 'eq', { t });
}
const eq = (x, y) => (isT(x) || isT(y) ? eq0(sub(x, y)) : x === y);
function boolVar(name) {
    return mk(`b:${name}`, 'B', 'bvar', { name });
}
function not(b) {
    if (b === true) return false;
    if (b === false) return true;
    if (b.k === 'not') return b.x;
    if (b.k === 'in') return inAtom(b.a, complRanges(b.rs, b.a.lo, b.a.hi));
    if (b.k === 'le') return le0(add(neg(b.t), 1));
    if (b.k === 'and') return or(...b.xs.map(not));
    if (b.k === 'or') return and(...b.xs.map(not));
    return mk(`!:${b.id}`, 'B', 'not', { x: b });
}
function nary(kind, xs) {
    const unit = kind === 'and';
    const out = new Map();
    const ins = new Map();
    const stack = xs.slice().reverse();
    while (stack.length) {
        const x = stack.pop();
        if (x === unit) continue;
        if (x === !unit) return !unit;
        if (x.k === kind) {
            for (let i = x.xs.length - 1; i >= 0; i--) stack.push(x.xs[i]);
            continue;
        }
        if (x.k === 'in') {
            const p = ins.get(x.a.id);
            const rs = p
                ? unit
                    ? interRanges(p.rs, x.rs)
                    : normRanges(p.rs.concat(x.rs).map(r => r.slice()))
                : x.rs;
            ins.set(x.a.id, { a: x.a, rs });
            continue;
        }
        if (out.has(not(x).id)) return !unit;
        out.set(x.id, x);
    }
    const list = [...out.values()];
    for (const { a, rs } of ins.values()) {
        const t = inAtom(a, rs);
        if (t === unit) continue;
        if (t === !unit) return !unit;
        list.push(t);
    }
    if (list.length === 0) return unit;
    if (list.length === 1) return list[0];
    list.sort((a, b) => a.id - b.id);
    return mk(`${kind}:${list.map(x => x.id).join(',')}`, 'B', kind, { xs: list });
}
const and = (...xs) => nary('and', xs);
const or = (...xs) => nary('or', xs);
const iff = (a, b) => {
    if (a === true) return b;
    if (b === true) return a;
    if (a === false) return not(b);
    if (b === false) return not(a);
    if (a === b) return true;
    return or(and(a, b), and(not(a), not(b)));
};

/* ------------------------------------------------------------- floats */
function fpVar(name) {
    return mk(`f:${name}`, 'F', 'fvar', { name });
}
const fkey = x => (isT(x) ? 't' + x.id : Object.is(x, -0) ? '-0' : String(x));
function fop(op, ...xs) {
    return mk(`F${op}:${xs.map(fkey).join(',')}`, 'F', 'fop', { op, xs });
}
const pow2 = c => c >= 1 && c <= 2 ** 52 && Number.isInteger(Math.log2(c));
function fpred(op, ...xs) {
    // a remainder compared with a constant: a question about the bits of the number
    if (op === 'eq' && isT(xs[0]) && !isT(xs[1])) {
        let x = xs[0];
        let c = xs[1];
        if (x.k === 'fop' && x.op === 'abs') {
            if (c < 0) return false;
            x = x.xs[0];
            if (c === 1 && x.k === 'fop' && x.op === 'mod' && x.xs[1] === 2) return and(fpred('mult', x.xs[0], 1), not(fpred('mult', x.xs[0], 2)));
        }
        if (c === 0 && x.k === 'fop' && x.op === 'mod' && pow2(x.xs[1])) return fpred('mult', x.xs[0], x.xs[1]);
    }
    if (op === 'eq' && isT(xs[1]) && !isT(xs[0])) return fpred('eq', xs[1], xs[0]);
    return mk(`P${op}:${xs.map(fkey).join(',')}`, 'B', 'fpred', { op, xs });
}
function f2bits(x) {
    const b = Buffer.alloc(8);
    b.writeDoubleBE(x);
    return b.toString('hex');
}
function fsmt(x) {
    if (isT(x)) return smt(x);
    if (x !== x) return '(_ NaN 11 53)';
    const h = f2bits(x);
    return `((_ to_fp 11 53) #x${h})`;
}

/* -------------------------------------------------------------- printing */
const num = n => (n < 0 ? `(- ${String(BigInt(-n))})` : String(BigInt(n)));
function atomSmt(a) {
    switch (a.ak) {
        case 'var':
            return a.name;
        case 'div':
            return `(div ${ref(a.x)} ${num(a.n)})`;
        case 'mod':
            return `(mod ${ref(a.x)} ${num(a.n)})`;
        case 'mul':
            return `(* ${ref(a.x)} ${ref(a.y)})`;
        case 'ite':
            return `(ite ${ref(a.b)} ${isT(a.x) ? ref(a.x) : num(a.x)} ${isT(a.y) ? ref(a.y) : num(a.y)})`;
    }
    throw new Error('atom ' + a.ak);
}
// Names: non-variable atoms and big nodes are introduced with define-fun.
let defSink = null; // set by the solver while printing
function ref(t) {
    if (t === true) return 'true';
    if (t === false) return 'false';
    if (!isT(t)) return num(t);
    return smt(t);
}
function atomRef(a) {
    if (a.ak === 'var') {
        defSink.var(a.name, 'Int');
        return a.name;
    }
    return defSink.def(`a${a.id}`, 'Int', () => atomSmt(a));
}
function smt(t) {
    switch (t.k) {
        case 'lin': {
            const ps = t.m.map(([a, k]) =>
                k === 1 ? atomRef(a) : `(* ${num(k)} ${atomRef(a)})`
            );
            if (t.c !== 0) ps.push(num(t.c));
            return ps.length === 1 ? ps[0] : `(+ ${ps.join(' ')})`;
        }
        case 'in': {
            const n = atomRef(t.a);
            const one = r =>
                r[0] === r[1]
                    ? `(= ${n} ${num(r[0])})`
                    : r[0] <= t.a.lo
                      ? `(<= ${n} ${num(r[1])})`
                      : r[1] >= t.a.hi
                        ? `(<= ${num(r[0])} ${n})`
                        : `(and (<= ${num(r[0])} ${n}) (<= ${n} ${num(r[1])}))`;
            const ps = t.rs.map(one);
            const e = ps.length === 1 ? ps[0] : `(or ${ps.join(' ')})`;
            return ps.length > 3 ? defSink.def(`n${t.id}`, 'Bool', () => e) : e;
        }
        case 'le':
            return `(<= ${smt(t.t)} 0)`;
        case 'eq':
            return `(= ${smt(t.t)} 0)`;
        case 'bvar':
            defSink.var(t.name, 'Bool');
            return t.name;
        case 'not':
            return `(not ${ref(t.x)})`;
        case 'and':
        case 'or':
            return defSink.def(`c${t.id}`, 'Bool', () => `(${t.k} ${t.xs.map(ref).join(' ')})`);
        case 'fvar':
            defSink.var(t.name, 'Float64');
            return t.name;
        case 'fop': {
            const a = t.xs.map(fsmt);
            const rnd = { add: 1, sub: 1, mul: 1, div: 1, sqrt: 1 };
            if (rnd[t.op]) return defSink.def(`f${t.id}`, 'Float64', () => `(fp.${t.op} RNE ${a.join(' ')})`);
            if (t.op === 'mod') {
                const r = defSink.def(`f${t.id}r`, 'Float64', () => `(fp.sub RNE ${a[0]} (fp.mul RNE ${a[1]} (fp.roundToIntegral RTZ (fp.mul RNE ${a[0]} ${fsmt(1 / t.xs[1])}))))`);
                return defSink.def(`f${t.id}`, 'Float64', () => `(ite (fp.isZero ${r}) (ite (fp.isNegative ${a[0]}) ${fsmt(-0)} ${fsmt(0)}) ${r})`);
            }
            if (t.op === 'neg' || t.op === 'abs') return `(fp.${t.op} ${a[0]})`;
            const rm = { floor: 'RTN', ceil: 'RTP', trunc: 'RTZ' }[t.op];
            if (rm) return defSink.def(`f${t.id}`, 'Float64', () => `(fp.roundToIntegral ${rm} ${a[0]})`);
            throw new Error('fop ' + t.op);
        }
        case 'fpred': {
            const a = t.xs.map(fsmt);
            if (t.op === 'mult') {
                const k = Math.log2(t.xs[1]);
                if (t.xs[0].k !== 'fvar') {
                    const q = k ? fsmt(fop('mul', t.xs[0], 1 / t.xs[1])) : a[0];
                    return `(and (not (fp.isInfinite ${q})) (fp.eq ${q} (fp.roundToIntegral RTZ ${q})))`;
                }
                const b = t.xs[0].name + '!b';
                const e = `((_ extract 62 52) ${b})`;
                const m = `((_ extract 51 0) ${b})`;
                const bv = n => `(_ bv${n} 11)`;
                return defSink.def(`f${t.id}`, 'Bool', () => `(and (not (= ${e} ${bv(2047)})) (or (= ((_ extract 62 0) ${b}) (_ bv0 63)) (bvuge ${e} ${bv(1075 + k)}) (and (bvuge ${e} ${bv(1023 + k)}) (= (bvshl ${m} (concat (_ bv0 41) (bvsub ${e} ${bv(1023 + k)}))) (_ bv0 52)))))`);
            }
            if (t.op === 'eq') return `(fp.eq ${a.join(' ')})`;
            if (t.op === 'lt') return `(fp.lt ${a.join(' ')})`;
            if (t.op === 'le') return `(fp.leq ${a.join(' ')})`;
            if (t.op === 'nan') return `(fp.isNaN ${a[0]})`;
            if (t.op === 'inf') return `(fp.isInfinite ${a[0]})`;
            if (t.op === 'neg') return `(fp.isNegative ${a[0]})`;
            if (t.op === 'same') return `(= ${a.join(' ')})`;
            throw new Error('fpred ' + t.op);
        }
    }
    throw new Error('smt ' + t.k);
}
const setDefSink = s => (defSink = s);

/* ------------------------------------------------------------ evaluation */
// model: (name, sort, atom) => value
function evaluator(model) {
    const memo = new Map();
    const atomV = a => {
        let v = memo.get(a.id);
        if (v !== undefined) return v;
        switch (a.ak) {
            case 'var':
                v = model(a.name, 'I', a);
                break;
            case 'div':
                v = fdiv(ev(a.x), a.n);
                break;
            case 'mod':
                v = fmod(ev(a.x), a.n);
                break;
            case 'mul':
                v = ev(a.x) * ev(a.y);
                break;
            case 'ite':
                v = ev(a.b) ? ev(a.x) : ev(a.y);
                break;
        }
        memo.set(a.id, v);
        return v;
    };
    const ev = t => {
        if (!isT(t)) return t;
        switch (t.k) {
            case 'lin': {
                let v = t.c;
                for (const [a, k] of t.m) v += k * atomV(a);
                return v;
            }
            case 'in':
                return inRangesC(atomV(t.a), t.rs);
            case 'le':
                return ev(t.t) <= 0;
            case 'eq':
                return ev(t.t) === 0;
            case 'bvar':
                return model(t.name, 'B', t);
            case 'not':
                return !ev(t.x);
            case 'and':
                return t.xs.every(ev);
            case 'or':
                return t.xs.some(ev);
            case 'fvar':
                return model(t.name, 'F', t);
            case 'fop': {
                const x = t.xs.map(ev);
                switch (t.op) {
                    case 'add':
                        return x[0] + x[1];
                    case 'sub':
                        return x[0] - x[1];
                    case 'mul':
                        return x[0] * x[1];
                    case 'div':
                        return x[0] / x[1];
                    case 'mod':
                        return x[0] % x[1];
                    case 'sqrt':
                        return Math.sqrt(x[0]);
                    case 'neg':
                        return -x[0];
                    case 'abs':
                        return Math.abs(x[0]);
                    case 'floor':
                        return Math.floor(x[0]);
                    case 'ceil':
                        return Math.ceil(x[0]);
                    case 'trunc':
                        return Math.trunc(x[0]);
                }
                break;
            }
            case 'fpred': {
                const x = t.xs.map(ev);
                switch (t.op) {
                    case 'eq':
                        return x[0] === x[1];
                    case 'lt':
                        return x[0] < x[1];
                    case 'le':
                        return x[0] <= x[1];
                    case 'mult':
                        return x[0] % x[1] === 0;
                    case 'nan':
                        return x[0] !== x[0];
                    case 'inf':
                        return x[0] === Infinity || x[0] === -Infinity;
                    case 'neg':
                        return x[0] < 0 || Object.is(x[0], -0);
                    case 'same':
                        return Object.is(x[0], x[1]);
                }
            }
        }
        throw new Error('eval ' + t.k);
    };
    return ev;
}
// variables (atoms of kind var, bool vars, float vars) of a term
function vars(t, out = new Map(), seen = new Set()) {
    const atom = a => {
        if (seen.has(a.id)) return;
        seen.add(a.id);
        if (a.ak === 'var') out.set(a.name, a);
        if (a.x) vars(a.x, out, seen);
        if (a.y) vars(a.y, out, seen);
        if (a.b) vars(a.b, out, seen);
    };
    if (!isT(t)) return out;
    if (t.k !== 'lin') {
        if (seen.has(t.id)) return out;
        seen.add(t.id);
    }
    switch (t.k) {
        case 'lin':
            for (const [a] of t.m) atom(a);
            break;
        case 'in':
            atom(t.a);
            break;
        case 'le':
        case 'eq':
            vars(t.t, out, seen);
            break;
        case 'bvar':
        case 'fvar':
            out.set(t.name, t);
            break;
        case 'not':
            vars(t.x, out, seen);
            break;
        case 'and':
        case 'or':
        case 'fop':
        case 'fpred':
            for (const x of t.xs) vars(x, out, seen);
    }
    return out;
}
function reset() {
    table = new Map();
    nextId = 1;
}

module.exports = {
    Term, isT, intVar, add, sub, neg, scale, idiv, imod, imul, iite, lo, hi,
    inSet, inAtom, le, lt, eq, not, and, or, iff, boolVar, fpVar, fop, fpred,
    smt: t => ref(t), setDefSink, evaluator, vars, reset,
    normRanges, interRanges, complRanges, inRangesC, sameRanges
};
