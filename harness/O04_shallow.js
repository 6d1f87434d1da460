'use strict';
exports.bounds = ['pairs of objects or lists with up to 2 (thorough 3) of three names each (present, hidden, inherited, absent), values any double (NaN, both zeros, infinities), any text of up to 2 characters (one each where there are two), the same or equal-looking objects; any answer of a given comparison'];
exports.outside = ['getters that fail'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 2 : 3); n++) for (const kind of ['num', 'text', 'ref']) if (n || kind === 'num') out.push({ name: kind + n, params: { what: 'own', n, kind } });
    for (let n = 0; n <= (q ? 2 : 3); n++) out.push({ name: 'list' + n, params: { what: 'list', n } });
    for (let n = 0; n <= 2; n++) out.push({ name: 'compare' + n, params: { what: 'compare', n } });
    out.push({ name: 'other', params: { what: 'other' } });
    return out;
};
exports.mustReach = () => ['equal', 'differ'];
const NAMES = ['a', 'b', '1'];
exports.run = (V, { what, n, kind }) => {
    const f = V.load('object').shallowEqual;
    const same = (x, y) => Object.is(x, y);
    const refs = [{ p: 1 }, { p: 1 }];
    const value = name => (kind === 'num' ? V.fp(name) : kind === 'text' ? V.strUpTo(name, 0, n > 1 ? 1 : 2, [[97, 98]]) : refs[V.choice(name, [0, 1])]);
    if (what === 'own') {
        const side = w => {
            const proto = {};
            const o = Object.create(proto);
            const st = {};
            const val = {};
            for (const k of w === 'y' ? NAMES.slice(0, n).reverse() : NAMES.slice(0, n)) {
                const s = V.choice(w + 's' + k, ['seen', 'hidden', 'inherited', 'absent']);
                st[k] = s;
                if (s === 'absent') continue;
                val[k] = value(w + kind + k);
                if (s === 'inherited') proto[k] = val[k];
                else Object.defineProperty(o, k, { value: val[k], enumerable: s === 'seen' });
            }
            return { o, st, val };
        };
        const x = side('x');
        const y = side('y');
        const kx = NAMES.filter(k => x.st[k] === 'seen');
        const ky = NAMES.filter(k => y.st[k] === 'seen');
        const r = f(x.o, y.o);
        V.observe(r);
        V.cover(V.truth(r) ? 'equal' : 'differ');
        // hidden own properties of the second object count as present
        const loose = kx.length === ky.length && kx.every(k => y.st[k] === 'seen' || y.st[k] === 'hidden');
        const vals = loose ? V.and(true, ...kx.map(k => same(x.val[k], y.val[k]))) : false;
        if (kx.length === ky.length && kx.every(k => y.st[k] === 'seen')) V.check(V.eq(r, vals), 'equal exactly when every value is the same');
        else if (!loose) V.check(V.is(r, false), 'different names are different');
        V.check(V.is(f(x.o, x.o), true), 'an object equals itself');
        return;
    }
    if (what === 'list') {
        const m = V.size('m', 0, n);
        const x = V.array(n, i => V.fp('x' + i));
        const y = V.array(m, i => V.fp('y' + i));
        const r = f(x, y);
        V.observe(r);
        V.check(V.eq(r, n === m ? V.and(true, ...x.map((v, i) => same(v, y[i]))) : false), 'equal exactly when the items are the same');
        return;
    }
    if (what === 'compare') {
        const x = {};
        const y = {};
        for (let i = 0; i < n; i++) (x[NAMES[i]] = V.int('x' + i, 0, 9)), (y[NAMES[n - 1 - i]] = V.int('y' + (n - 1 - i), 0, 9));
        const whole = V.bool('whole');
        const ans = V.array(n, i => V.bool('ans' + i));
        const calls = [];
        const ok = [];
        const r = f(x, y, (p, q, k) => {
            if (!calls.length) {
                calls.push('whole');
                ok.push(p === x && q === y && k === undefined);
                return whole;
            }
            calls.push(k);
            ok.push(V.and(V.is(p, x[k]), V.is(q, y[k])));
            return ans[NAMES.indexOf(k)];
        });
        V.observe(r);
        V.check(V.and(...ok), 'the comparison sees the pair, and the name');
        V.check(V.eq(r, V.or(whole, V.and(true, ...ans))), 'the comparison decides');
        V.check(new Set(calls).size === calls.length, 'no pair is compared twice');
        return;
    }
    const vals = [null, undefined, V.fp('n'), V.strUpTo('s', 0, 2, [[97, 98]]), true, () => 1, {}];
    const i = V.size('i', 0, vals.length - 1);
    const j = V.size('j', 0, vals.length - 1);
    const r = f(vals[i], vals[j]);
    V.observe(r);
    V.check(V.eq(r, i === j ? true : false), 'what is no object equals only the same value');
    if (i === j && i === 2) {
        const z = V.fp('z');
        V.check(V.eq(f(vals[2], z), same(vals[2], z)), 'numbers by identity');
    }
};
