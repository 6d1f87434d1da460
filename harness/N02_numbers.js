'use strict';
const NUMCH = [[48, 50], [43, 43], [45, 46], [32, 32], [120, 120], [101, 101], [73, 73]];
exports.bounds = ['range test: every double for value, start and end, NaN and infinities included, one or two bounds; non-numbers', 'conversion: every double, every integer text in +-10^6, every text of up to 3 characters (thorough 4) over digits, sign, point, blank, x, e, I; null, undefined, booleans, arrays', 'text: every integer in +-10^6, every quarter in +-5, minus zero, NaN and the infinities'];
exports.outside = ['values whose conversion to a number throws (symbols, big integers)', 'decimal text of arbitrary doubles'];
exports.cases = tier => {
    const out = [];
    for (const f of ['toInt', 'toFinite']) {
        for (const k of ['fp', 'int', 'text']) out.push({ name: f + '-' + k, params: { f, k } });
        for (let n = 0; n <= (tier === 'quick' ? 3 : 4); n++) out.push({ name: f + '-any' + n, params: { f, k: 'any', n } });
    }
    for (const k of ['one', 'two', 'type']) out.push({ name: 'inRange-' + k, params: { f: 'inRange', k } });
    for (const k of ['int', 'quarter', 'special']) out.push({ name: 'text-' + k, params: { f: 'text', k } });
    out.push({ name: 'toFinite-other', params: { f: 'toFinite', k: 'other' } });
    return out;
};
exports.run = (V, { f, k, n }) => {
    const lib = V.load('number');
    const num = x => !V.truth(x !== x);
    if (f === 'inRange') {
        if (k === 'type') {
            const bad = V.choice('bad', [undefined, null, '1', true, [], {}, NaN]);
            const at = V.size('at', 0, 2);
            const a = [V.fp('a'), V.fp('b'), V.fp('c')];
            a[at] = bad;
            V.assume(at !== 2 || bad !== undefined);
            const r = V.attempt(() => lib.inRange(...a));
            V.check(!r.ok && r.error instanceof TypeError, 'anything but numbers is refused');
            return;
        }
        const v = V.fp('v');
        const s = V.fp('s');
        const e = k === 'two' ? V.fp('e') : 0;
        const r = V.attempt(() => (k === 'two' ? lib.inRange(v, s, e) : lib.inRange(v, s)));
        const ok = num(v) && num(s) && num(e);
        V.observe(r.ok ? r.value : r.error);
        V.check(r.ok === ok, 'refused exactly when something is not a number');
        if (!ok) V.check(r.error instanceof TypeError, 'a refusal is a type error');
        else V.check(V.iff(r.value, V.or(V.and(v >= s, v <= e), V.and(v >= e, v <= s))), 'in range exactly between the bounds, inclusive, in either order');
        return;
    }
    if (f === 'text') {
        if (k === 'special') {
            for (const [x, t] of [[0, '0'], [-0, '-0'], [NaN, 'NaN'], [Infinity, 'Infinity'], [-Infinity, '-Infinity'], [1e21, '1e+21'], [5e-324, '5e-324']]) V.check(lib.stringify(x) === t, 'text of ' + t);
            return;
        }
        const x = k === 'int' ? V.int('x', -1e6, 1e6) : V.int('q', -20, 20);
        if (k === 'int') {
            const t = lib.stringify(x);
            V.observe(t);
            V.check(Number(t) === x, 'the text reads back as the number');
            V.check(V.implies(x === 0, t === '0'), 'zero');
        } else {
            const t = lib.stringify(x / 4);
            V.check(Number(t) === V.concrete(x) / 4, 'the text reads back as the number');
        }
        return;
    }
    let value;
    let want;
    if (k === 'fp') value = want = V.fp('x');
    if (k === 'int') value = want = V.int('x', -1e6, 1e6);
    if (k === 'text') {
        want = V.int('x', -1e6, 1e6);
        value = `${want}`;
        if (V.choice('pad', [false, true])) value = ' ' + value + '\n';
    }
    if (k === 'any') {
        value = V.str('t', n, NUMCH);
        want = Number(value);
    }
    if (k === 'other') {
        const [v, w] = V.choice('v', [[null, 0], [undefined, NaN], [true, 1], [[], 0], [['7'], 7], [[1, 2], NaN], [{}, NaN], [new Date(5), 5]]);
        value = v;
        want = w;
    }
    if (f === 'toInt') {
        const r = V.attempt(() => lib.toInt(value));
        V.observe(r.ok ? r.value : r.error);
        let ok = num(want) && V.truth(V.and(want < Infinity, want > -Infinity));
        if (k === 'any' && !value.trim().length) ok = false;
        V.check(r.ok === ok, 'refused exactly for blank texts and what is not a finite number');
        if (!ok) V.check(r.error instanceof TypeError, 'a refusal is a type error');
        else {
            V.check(r.value === Math.floor(want), 'the largest integer that is not larger');
        }
    } else {
        const dflt = V.choice('d', [0, -7, NaN]);
        const r = lib.toFiniteNumber(value, dflt);
        V.observe(r);
        if (num(want) && V.truth(V.and(want < Infinity, want > -Infinity))) V.check(r === want, 'the number');
        else V.check(Object.is(r, dflt), 'the default');
    }
};
