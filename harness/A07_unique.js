'use strict';
exports.bounds = ['up to 4 values (thorough 5): integers, strings of one arbitrary UTF-16 unit, doubles (including NaN and both zeros), booleans, null and undefined, spread over any nesting of one level; lists of 7 numbers with one other value in two places'];
exports.outside = ['symbols and bigints'];
exports.cases = tier => {
    const out = [];
    const N = tier === 'quick' ? 4 : 5;
    for (let n = 0; n <= N; n++) for (const kind of ['int', 'str']) out.push({ name: `${kind}${n}`, params: { n, kind } });
    for (let n = 0; n <= 3; n++) for (const kind of ['fp', 'mixed']) out.push({ name: `${kind}${n}`, params: { n, kind } });
    for (let p = 0; p < 7; p++) out.push({ name: `long${p}`, params: { n: 7, kind: 'long', p } });
    return out;
};
exports.run = (V, { n, kind, p }) => {
    const { isUnique, uniqueFromPrimitive } = V.load('array');
    const mk = i => {
        const k = kind === 'mixed' ? V.choice('k' + i, ['int', 'str', 'bool', 'null', 'undef']) : kind;
        if (k === 'int') return V.int('i' + i, 0, 9);
        if (k === 'str') return V.str('s' + i, 1);
        if (k === 'fp') return V.fp('f' + i);
        if (k === 'bool') return V.bool('b' + i);
        return k === 'null' ? null : undefined;
    };
    // longer lists: one value, perhaps twice, between numbers
    const special = kind === 'long' ? V.choice('special', [NaN, 0, -0, undefined, null, '', false, 'x']) : 0;
    const again = kind === 'long' ? V.size('again', 0, n - 1) : 0;
    const a = V.array(n, kind === 'long' ? i => (i === p || i === again ? special : i === 5 ? V.int('i5', 0, 7) : i + 1) : mk);
    // SameValueZero
    const same = (x, y) => V.or(x === y, V.and(x !== x, y !== y));
    let dup = false;
    for (let i = 0; i < n; i++) for (let j = 0; j < i; j++) dup = V.or(dup, same(a[i], a[j]));
    const u = isUnique(a.slice());
    V.observe(u);
    V.check(V.iff(u, V.not(dup)), 'unique exactly when no two elements are the same value');
    // group the values into arguments: singles and arrays
    const args = [];
    let cur = null;
    for (let i = 0; i < n; i++) {
        const g = kind === 'int' || kind === 'mixed' ? V.size('g' + i, 0, 1) : 1;
        if (g === 0) {
            args.push(a[i]);
            cur = null;
        } else if (cur) cur.push(a[i]);
        else {
            cur = [a[i]];
            args.push(cur);
        }
    }
    const r = uniqueFromPrimitive(...args);
    const want = [];
    for (const x of a) if (!want.some(y => V.truth(same(x, y)))) want.push(x);
    V.observe(r);
    V.check(r.length === want.length, 'one element per distinct value');
    for (let i = 0; i < want.length; i++) V.check(same(r[i], want[i]), 'first occurrences are kept in order');
};
