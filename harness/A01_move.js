'use strict';
exports.bounds = ['arrays of 0..6 distinct-or-equal integers; from/to any integer in [-1000000, 1000000]'];
exports.outside = ['fractional or non-numeric positions'];
exports.cases = tier => Array.from({ length: tier === 'quick' ? 7 : 9 }, (_, n) => ({ name: 'n' + n, params: { n } }));
exports.run = (V, { n }) => {
    const { move } = V.load('array');
    const a = V.array(n, i => V.int('a' + i, -50, 50));
    const from = V.int('from', -1000000, 1000000);
    const to = V.int('to', -1000000, 1000000);
    const b = a.slice();
    const r = V.attempt(() => move(b, from, to));
    const f = V.ite(from < 0, from + n, from);
    const t = V.ite(to < 0, to + n, to);
    V.check(V.iff(V.and(f >= 0, f < n, t >= 0, t < n), r.ok), 'a move is accepted exactly when both positions are inside the array');
    V.observe(r.ok ? r.value : r.error);
    if (!r.ok) {
        V.check(r.error instanceof RangeError, 'a refused move throws a RangeError');
        V.check(V.eq(b, a), 'a refused move leaves the array as it was');
        return;
    }
    V.check(r.value === b, 'the array itself is returned');
    V.check(b.length === n, 'a move keeps the length');
    const rest = a.filter((_, i) => i !== f);
    for (let i = 0, j = 0; i < n; i++) {
        const want = i === t ? a[f] : rest[j++];
        V.check(b[i] === want, 'the moved element is at its target and the others keep their order');
    }
};
