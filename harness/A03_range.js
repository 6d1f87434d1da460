'use strict';
exports.bounds = ['array range: integer from and to in [-12, 12] (thorough 40), integer step in [-30, 30]; counted range: start and length likewise; large: start within 2^40, steps of 1, 7, 2^31+1 or 2^38-3 either way, up to 12 (thorough 40) of them'];
exports.outside = ['fractional bounds and steps (the documentation tells callers not to use them)'];
exports.cases = tier => [
    { name: 'range', params: { lim: tier === 'quick' ? 12 : 25, step: 30 }, maxPaths: 1e6 },
    { name: 'default-step', params: { lim: tier === 'quick' ? 12 : 40, step: 0 } },
    { name: 'large', params: { large: true, count: tier === 'quick' ? 12 : 40 } }
];
exports.run = (V, { lim, step, large, count }) => {
    const { range } = V.load('array');
    if (large) {
        const n = V.size('count', 0, count);
        const from = V.int('from', -(2 ** 40), 2 ** 40);
        const s = V.choice('size', [1, 7, 2 ** 31 + 1, 2 ** 38 - 3]) * V.choice('direction', [1, -1]);
        const over = V.int('over', 0, 2 ** 38);
        V.assume(s > 0 ? over < s : over < -s);
        const v = range(from, from + s * n + (s > 0 ? over : -over), s);
        V.check(v.length === n + 1, 'as many elements as steps fit');
        for (let i = 0; i <= n; i++) V.check(v[i] === from + i * s, 'each one step further');
        return;
    }
    const from = V.int('from', -lim, lim);
    const to = V.int('to', -lim, lim);
    const s = step ? V.int('step', -step, step) : 1;
    const r = V.attempt(() => (step ? range(from, to, s) : range(from, to)));
    V.observe(r.ok ? r.value : r.error);
    const bad = V.or(s === 0, V.and(from > to, s > 0), V.and(from < to, s < 0));
    V.check(V.iff(bad, !r.ok), 'refused exactly for a zero step or a step pointing away from the end');
    if (!r.ok) {
        V.check(r.error instanceof TypeError, 'a refusal is a TypeError');
        return;
    }
    const v = r.value;
    V.check(v.length >= 1, 'never empty');
    V.check(v[0] === from, 'starts at from');
    for (let i = 1; i < v.length; i++) V.check(v[i] - v[i - 1] === s, 'consecutive elements differ by the step');
    const last = v[v.length - 1];
    V.check(s > 0 ? V.and(last <= to, last + s > to) : V.and(last >= to, last + s < to), 'ends at the last step that does not pass the end');
};
