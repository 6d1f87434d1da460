'use strict';
exports.bounds = ['arrays of 0..9 integers (thorough 14); step and part count any integer in [-3, 1000000]; pad position start, end, none or another text'];
exports.outside = ['non-integer sizes', 'arrays longer than the bound'];
exports.cases = tier => {
    const out = [];
    const N = tier === 'quick' ? 9 : 14;
    for (let n = 0; n <= N; n++) {
        out.push({ name: 'step' + n, params: { n, what: 'step' } });
        out.push({ name: 'chunk' + n, params: { n, what: 'chunk' } });
    }
    out.push({ name: 'kinds step', params: { n: 5, what: 'step', kinds: true } }, { name: 'kinds chunk', params: { n: 5, what: 'chunk', kinds: true } });
    return out;
};
const same = (x, y) => x.length === y.length && x.every((e, i) => Object.is(e, y[i]));
exports.run = (V, { n, what, kinds }) => {
    const { splitByStep, splitChunk } = V.load('array');
    // numbers, or one kind of value (twice in a row, so that parts consist of it alone) among numbers
    const kind = kinds ? V.choice('kind', [undefined, null, NaN, -0, '', false, [], [7], {}]) : 0;
    const at = kinds ? V.size('at', 0, n - 2) : -1;
    const a = V.array(n, i => (kinds ? (i === at || i === at + 1 ? kind : i) : V.int('a' + i, -50, 50)));
    const b = a.slice();
    const k = V.int('k', -3, 1000000);
    const pos = what === 'chunk' ? V.choice('pos', [undefined, 'start', 'end', 'middle']) : undefined;
    const r = V.attempt(() => (what === 'step' ? splitByStep(b, k) : splitChunk(b, k, pos)));
    V.observe(r.ok ? r.value : r.error);
    V.check(kinds ? same(b, a) : V.eq(b, a), 'the input is left unchanged');
    if (!r.ok) {
        V.check(r.error instanceof TypeError, 'a refusal is a TypeError');
        V.check(V.or(k < 1, V.and(what === 'chunk', pos === 'middle', k < n, n % (k < 1 ? 1 : k) !== 0)), 'a valid size is not refused');
        return;
    }
    V.check(k >= 1, 'a size below one is refused');
    const parts = r.value;
    const flat = [];
    for (const p of parts) for (const x of p) flat.push(x);
    V.check(kinds ? same(flat, a) : V.eq(flat, a), 'the parts in order contain every element exactly once');
    V.check(parts.length >= 1, 'at least one part');
    if (k >= n) {
        V.check(parts.length === 1, 'one part when the size reaches the length');
        return;
    }
    if (what === 'step') {
        for (let i = 0; i < parts.length; i++) {
            if (i < parts.length - 1) V.check(parts[i].length === k, 'every part but the last has the step size');
            else V.check(V.and(parts[i].length >= 1, parts[i].length <= k), 'the last part is non-empty and no longer than the step');
        }
        return;
    }
    const q = Math.floor(n / k);
    const rem = n % k;
    if (rem === 0) {
        V.check(parts.length === k, 'the requested number of parts');
        for (const p of parts) V.check(p.length === q, 'equal parts when the length divides');
    } else if (pos === undefined) {
        for (let i = 0; i < parts.length - 1; i++) V.check(parts[i].length === q, 'without a pad position every part but the last has the rounded down size');
        V.check(V.and(parts[parts.length - 1].length >= 1, parts[parts.length - 1].length <= q), 'the last part is non-empty and no longer than the others');
    } else {
        V.check(pos !== 'middle', 'an unknown pad position is refused');
        V.check(parts.length === k, 'the requested number of parts');
        for (let i = 0; i < parts.length; i++) {
            const big = pos === 'start' ? i < rem : i >= parts.length - rem;
            V.check(parts[i].length === (big ? q + 1 : q), 'the surplus is spread one each over the first or the last parts');
        }
    }
};
