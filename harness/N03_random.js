'use strict';
exports.bounds = ['random source: every multiple of 2^-20 in [0, 1) with every start and end in +-100, and every double in [0, 1) with 6 (thorough 18) sample pairs up to the safe integer limits; secure source: every 32-bit word', 'every value of every range of up to 8 integers is reached', 'refusal: every double'];
exports.outside = ['start larger than end (recorded under F06)', 'reachability of each value of ranges wider than the random source is fine'];
exports.stubs = ['Math.random and crypto.getRandomValues return arbitrary values'];
const S = Number.MAX_SAFE_INTEGER;
const PAIRS = [[0, 1], [0, 2], [-3, 3], [0, 99], [-S, -S + 6], [S - 9, S], [1, 6], [0, S], [-S, S], [0, 2 ** 32], [0, 2 ** 52], [-1, S], [5, 5], [-7, 1e15], [0, 1e9], [-1e12, 3], [0, 2 ** 31], [1, S - 1]];
exports.cases = tier => {
    const out = [];
    for (const f of ['range', 'rangeSafe']) {
        out.push({ name: f + '-any', params: { f, k: 'any' } }, { name: f + '-reach', params: { f, k: 'reach' } }, { name: f + '-refuse', params: { f, k: 'refuse' } });
        if (f === 'range') PAIRS.forEach((p, i) => (tier === 'thorough' || i < 6) && out.push({ name: `${f}-double${i}`, params: { f, k: 'double', p } }));
    }
    out.push({ name: 'random', params: { f: 'random', k: 'unit' } }, { name: 'randomSafe', params: { f: 'randomSafe', k: 'unit' } });
    return out;
};
exports.mustReach = () => {
    const out = ['lowest random', 'lowest randomSafe', 'high random', 'high randomSafe'];
    for (const f of ['range', 'rangeSafe']) for (let w = 1; w <= 8; w++) for (let o = 0; o < w; o++) out.push(`${f}: ${o} of ${w}`);
    return out;
};
exports.run = (V, { f, k, p }) => {
    const env = V.env;
    let words = 0;
    class Words extends Array {
        constructor(n) {
            super();
            for (let i = 0; i < n; i++) this.push(0);
        }
    }
    const extreme = f === 'randomSafe' ? V.choice('word', [null, 0, 2 ** 31, 2 ** 32 - 1]) : null;
    const crypto = {
        getRandomValues(a) {
            for (let i = 0; i < a.length; i++) a[i] = extreme === null ? V.int('word' + words++, 0, 2 ** 32 - 1) : extreme;
            return a;
        }
    };
    env.Uint32Array = Words;
    env.crypto = crypto;
    env.globalThis = new Proxy({}, { get: (t, key) => (key === 'crypto' ? crypto : globalThis[key]) });
    V.stubs.crypto = { webcrypto: crypto };
    env.process[Symbol.toStringTag] = 'process';
    env.process.release = { name: 'node' };
    if (k === 'double') env.random = () => {
        const x = V.fp('r');
        V.assume(V.and(x >= 0, x < 1));
        return x;
    };
    const draw = V.load('number/src/' + f);
    if (k === 'unit') {
        const x = draw();
        V.check(V.and(x >= 0, x < 1), 'a random number is at least 0 and below 1');
        if (extreme !== null) V.check(x === extreme / 2 ** 32, 'random bits are spread evenly over the range');
        if (V.truth(x === 0)) V.cover('lowest ' + f);
        else if (V.truth(x > 1023 / 1024)) V.cover('high ' + f);
        return;
    }
    if (k === 'refuse') {
        const a = V.fp('a');
        const b = V.fp('b');
        const safe = x => V.and(x >= -S, x <= S, Math.trunc(x) === x);
        V.assume(V.not(V.and(safe(a), safe(b))));
        const r = V.attempt(() => draw(a, b));
        V.check(!r.ok && r.error instanceof TypeError, 'bounds that are not safe integers are refused');
        return;
    }
    if (k === 'reach') {
        const w = V.size('w', 1, 8);
        const s = V.int('s', -5, 5);
        const r = draw(s, s + w - 1);
        V.check(V.and(r >= s, r < s + w), 'the result lies between the bounds, inclusive');
        V.cover(`${f}: ${V.concrete(r - s)} of ${w}`);
        return;
    }
    let [a, b] = p || [];
    if (!p) {
        a = V.int('a', -100, 100);
        b = V.int('b', -100, 100);
        V.assume(a <= b);
    }
    const r = draw(a, b);
    V.observe(r);
    V.check(V.and(r >= a, r <= b), 'the result lies between the bounds, inclusive');
    V.check(Math.floor(r) === r, 'the result is an integer');
};
