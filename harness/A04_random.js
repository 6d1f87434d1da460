'use strict';
exports.bounds = ['arrays of 0..5 elements (thorough 6); every random draw is any multiple of 2^-20 in [0, 1)', 'fairness: picks of 2..6 (thorough 9) elements and orders of 2 and 3, every place inside the equal parts of the range of the draws'];
exports.stubs = ['Math.random returns an arbitrary multiple of 2^-20 in [0, 1)'];
exports.cases = tier => {
    const out = [];
    for (let n = 0; n <= (tier === 'quick' ? 5 : 6); n++) out.push({ name: 'shuffle' + n, params: { n, what: 'shuffle' } });
    for (let n = 1; n <= 6; n++) out.push({ name: 'random' + n, params: { n, what: 'random' } });
    for (let n = 2; n <= (tier === 'quick' ? 6 : 9); n++) out.push({ name: 'fair pick' + n, params: { n, what: 'fair pick' } });
    for (let n = 2; n <= 3; n++) out.push({ name: 'fair order' + n, params: { n, what: 'fair order' } });
    return out;
};
const perms = n => {
    if (n === 0) return [[]];
    const out = [];
    for (const p of perms(n - 1)) for (let i = 0; i <= p.length; i++) out.push(p.slice(0, i).concat([n - 1], p.slice(i)));
    return out;
};
exports.mustReach = () => {
    const out = [];
    for (let n = 1; n <= 5; n++) for (const p of perms(n)) out.push(`order ${p}`);
    for (let n = 1; n <= 6; n++) for (let i = 0; i < n; i++) out.push(`pick ${i} of ${n}`);
    return out;
};
exports.run = (V, { n, what }) => {
    const lib = V.load('array');
    const a = V.array(n, i => ({ i }));
    const b = a.slice();
    if (what.startsWith('fair')) {
        // every draw is the j-th of `parts` equal parts of [0, 1) and somewhere, the same place each time, inside of it:
        // as many choices of parts must lead to each answer
        const parts = what === 'fair pick' ? n : n === 3 ? 6 : 2;
        const size = 2 ** 20 / parts;
        const inside = [];
        let picked = [];
        let k = 0;
        V.env.random = () => {
            if (k === inside.length) inside.push(V.int('inside' + k, 0, Math.floor(size) - 1));
            if (k === picked.length) picked.push(0);
            return (Math.ceil(picked[k] * size) + inside[k++]) / 2 ** 20;
        };
        const counts = new Map();
        for (let more = true, runs = 0; more; runs++) {
            if (runs > 1000) throw new Error('too many draws');
            k = 0;
            const r = what === 'fair pick' ? a.indexOf(lib.random(b)) : lib.shuffle(b).map(x => x.i).join();
            const key = typeof r === 'string' ? r : V.concrete(r);
            counts.set(key, (counts.get(key) || 0) + 1);
            // the next choice of parts
            let i = k - 1;
            picked = picked.slice(0, k);
            while (i >= 0 && picked[i] === parts - 1) picked[i--] = 0;
            more = i >= 0;
            if (more) picked[i]++;
        }
        V.check(counts.size === (what === 'fair pick' ? n : perms(n).length) && new Set(counts.values()).size === 1, 'every answer is as likely');
        return;
    }
    if (what === 'random') {
        const x = lib.random(b);
        V.check(b.length === n && a.every((e, i) => b[i] === e), 'the array is left unchanged');
        const i = a.indexOf(x);
        V.check(i >= 0, 'the pick is an element of the array');
        V.cover(`pick ${V.concrete(i)} of ${n}`);
        return;
    }
    const r = lib.shuffle(b);
    V.check(b.length === n && a.every((e, i) => b[i] === e), 'the input array is left unchanged');
    if (n > 0) V.check(r !== b, 'a new array is returned');
    V.check(r.length === n, 'the result has the same length');
    for (const e of a) V.check(r.filter(x => x === e).length === 1, 'every element appears exactly once');
    V.observe(r);
    V.cover(`order ${r.map(x => x.i)}`);
};
