'use strict';
exports.bounds = ['random source: every multiple of 2^-20 in [0, 1); secure source: every byte; digit texts of length 0..3 (thorough 5), lengths at and above the limit of one draw'];
exports.outside = ['how often each value comes out'];
exports.stubs = ['Math.random and crypto.getRandomValues return arbitrary values; the limit of 65536 bytes per draw is enforced'];
exports.cases = tier => {
    const out = [];
    for (const f of ['randomBoolean', 'randomLower', 'randomUpper', 'randomHexColor']) for (const safe of [false, true]) out.push({ name: f + (safe ? '-safe' : ''), params: { f, safe } });
    for (let n = 0; n <= (tier === 'quick' ? 3 : 4); n++) out.push({ name: 'number' + n, params: { f: 'randomNumber', n } });
    out.push({ name: 'long', params: { f: 'long' } });
    return out;
};
exports.mustReach = () => {
    const out = ['true', 'false', 'digit0', 'digit5', 'digit9', 'hex0', 'hexF'];
    for (let i = 0; i < 26; i++) out.push('lower' + i, 'upper' + i, 'safe lower' + i, 'safe upper' + i);
    return out;
};
exports.run = (V, { f, safe, n }) => {
    const env = V.env;
    let count = 0;
    class Bytes extends Array {
        constructor(n) {
            super(n);
            this.fill(0);
        }
    }
    const crypto = {
        getRandomValues(a) {
            if (a.length > 65536) throw new Error('quota');
            if (f === 'long') return a.fill(199);
            for (let i = 0; i < a.length; i++) a[i] = V.int('byte' + count++, 0, 255);
            return a;
        }
    };
    env.Uint8Array = Bytes;
    env.crypto = crypto;
    env.globalThis = new Proxy({}, { get: (t, key) => (key === 'crypto' ? crypto : globalThis[key]) });
    V.stubs.crypto = { webcrypto: crypto };
    env.process[Symbol.toStringTag] = 'process';
    env.process.release = { name: 'node' };
    let draws = 0;
    const next = env.random;
    env.random = () => {
        draws++;
        return next();
    };
    const pkg = V.load('string');
    if (f === 'long') {
        const len = V.choice('len', [65535, 65536, 65537, 70000]);
        const r = pkg.randomNumber(len);
        V.check(r.length === len && /^\d+$/.test(r), 'as many digits as asked for, beyond one draw too');
        V.check(pkg.randomNumber().length === 15, 'fifteen digits by default');
        return;
    }
    if (f === 'randomNumber') {
        const r = pkg.randomNumber(n);
        V.observe(r);
        V.check(r.length === n, 'as many digits as asked for');
        for (let i = 0; i < n; i++) V.check(V.and(r.charAt(i) >= '0', r.charAt(i) <= '9'), 'only digits');
        if (n === 1) for (const d of ['0', '5', '9']) if (V.truth(r === d)) V.cover('digit' + d);
        return;
    }
    const r = pkg[f](safe);
    V.observe(r);
    if (safe) V.check(count > 0 && draws === 0, 'asked for, the secure source is used, and no other');
    if (f === 'randomBoolean') {
        V.cover(String(V.truth(r)));
        V.check(typeof r === 'boolean', 'a boolean');
        return;
    }
    if (f === 'randomHexColor') {
        V.check(r.length === 7 && V.truth(r.charAt(0) === '#'), 'a hash and six digits');
        for (let i = 1; i < 7; i++) V.check(V.or(V.and(r.charAt(i) >= '0', r.charAt(i) <= '9'), V.and(r.charAt(i) >= 'A', r.charAt(i) <= 'F')), 'upper-case hexadecimal digits');
        if (V.truth(r.charAt(6) === '0')) V.cover('hex0');
        else if (V.truth(r.charAt(1) === 'F')) V.cover('hexF');
        return;
    }
    const base = f === 'randomLower' ? 97 : 65;
    V.check(r.length === 1, 'one letter');
    const k = r.charCodeAt(0) - base;
    V.check(V.and(k >= 0, k < 26), f === 'randomLower' ? 'a lower-case letter' : 'an upper-case letter');
    for (let i = 0; i < 26; i++) if (V.truth(k === i)) V.cover((safe ? 'safe ' : '') + (f === 'randomLower' ? 'lower' : 'upper') + i);
};
