'use strict';
exports.bounds = [
    'formatBytes with units of 1024: every whole number of bytes of either sign up to 2^30, above that up to 2^53 every multiple of the next smaller unit, 0..2 (thorough 3) decimals',
    'parseJson: every text of 1..4 (thorough 5) characters out of digits, quote, brackets, comma, colon, minus and a letter, a reviver with sample texts'
];
exports.outside = ['formatBytes with units of 1000 above 999 bytes: the quotients are no exact doubles', 'texts of JSON with escapes'];
const UNITS = ['B', 'KiB', 'MiB', 'GiB', 'TiB', 'PiB'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [{ name: 'small', params: { what: 'small' } }];
    for (let dp = 0; dp <= (q ? 2 : 3); dp++) for (let u = 1; u < UNITS.length; u++) for (const sign of dp > 2 ? [1] : [1, -1]) out.push({ name: `iec${dp}-${UNITS[u]}${sign}`, params: { what: 'iec', dp, u, sign } });
    for (let n = 0; n <= (q ? 4 : 5); n++) out.push({ name: 'json' + n, params: { what: 'json', n } });
    return out;
};
exports.mustReach = () => ['next unit', 'this unit', 'bad', 'good'];
exports.run = async (V, { what, dp, u, n, sign }) => {
    const lib = V.load('string');
    if (what === 'small') {
        const si = V.choice('si', [undefined, true, false]);
        const b = V.int('b', -1023, 1023);
        if (si !== false) V.assume(V.and(b > -1000, b < 1000));
        const r = si === undefined ? lib.formatBytes(b) : lib.formatBytes(b, si, 2);
        return V.check(V.eq(r, String(b) + ' B'), 'few bytes are given as they are');
    }
    if (what === 'iec') {
        const D = 1024 ** u;
        // all amounts of this unit and those just below it
        const step = u > 2 ? D / 1024 : 1;
        const m = V.int('m', u === 1 ? 1024 : D / 2 / step, Math.min(D * 1024, 2 ** 53) / step - 1);
        const b = m * step;
        const scale = 10 ** dp;
        const r = lib.formatBytes(b * sign, false, dp);
        V.observe(r);
        const round = d => Math.floor((m * scale * 2 + d / step) / ((2 * d) / step));
        const fits = d => round(d) < 1024 * scale;
        let k = u;
        if (u > 1 && V.truth(fits(D / 1024))) (k = u - 1), V.cover('this unit');
        else if (!V.truth(fits(D))) (k = u + 1), V.cover('next unit');
        const all = round(1024 ** k);
        const whole = Math.floor(all / scale);
        const frac = all - whole * scale;
        let text = String(whole);
        if (dp) text += '.' + String(frac + scale).slice(1);
        V.check(V.eq(r, (sign < 0 ? '-' : '') + text + ' ' + ['B', 'KiB', 'MiB', 'GiB', 'TiB', 'PiB', 'EiB'][k]), 'the amount rounded in the largest unit that needs less than 1024');
        return;
    }
    const s = V.str('s', n, [[34, 34], [44, 45], [48, 49], [58, 58], [91, 91], [93, 93], [97, 97], [123, 123], [125, 125]]);
    const mode = n === 0;
    const text = mode ? V.choice('text', ['1', '[1,[2]]', '{"a":1,"b":{"c":2}}', '[', '']) : s;
    const reviver = (k, v) => (typeof v === 'number' ? v + 1 : v);
    const want = V.attempt(() => (mode ? JSON.parse(text, reviver) : JSON.parse(text)));
    const r = await V.settle(mode ? lib.parseJson(text, reviver) : lib.parseJson(text));
    V.observe(r.status);
    V.cover(want.ok ? 'good' : 'bad');
    V.check(r.status === (want.ok ? 'fulfilled' : 'rejected'), 'resolved exactly for texts of JSON');
    if (want.ok) V.check(V.eq(r.value, want.value), 'the value that is written');
    else V.check(!!r.reason, 'the refusal says why');
};
