'use strict';
const W = [[0, 0], [0x7f, 0x80], [0x7ff, 0x800], [0xd7ff, 0xd800], [0xdbff, 0xdc00], [0xdfff, 0xe000], [0xffff, 0xffff], [0x41, 0x5a], [0x4e00, 0x4eff]];
exports.bounds = ['every text of 0..4 (thorough 5) code units, all 65536 values each; marks 1..9 and anything', 'positions -2..6 in texts of up to 4 units; split texts of up to 3 (thorough 4) units'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 4 : 5); n++) out.push({ name: 'bytes' + n, params: { what: 'bytes', n } });
    for (let n = 0; n <= (q ? 3 : 4); n++) out.push({ name: 'split' + n, params: { what: 'split', n } });
    for (let n = 0; n <= 4; n++) out.push({ name: 'point' + n, params: { what: 'point', n } });
    out.push({ name: 'mark', params: { what: 'mark' } });
    return out;
};
exports.mustReach = () => ['pair', 'lone', 'three', 'big'];
exports.run = (V, { what, n }) => {
    const pkg = V.load('string');
    // reference: code points with their range of units
    const points = (s, hi) => {
        const out = [];
        for (let i = 0; i < s.length; i++) {
            const a = s.charCodeAt(i);
            if (i + 1 < s.length && V.truth(V.and(a >= 0xd800, a <= 0xdbff)) && V.truth(V.and(s.charCodeAt(i + 1) >= 0xdc00, s.charCodeAt(i + 1) <= 0xdfff))) {
                V.cover('pair');
                out.push({ at: i, n: 2, p: 0x10000 + (a - 0xd800) * 1024 + (s.charCodeAt(i + 1) - 0xdc00), size: 4 });
                i++;
            } else {
                const lone = V.truth(V.and(a >= 0xd800, a <= 0xdfff));
                if (lone) V.cover('lone');
                const size = lone ? 3 : V.truth(a < 0x80) ? 1 : V.truth(a < 0x800) ? 2 : 3;
                if (size === 3 && !lone) V.cover('three');
                out.push({ at: i, n: 1, p: lone ? 0xfffd : a, raw: a, size });
            }
        }
        return out;
    };
    const div = (x, m) => Math.floor(x / m);
    if (what === 'bytes') {
        const s = V.str('s', n, [[0, 65535]]);
        const ps = points(s);
        const want = [];
        for (const { p, size } of ps) {
            if (size === 1) want.push(p);
            else if (size === 2) want.push(0xc0 + div(p, 64), 0x80 + (p % 64));
            else if (size === 3) want.push(0xe0 + div(p, 4096), 0x80 + (div(p, 64) % 64), 0x80 + (p % 64));
            else want.push(0xf0 + div(p, 262144), 0x80 + (div(p, 4096) % 64), 0x80 + (div(p, 64) % 64), 0x80 + (p % 64));
        }
        const r = pkg.bytesArray(s);
        V.observe(r);
        V.check(r.length === want.length, 'as many bytes as UTF-8 needs');
        V.check(V.eq(r, want), 'the UTF-8 bytes, lone surrogates as the replacement character');
        V.check(V.is(pkg.bytesLength(s), want.length), 'the number of bytes');
        const cs = pkg.chars(s);
        V.check(cs.length === ps.length && V.truth(V.and(true, ...ps.map((q, i) => V.eq(cs[i], s.slice(q.at, q.at + q.n))))), 'whole characters');
        V.check(V.eq(pkg.fromChars(cs), s), 'the characters put together again');
        return;
    }
    if (what === 'split') {
        const s = V.str('s', n, W);
        const mark = V.int('mark', 1, 9);
        const ps = points(s);
        const r = pkg.splitByBytes(s, mark);
        V.observe(r);
        const want = [];
        let sum = 0;
        let cur = '';
        for (const q of ps) {
            const c = s.slice(q.at, q.at + q.n);
            if (cur !== '' && V.truth(sum + q.size > mark)) {
                want.push(cur);
                cur = c;
                sum = q.size;
            } else {
                cur += c;
                sum += q.size;
            }
            if (V.truth(q.size > mark)) V.cover('big');
        }
        if (cur !== '') want.push(cur);
        V.check(r.length === want.length && Object.keys(r).length === want.length, 'no part is missing or empty');
        V.check(V.eq(r.join(''), s), 'the parts put together give the text');
        V.check(V.eq(r, want), 'each part as long as the mark allows, never splitting a character');
        return;
    }
    if (what === 'point') {
        const s = V.str('s', n, [[0, 65535]]);
        const i = V.int('i', -2, 6);
        const r = pkg.codePointAt(s, i);
        V.observe(r);
        if (!V.truth(V.and(i >= 0, i < n))) V.check(r === null, 'nothing outside the text');
        else {
            const a = s.charCodeAt(i);
            const b = V.truth(i + 1 < n) ? s.charCodeAt(i + 1) : 0;
            const pair = V.and(a >= 0xd800, a <= 0xdbff, b >= 0xdc00, b <= 0xdfff);
            V.check(V.eq(r, V.ite(pair, 0x10000 + (a - 0xd800) * 1024 + (b - 0xdc00), a)), 'the code point that starts there');
        }
        return;
    }
    const m = V.choice('m', [0, -1, 1.5, NaN, Infinity, '4', null]);
    const r = V.attempt(() => pkg.splitByBytes('ab', m));
    V.check(!r.ok, 'marks that are no positive integers are refused');
    V.check(V.is(pkg.splitByBytes('ab').length, 1), 'a mark of 4096 by default');
};
