'use strict';
const SPECIAL = '[](){}^$.?*+|\\/-'.split('');
const CHUNK = [...SPECIAL, 'a', 'n', '0', ',', '\n', 'é', '\ud83d', '\u2028'];
const T2 = [...SPECIAL.map(c => [c.charCodeAt(0), c.charCodeAt(0)]), [97, 98], [48, 48], [10, 10], [0xd83d, 0xd83d]];
exports.bounds = [
    'single characters: every one of 65536 against every one',
    'texts to match: 1..2 (thorough 3) characters out of the sixteen special ones, letters, digits, line breaks, surrogates, searched in every text of 0..3 (thorough 4) such characters, with flags none, g, i, m, u and in combination'
];
exports.outside = ['flag s, d and v, which toRegExp refuses'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [{ name: 'single', params: { what: 'single' } }, { name: 'flags', params: { what: 'flags' } }];
    for (let k = 1; k <= (q ? 1 : 2); k++) for (let n = 0; n <= (q ? 2 : 3); n++) out.push({ name: `chunk${k}in${n}`, params: { what: 'chunk', k, n } });
    for (let a = 0; a < CHUNK.length; a++) out.push({ name: 'pair' + a, params: { what: 'chunk', k: 2, n: q ? 2 : 3, first: a } });
    out.push({ name: 'replace', params: { what: 'replace' } });
    return out;
};
exports.mustReach = () => ['found', 'missing', 'refused'];
exports.run = (V, { what, k, n, first }) => {
    const pkg = V.load('string');
    if (what === 'single') {
        const c = V.str('c', 1, [[0, 65535]]);
        const src = pkg.toRegExpSource(c);
        V.observe(src.length);
        const special = V.or(...SPECIAL.map(x => c === x));
        if (V.truth(V.not(special))) V.check(V.eq(src, c), 'ordinary characters stay');
        else {
            const x = V.concrete(c);
            const t = V.str('t', 1, [[0, 65535]]);
            for (const f of ['', 'u']) {
                V.check(V.eq(new RegExp('^' + src + '$', f).test(t), t === x), 'a special character matches only itself');
                V.check(V.eq(new RegExp('^[' + src + ']$', f).test(t), t === x), 'also in a set');
            }
        }
        return;
    }
    if (what === 'flags') {
        const fs = V.choice('flags', ['', 'g', 'i', 'm', 'u', 'y', 'gi', 'gm', 'gu', 'imu', 'gimuy', 's', 'd', 'x', 'gs', 'gg', 'G', 'gimuyg']);
        const s = V.strUpTo('s', 0, 1, [[36, 36], [45, 45], [97, 97]]);
        const r = V.attempt(() => pkg.toRegExp(s, fs));
        V.observe(r.ok);
        const bad = /[^yumig]/.test(fs) || new Set(fs).size !== fs.length;
        if (bad) V.cover('refused');
        V.check(r.ok === !bad, 'refused exactly for flags it does not know');
        if (r.ok) {
            V.check(r.value instanceof RegExp && [...fs].sort().join('') === r.value.flags && V.truth(V.eq(r.value.source, s.length ? pkg.toRegExpSource(s) : '(?:)')), 'the pattern of the text with these flags');
            V.check(pkg.toRegExp('a').flags === 'g', 'global unless given');
        } else if (/[^yumig]/.test(fs)) V.check(r.error.name === 'TypeError', 'refused with a type error');
        return;
    }
    if (what === 'chunk') {
        let c = first === undefined ? '' : CHUNK[first];
        for (let i = c.length ? 1 : 0; i < k; i++) c += V.choice('c' + i, CHUNK);
        const t = V.str('t', n, T2);
        const want = V.truth(t.includes(c));
        V.cover(want ? 'found' : 'missing');
        for (const f of ['', 'm', 'i']) {
            const r = pkg.toRegExp(c, f).test(t);
            V.observe(r);
            V.check(V.is(r, want), 'found exactly where the text contains it');
        }
        const whole = new RegExp('^' + pkg.toRegExpSource(c) + '$').test(t);
        V.check(V.eq(whole, V.eq(t, c)), 'the whole text only when they are the same');
        return;
    }
    const c = V.choice('c', SPECIAL) + V.choice('d', ['', 'a', '$']);
    const m = V.size('m', 0, 2);
    const gaps = V.array(m + 1, i => V.strUpTo('g' + i, 0, 1, [[98, 99]]));
    const t = gaps.join(c);
    const r = t.replace(pkg.toRegExp(c), () => '_');
    V.observe(r);
    V.check(V.eq(r, gaps.join('_')), 'every occurrence is replaced by default');
};
