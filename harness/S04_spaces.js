'use strict';
const GROUPS = {
    zeroWidth: [0xfeff, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x202a, 0x202b, 0x202c, 0x202d, 0x202e, 0x2060, 0x2061, 0x2062, 0x2063, 0x2064, 0x2066, 0x2067, 0x2068, 0x2069, 0x206a, 0x206b, 0x206c, 0x206d, 0x206e, 0x206f],
    likeSpace: [0xa0, 0x205f, 0x202f, 0x3000, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a],
    control: [0x2028, 0x2029, 9, 13, 10, 12, 11, 8, 0x85],
    space: [32]
};
const KINDS = ['space', 'zeroWidth', 'likeSpace', 'control'];
// blanks of every kind next to the characters just outside the ranges
const SMALL = [[8, 10], [32, 32], [97, 98], [0x84, 0x85], [0x200a, 0x200b], [0x2028, 0x2029], [0x3000, 0x3000]];
exports.bounds = [
    'single characters: all 65536, for every combination of the four kinds of blanks',
    'texts of 0..4 (thorough 5) characters over blanks of every kind and letters, for no options, each kind switched off, and extra characters (brackets, ^, -, backslash, pairs of surrogates, lists)'
];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let m = 0; m < 16; m++) out.push({ name: 'one' + m, params: { what: 'one', m } });
    for (let n = 0; n <= (q ? 3 : 4); n++) for (const m of [15, 14, 13, 11, 7]) out.push({ name: `trim${n}-${m}`, params: { what: 'trim', n, m } });
    for (let n = 0; n <= (q ? 3 : 4); n++) out.push({ name: 'extra' + n, params: { what: 'extra', n } });
    for (let n = 0; n <= (q ? 4 : 5); n++) for (const kind of ['control', 'zeroWidth', 'likeSpace']) out.push({ name: kind + n, params: { what: 'rm', n, kind } });
    for (let n = 0; n <= (q ? 4 : 6); n++) out.push({ name: 'start' + n, params: { what: 'start', n } });
    return out;
};
exports.mustReach = () => ['blank', 'other', 'inner', 'all'];
exports.run = (V, { what, n, m, kind }) => {
    const pkg = V.load('string');
    const inSet = (c, codes) => V.or(false, ...codes.map(x => c.charCodeAt(0) === x));
    const ends = (s, is) => {
        let a = 0;
        let b = s.length;
        while (a < s.length && V.truth(is(s.charAt(a)))) a++;
        while (b > 0 && V.truth(is(s.charAt(b - 1)))) b--;
        return [a, b];
    };
    const checkTrim = (s, is, o, x) => {
        const args = o === undefined && x === undefined ? [] : x === undefined ? [o] : [o, x];
        const [a, b] = ends(s, is);
        if (a === s.length && s.length) V.cover('all');
        let all = '';
        for (let i = 0; i < s.length; i++) if (!V.truth(is(s.charAt(i)))) all += s.charAt(i);
        if (all.length < b - a) V.cover('inner');
        const r = [pkg.trimStart(s, ...args), pkg.trimEnd(s, ...args), pkg.trim(s, ...args), pkg.trimAll(s, ...args)];
        V.observe(r);
        V.check(V.eq(r[0], s.slice(a)), 'blanks at the start are removed');
        V.check(V.eq(r[1], s.slice(0, b)), 'blanks at the end are removed');
        V.check(V.eq(r[2], a > b ? '' : s.slice(a, b)), 'blanks at both ends are removed');
        V.check(V.eq(r[3], all), 'all blanks are removed');
        if (s.length) V.check(V.is(pkg.isSpaceString(s, ...args), a === s.length), 'blank exactly when nothing but blanks');
    };
    const options = m => (m === 15 ? undefined : Object.fromEntries(KINDS.map((k, i) => [k, !!(m & (1 << i))])));
    const codesOf = m => KINDS.filter((k, i) => m & (1 << i)).flatMap(k => GROUPS[k]);
    if (what === 'one') {
        const c = V.str('c', 1, [[0, 65535]]);
        const is = V.truth(inSet(c, codesOf(m)));
        V.cover(is ? 'blank' : 'other');
        const o = options(m);
        for (const f of ['trim', 'trimStart', 'trimEnd', 'trimAll']) V.check(V.eq(pkg[f](c, o), is ? '' : c), 'exactly the listed characters are blanks');
        V.check(V.is(pkg.isSpaceString(c, o), is), 'exactly the listed characters are blanks');
        if (m < 8 && (m & (m - 1)) === 0 && m > 1) {
            // one kind alone
            const k = KINDS[m === 2 ? 1 : 2];
            V.check(V.eq(pkg[k === 'zeroWidth' ? 'rmZeroWidth' : 'rmLikeSpaceStart'](c), is ? '' : c), 'the same characters in every function');
        }
        if (m === 8) V.check(V.eq(pkg.rmControl(c), is ? '' : c), 'the same characters in every function');
        return;
    }
    if (what === 'trim') {
        const s = V.str('s', n, SMALL);
        const codes = codesOf(m);
        checkTrim(s, c => inSet(c, codes), options(m));
        return;
    }
    if (what === 'extra') {
        const x = V.choice('x', ['-', ']', '^', '\\', 'a-c', '[a]', '^a', ['a', ']'], 'ab', '\\d', '', '\ud83d\ude00', 'é.']);
        const s = V.str('s', n, [[32, 32], [45, 45], [91, 94], [97, 98], [120, 120], ...(n > 3 ? [] : [[0xd83d, 0xd83d], [0xde00, 0xde00]])]);
        const text = [x].flat().join('');
        if (text.includes('\ud83d')) {
            // whole characters only
            let a = 0;
            const at = i => V.truth(V.and(s.charAt(i) === '\ud83d', i + 1 < n && s.charAt(i + 1) === '\ude00'));
            while (a < n && (V.truth(s.charAt(a) === ' ') || at(a))) a += at(a) ? 2 : 1;
            const r = pkg.trimStart(s, {}, x);
            V.observe(r);
            V.check(V.eq(r, s.slice(a)), 'extra characters are whole characters');
            return;
        }
        checkTrim(s, c => V.or(c === ' ', ...text.split('').map(t => c === t)), {}, x);
        return;
    }
    if (what === 'rm') {
        const near = { control: [[7, 9], [0x85, 0x86], [97, 97], [0x2028, 0x2028], [32, 32]], zeroWidth: [[0x200a, 0x200c], [0x2065, 0x2066], [97, 97]], likeSpace: [[0x9f, 0xa0], [0x2000, 0x2000], [0x3000, 0x3001], [97, 97], [32, 32]] }[kind];
        const s = V.str('s', n, near);
        const is = c => inSet(c, GROUPS[kind]);
        const [a, b] = ends(s, is);
        const N = { control: 'rmControl', zeroWidth: 'rmZeroWidth', likeSpace: 'rmLikeSpace' }[kind];
        const r = [pkg[N](s), pkg[N + 'Start'](s), pkg[N + 'End'](s)];
        V.observe(r);
        let all = '';
        for (let i = kind === 'likeSpace' ? a : 0; i < (kind === 'likeSpace' ? b : n); i++) {
            const c = s.charAt(i);
            if (!V.truth(is(c))) all += c;
            else if (kind === 'likeSpace') all += ' ';
        }
        V.check(V.eq(r[1], s.slice(a)), 'removed at the start');
        V.check(V.eq(r[2], s.slice(0, b)), 'removed at the end');
        V.check(V.eq(r[0], all), kind === 'likeSpace' ? 'removed at both ends, blanks in between' : 'removed everywhere');
        return;
    }
    const s = V.str('s', n, [[9, 10], [32, 32], [97, 97], [0xa0, 0xa0]]);
    let a = 0;
    while (a < n && V.truth(s.charAt(a) === ' ')) a++;
    let b = 0;
    while (b < n && V.truth(s.charAt(b) === '\t')) b++;
    const r = [pkg.startSpacesLength(s), pkg.startTabsLength(s)];
    V.observe(r);
    V.check(V.is(r[0], a), 'the number of blanks at the start');
    V.check(V.is(r[1], b), 'the number of tabs at the start');
};
