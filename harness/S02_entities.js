'use strict';
const CH = [[34, 34], [35, 35], [38, 39], [59, 60], [62, 62], [32, 32], [0xa0, 0xa9], [97, 97], [0x2009, 0x2009], [0x20ac, 0x20ac]];
exports.bounds = [
    'encoding: every text of 0..3 (thorough 4) characters from quotes, &, #, ;, <, >, blanks, letters and non-ASCII entity characters, and every single code unit',
    'decoding: 1..2 (thorough 3) pieces, each one character or an entity by name or number, and texts of up to 6 characters over "&#lt;amp38" with a single-pass reference'
];
exports.outside = ['entity names and numbers other than the 253 listed ones'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 2 : 3); n++) out.push({ name: 'trip' + n, params: { what: 'trip', n } });
    out.push({ name: 'unit', params: { what: 'unit' } });
    for (let n = 1; n <= (q ? 2 : 3); n++) out.push({ name: 'pieces' + n, params: { what: 'pieces', n } });
    out.push({ name: 'table', params: { what: 'table' } });
    return out;
};
exports.mustReach = () => ['entity', 'plain', 'nested'];
const ENT = { '"': ['quot', 34], '&': ['amp', 38], "'": ['apos', 39], '<': ['lt', 60], '>': ['gt', 62], '\u00a0': ['nbsp', 160], '\u00a9': ['copy', 169], '\u20ac': ['euro', 8364], '\u2009': ['thinsp', 8201] };
exports.run = (V, { what, n }) => {
    const pkg = V.load('string');
    if (what === 'trip') {
        const s = V.str('s', n, CH);
        const a = pkg.encodeEntityToName(s);
        const b = pkg.encodeEntityToPoint(s);
        V.observe([a, b]);
        V.check(V.eq(pkg.decodeEntityByName(a), s), 'names decode to the text');
        V.check(V.eq(pkg.decodeEntityByPoint(b), s), 'numbers decode to the text');
        V.check(V.and(V.eq(pkg.decodeEntity(a), s), V.eq(pkg.decodeEntity(b), s)), 'decoding both kinds gives the text');
        for (const x of [a, b]) for (let i = 0; i < x.length; i++) V.check(V.and(x.charAt(i) !== '<', x.charAt(i) !== '>', x.charAt(i) !== '"', x.charAt(i) !== "'"), 'no markup character is left');
        return;
    }
    if (what === 'unit') {
        const c = V.str('c', 1, [[0, 65535]]);
        const a = pkg.encodeEntityToName(c);
        const b = pkg.encodeEntityToPoint(c);
        const code = c.charCodeAt(0);
        V.observe([a, b]);
        V.check((a.length === 1) === (b.length === 1), 'the same characters in both kinds');
        if (a.length === 1) {
            V.cover('plain');
            V.check(V.and(V.eq(a, c), V.eq(b, c)), 'other characters stay');
            V.check(V.not(V.or(c === '<', c === '>', c === '&', c === '"', c === "'")), 'markup characters are encoded');
        } else {
            V.cover('entity');
            V.check(V.eq(b, `&#${code};`), 'the number is the code of the character');
            V.check(V.eq(pkg.decodeEntityByName(a), c), 'the name stands for the character');
            V.check(code !== 32, 'an ordinary blank is no entity');
        }
        return;
    }
    if (what === 'pieces') {
        const kinds = V.array(n, i => V.choice('kind' + i, ['char', 'name', 'point', 'noname', 'text']));
        const es = Object.keys(ENT);
        let s = '';
        const want = { decodeEntity: '', decodeEntityByName: '', decodeEntityByPoint: '' };
        kinds.forEach((k, i) => {
            if (k === 'char' || k === 'text') {
                const t = k === 'text' ? V.choice('t' + i, ['#38;', 'lt;', 'amp;', '#']) : V.str('c' + i, 1, [[35, 35], [59, 60], [97, 97]]);
                if (k === 'text' && i && kinds[i - 1] !== 'char' && kinds[i - 1] !== 'text') V.cover('nested');
                s += t;
                for (const f in want) want[f] += t;
                return;
            }
            const c = V.choice('e' + i, es);
            const t = k === 'name' ? `&${ENT[c][0]};` : k === 'point' ? `&#${ENT[c][1]};` : `&${ENT[c][0]}`;
            if (k === 'noname') V.assume(i === n - 1); // a bare "&" must not pair with what follows
            s += t;
            want.decodeEntity += k === 'noname' ? t : c;
            want.decodeEntityByName += k === 'name' ? c : t;
            want.decodeEntityByPoint += k === 'point' ? c : t;
        });
        for (const f in want) {
            const r = pkg[f](s);
            V.observe(r);
            V.check(V.eq(r, want[f]), 'entities are replaced once, all else stays');
        }
        return;
    }
    const c = V.choice('c', Object.keys(ENT));
    const [name, point] = ENT[c];
    V.check(pkg.encodeEntityToName(c) === `&${name};` && pkg.encodeEntityToPoint(c) === `&#${point};`, 'the standard names and numbers');
};
