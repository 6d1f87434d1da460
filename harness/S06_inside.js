'use strict';
const CH = [[34, 34], [39, 41], [49, 49], [91, 93]];
const MORE = [[0x300a, 0x300b], [49, 49], [39, 39], [0xff08, 0xff09]];
exports.bounds = [
    'texts of 0..4 (thorough 6) characters over quotes, two kinds of brackets, backslash and a digit, with and without escapes; the same with full-width brackets, and with given marks, one of them the same at both ends',
    'open quotes: texts of 0..5 (thorough 6) characters over three quotes, brackets, semicolon, backslash and a digit'
];
exports.outside = ['letters next to a single quote (taken for an apostrophe)', 'an unclosed mark directly behind a wrapped value'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 4 : 6); n++) for (const escape of [false, true]) out.push({ name: `bind${n}${escape ? 'e' : ''}`, params: { what: 'bind', n, escape, set: 0 } });
    for (let n = 1; n <= (q ? 4 : 5); n++) for (const set of [1, 2]) out.push({ name: `marks${set}-${n}`, params: { what: 'bind', n, escape: false, set } });
    for (let n = 0; n <= (q ? 4 : 6); n++) out.push({ name: 'pair' + n, params: { what: 'pair', n } }, { name: 'closed' + n, params: { what: 'closed', n } });
    out.push({ name: 'words', params: { what: 'words' } });
    return out;
};
exports.mustReach = () => ['nested', 'adjacent', 'unclosed', 'escaped', 'open'];
exports.run = (V, { what, n, escape, set }) => {
    const pkg = V.load('string');
    if (what === 'bind') {
        const s = V.str('s' + set, n, set === 2 ? [[35, 35], [39, 39], [49, 49], [60, 60], [62, 62]] : set ? MORE : CH);
        const marks = set === 2 ? { '#': '#', '<': '>' } : { "'": "'", '"': '"', '(': ')', '[': ']', '《': '》', '（': '）' };
        const at = (i, c) => i < n && V.truth(s.charAt(i) === c);
        const opener = i => (i < n ? Object.keys(marks).find(c => at(i, c)) : undefined);
        let inside = '';
        let outside = '';
        let i = 0;
        let idle = 0;
        const plain = (a, b) => {
            if (a >= b) return;
            inside += s.slice(a, b);
            outside += '{' + s.slice(a, b) + '}';
        };
        while (i < n) {
            if (escape && at(i, '\\')) {
                V.cover('escaped');
                i += 2;
                continue;
            }
            if (!opener(i)) {
                i++;
                continue;
            }
            const start = i;
            let end = -1;
            for (let k = i; ; ) {
                const c = opener(k);
                const close = marks[c];
                let depth = 0;
                let e = k + 1;
                for (; e < n; e++) {
                    if (escape && at(e, '\\')) {
                        if (at(e + 1, close) || at(e + 1, c)) e++;
                    } else if (at(e, close)) {
                        if (depth-- === 0) break;
                    } else if (at(e, c)) {
                        depth++;
                        V.cover('nested');
                    }
                }
                if (e >= n) {
                    if (end >= 0) V.assume(false);
                    break;
                }
                end = e;
                if (!opener(e + 1)) break;
                V.cover('adjacent');
                k = e + 1;
            }
            plain(idle, start);
            idle = start;
            if (end < 0) {
                V.cover('unclosed');
                break;
            }
            inside += '{' + s.slice(start, end + 1) + '}';
            outside += s.slice(start, end + 1);
            idle = i = end + 1;
        }
        plain(idle, n);
        const o = { escape, ...(set === 2 ? { marks } : {}) };
        const all = [];
        const cb = (chunk, index, value) => {
            all.push(V.eq(value, s));
            return '{' + chunk + '}';
        };
        const a = pkg.bindInside(s, o, cb);
        const b = pkg.bindOutside(s, o, cb);
        V.observe([a, b]);
        V.check(V.eq(a, inside), 'exactly the wrapped pieces are handled');
        V.check(V.eq(b, outside), 'exactly the pieces that are not wrapped are handled');
        V.check(V.and(true, ...all), 'the whole text is passed along');
        if (!escape && set !== 2) V.check(V.and(V.eq(pkg.bindInside(s, cb), a), V.eq(pkg.bindOutside(s, undefined, cb), b)), 'without options');
        return;
    }
    if (what === 'pair') {
        const s = V.str('s', n, [[34, 34], [39, 40], [49, 49], [92, 92], [96, 96]]);
        let open = '';
        for (let i = 0; i < n; i++) {
            const c = s.charAt(i);
            const q = ["'", '"', '`'].find(x => V.truth(c === x));
            if (V.truth(c === '\\')) open && i + 1 < n && V.truth(s.charAt(i + 1) === open) && i++;
            else if (q && !open) open = q;
            else if (q === open) open = '';
        }
        if (open) V.cover('open');
        const r = pkg.quotePair(s);
        V.observe(r);
        V.check(V.is(r, open), 'the quote that is open at the end');
        return;
    }
    if (what === 'closed') {
        const s = V.str('s', n, [[34, 34], [39, 40], [49, 49], [59, 59], [92, 92], [125, 125]]);
        let open = '';
        for (let i = n - 1; i >= 0; i--) {
            const c = s.charAt(i);
            const q = ["'", '"'].find(x => V.truth(c === x));
            if (!open && V.truth(V.or(c === '(', c === ';', c === '}'))) break;
            if (!q) continue;
            if (i > 0 && V.truth(s.charAt(i - 1) === '\\')) {
                if (q === open) i--;
            } else if (!open) open = q;
            else if (q === open) open = '';
        }
        const r = pkg.quoteClosed(s);
        V.observe(r);
        V.check(V.is(r, open), 'the quote that is open behind the last delimiter');
        return;
    }
    const w = V.str('w', 1, [[65, 90], [97, 122]]);
    const t = V.strUpTo('t', 1, 2, [[97, 97], [115, 115]]);
    const end = V.str('end', 1, [[32, 32], [46, 46], [49, 49]]);
    const s = w + "'" + t + end;
    V.check(V.eq(pkg.bindInside(s, c => '{' + c + '}'), s), 'an apostrophe wraps nothing');
    V.check(V.eq(pkg.bindOutside(s, c => '{' + c + '}'), '{' + s + '}'), 'an apostrophe wraps nothing');
    V.check(pkg.bindInside('', () => 'x') === '' && pkg.bindOutside('', () => 'x') === '', 'nothing in an empty text');
};
