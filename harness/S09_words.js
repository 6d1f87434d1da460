'use strict';
exports.bounds = ['words: texts of 0..5 (thorough 6) characters over letters, blank, tab, line break, no-break and ideographic blanks; every position -1..7 and no position', 'sentences: texts of 0..4 (thorough 5) characters over letters, Chinese characters, both full stops, blank, quote and brackets; and sentences put together from words'];
exports.outside = ['abbreviations of several words', 'sentences of one word', 'ASCII full stops next to Chinese ones'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 4 : 5); n++) out.push({ name: 'word' + n, params: { what: 'word', n } });
    for (let n = 0; n <= (q ? 4 : 5); n++) for (const ellipsis of [true, false]) out.push({ name: `text${n}${ellipsis ? '' : 'e'}`, params: { what: 'text', n, ellipsis } });
    out.push({ name: 'abbreviations', params: { what: 'short' } });
    for (let n = 1; n <= (q ? 2 : 3); n++) out.push({ name: 'built' + n, params: { what: 'built', n } });
    return out;
};
exports.mustReach = () => ['refused', 'found', 'blank', 'several'];
exports.run = (V, { what, n, ellipsis }) => {
    const pkg = V.load('string');
    if (what === 'word') {
        const s = V.str('s', n, [[9, 10], [32, 32], [97, 98], [0xa0, 0xa0], [0x200b, 0x200b], [0x3000, 0x3000]]);
        const pos = V.truth(V.bool('given')) ? V.int('pos', -1, n + 2) : undefined;
        const all = ['wordStart', 'wordEnd', 'word'].map(f => V.attempt(() => (pos === undefined ? pkg[f](s) : pkg[f](s, pos))));
        if (pos !== undefined && V.truth(pos < 0)) {
            V.cover('refused');
            V.check(all.every(r => !r.ok && r.error.name === 'TypeError'), 'positions that are no indexes are refused with a type error');
            return;
        }
        V.check(all.every(r => r.ok), 'indexes are accepted');
        const [a, b, w] = all.map(r => r.value);
        V.observe([a, b, w]);
        let p = 0;
        if (pos !== undefined) while (!V.truth(pos === p)) p++;
        const blank = i => V.truth(V.and(s.charCodeAt(i) !== 97, s.charCodeAt(i) !== 98, s.charCodeAt(i) !== 0x200b));
        let start = null;
        let end = null;
        for (let i = p; i < n; i++) {
            if (blank(i)) continue;
            if (start === null) start = i;
            end = i;
        }
        V.cover(start === null ? 'blank' : 'found');
        V.check(start === null ? a === null : V.is(a, start), 'the first character that is no blank, from the position on');
        V.check(end === null ? b === null : V.is(b, end), 'the last character that is no blank, not before the position');
        V.check(start === null ? w === null : V.truth(V.and(V.is(w.left, start), V.is(w.right, end))), 'both ends');
        return;
    }
    if (what === 'text') {
        const s = V.str('s', n, [[32, 32], [40, 41], [46, 46], [96, 97], [0x4e2d, 0x4e2d], [0x3002, 0x3002]]);
        const r = pkg.toSentences(s, { ellipsis });
        V.observe(r);
        if (r.length > 1) V.cover('several');
        // the sentences in order, with nothing but blanks between them
        let at = 0;
        r.forEach((t, k) => {
            const len = t.length;
            let from = at;
            while (from + len <= n && !V.truth(V.eq(s.slice(from, from + len), t)) && V.truth(s.charAt(from) === ' ')) from++;
            V.check(from + len <= n && V.truth(V.eq(s.slice(from, from + len), t)), 'every sentence is a piece of the text, nothing but blanks is left out');
            at = from + len;
        });
        while (at < n && V.truth(s.charAt(at) === ' ')) at++;
        V.check(at === n, 'the sentences cover the text');
        // a full stop outside quotes and brackets ends a sentence
        let plain = true;
        let mixed = false; // both kinds of full stops
        for (let i = 0; i < n; i++) if (V.truth(s.charAt(i) === '.')) mixed = true;
        for (let i = 0; i < n; i++) if (V.truth(V.or(s.charAt(i) === '(', s.charAt(i) === ')', s.charAt(i) === '`'))) plain = false;
        if (plain && ellipsis) {
            for (const t of r.slice(0, -1)) V.check(t.length > 0 && V.truth(V.or(t.charAt(t.length - 1) === '.', t.charAt(t.length - 1) === '。')), 'a sentence ends with a full stop');
            for (const t of r) {
                if (mixed) break;
                let e = t.length;
                while (e > 0 && V.truth(V.or(t.charAt(e - 1) === '。', t.charAt(e - 1) === ' '))) e--;
                for (let i = 0; i < e; i++) V.check(t.charAt(i) !== '。', 'no sentence goes on behind a full stop');
            }
        }
        return;
    }
    if (what === 'short') {
        const w = V.choice('w', ['e.g.', 'i.e.', 'etc.', 'Ph.D.', 'a.m.', 'p.m.', 'vs.', 'cf.', 'viz.', 'ca.', 'P.S.', 'ibid.', 'Cap.', 'sc.']);
        const a = V.str('a', 1, [[98, 98], [121, 121]]);
        const s = `x ${w} b ${a}z. Then ${w} b y${a}.`;
        const r = pkg.toSentences(s);
        V.observe(r);
        V.check(V.eq(r, [`x ${w} b ${a}z.`, `Then ${w} b y${a}.`]), 'an abbreviation ends no sentence');
        return;
    }
    // sentences of two words, joined by blanks
    const list = V.array(n, i => {
        const a = V.str('a' + i, 1, [[97, 98]]);
        const kind = V.choice('kind' + i, ['plain', 'quoted', 'brackets', 'number', 'chinese']);
        const b = V.str('b' + i, 1, [[120, 121]]);
        const end = V.choice('end' + i, ['.', '?', '!', '...']);
        return kind === 'chinese' ? '中' + a + '国' + (end === '.' ? '。' : end === '...' ? '。' : end === '?' ? '？' : '！') : 'x ' + (kind === 'plain' ? a + b : kind === 'quoted' ? '`' + a + '. ' + b + '` q' + b : kind === 'brackets' ? '(' + a + '. (' + b + ') z) q' + b : a + '1.5') + end;
    });
    const r = pkg.toSentences(list.join(' '));
    V.observe(r);
    V.check(V.eq(r, list), 'every sentence on its own, full stops in quotes, brackets and numbers do not count');
};
