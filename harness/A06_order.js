'use strict';
exports.bounds = ['lists of 0..5 strings (thorough 6) of length 0..2 over all UTF-16 units (lengths 0, 1, 2, 3, 9, 10 and 100 where only lengths matter)'];
exports.outside = ['locale-dependent ordering (delegated to the platform collation)'];
exports.cases = tier => {
    const out = [];
    const N = tier === 'quick' ? 3 : 4;
    for (let n = 0; n <= N; n++) {
        for (const rev of [false, true]) {
            out.push({ name: `words${n}${rev ? 'r' : ''}`, params: { n, rev, what: 'words' } });
            out.push({ name: `initials${n}${rev ? 'r' : ''}`, params: { n: n + 1, rev, what: 'initials' } });
        }
    }
    for (let n = 0; n <= N + 1; n++) {
        out.push({ name: `lengths${n}`, params: { n, what: 'lengths' } });
        out.push({ name: `extreme${n}`, params: { n, what: 'extreme' } });
    }
    return out;
};
exports.run = (V, { n, rev, what }) => {
    const lib = V.load('array');
    if (what === 'words' || what === 'initials') {
        const a = V.array(n, i => (what === 'words' ? V.strUpTo('s' + i, 0, 2) : V.str('s' + i, V.size('l' + i, 1, 1))));
        const b = a.slice();
        const f = what === 'words' ? lib.sortByEng : lib.sortByEngInitials;
        const r = rev ? f(b, true) : f(b);
        V.observe(r);
        V.check(r.length === n, 'sorting keeps the number of words');
        for (let i = 1; i < n; i++) V.check(rev ? r[i - 1] >= r[i] : r[i - 1] <= r[i], 'the words are in order');
        // permutation: every value occurs as often before as after
        for (let i = 0; i < n; i++) {
            let x = 0;
            let y = 0;
            for (let j = 0; j < n; j++) {
                x = x + V.ite(a[j] === a[i], 1, 0);
                y = y + V.ite(V.is(r[j], a[i]), 1, 0);
            }
            V.check(x === y, 'sorting keeps the words');
        }
        return;
    }
    const lens = V.array(n, i => V.choice('l' + i, n > 3 ? [0, 2, 9, 10] : [0, 1, 2, 3, 9, 10, 100]));
    const a = lens.map((l, i) => V.str('s' + i, l, [[97, 98]]));
    if (what === 'lengths') {
        const r = lib.sortToIndexes(a);
        V.observe(r);
        V.check(r.length === n, 'one index per line');
        V.check(new Set(r).size === n && r.every(i => Number.isInteger(i) && i >= 0 && i < n), 'every index appears once');
        for (let i = 1; i < n; i++) V.check(lens[r[i - 1]] < lens[r[i]] || (lens[r[i - 1]] === lens[r[i]] && r[i - 1] < r[i]), 'indexes go from the shortest line to the longest, equal lengths in input order');
        return;
    }
    const mx = lib.maxLengthIndex(a);
    const mn = lib.minLengthIndex(a);
    V.observe([mx, mn]);
    if (n === 0) {
        V.check(mx === null && mn === null, 'no index for an empty list');
        return;
    }
    V.check(lens.every((l, i) => l < lens[mx] || (l === lens[mx] && i >= mx)), 'the first of the longest lines is found');
    V.check(lens.every((l, i) => l > lens[mn] || (l === lens[mn] && i >= mn)), 'the first of the shortest lines is found');
};
