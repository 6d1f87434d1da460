'use strict';
const CH = [[48, 49], [97, 98], [32, 32], [45, 45]];
exports.bounds = ['texts of 0..4 (thorough 5) characters over digits, letters, blank and hyphen; lists of up to 2 (thorough 3) of eight patterns, global ones, empty matches and named groups included; replacements by texts with $ patterns and by functions'];
exports.outside = ['sticky patterns'];
const PATS = [/\d+/, /[a-b]+/, /\w/, /-/, /(?<n>a)(b)?/, / */, /$/, /b-a/];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 4 : 5); n++) out.push({ name: 'split' + n, params: { what: 'split', n } }, { name: 'sub' + n, params: { what: 'sub', n } });
    for (let n = 0; n <= 3; n++) out.push({ name: 'order' + n, params: { what: 'order', n, m: q ? 2 : 3 } });
    for (let n = 0; n <= (q ? 2 : 3); n++) out.push({ name: 'multi' + n, params: { what: 'multi', n, m: q ? 2 : 3 } });
    return out;
};
exports.mustReach = () => ['matched', 'none', 'blank added', 'global'];
exports.run = (V, { what, n, m }) => {
    const pkg = V.load('string');
    const s = V.str('s', n, what === 'sub' ? [[49, 49], [97, 97], [32, 32], [44, 44], [0x4e2d, 0x4e2d], [0x3002, 0x3002]] : CH);
    if (what === 'split') {
        const re = V.choice('re', PATS);
        const r = pkg.matchSplit(s, re);
        V.observe(r);
        // the first match, leftmost first
        const k = n ? s.search(re) : -1;
        if (k < 0) {
            V.cover('none');
            V.check(r.length === 0, 'nothing without a match');
        } else {
            V.cover('matched');
            V.check(r.length === 3, 'before, match and behind');
            V.check(V.eq(r[0] + r[1] + r[2], s), 'together they are the text');
            V.check(V.is(r[0].length, k) && V.truth(V.eq(r[1], re.exec(s)[0])), 'the leftmost match');
        }
        V.check(pkg.matchSplit(s, /\d/g).length === 0 && pkg.matchSplit(s, 'a').length === 0, 'patterns that find more than one match, or are none, split nothing');
        return;
    }
    if (what === 'order') {
        const count = V.size('count', 0, m);
        const res = V.array(count, i => V.choice('re' + i, PATS.concat([/a/g])));
        const r = pkg.matchOrder(s, res);
        const hit = n ? res.find(x => s.search(x) >= 0) : undefined;
        V.observe(r === null ? null : r[0]);
        if (!hit) {
            V.cover('none');
            V.check(r === null, 'nothing when no pattern matches');
        } else {
            V.cover('matched');
            if (hit.global) V.cover('global');
            const w = s.match(hit);
            V.check(r !== null && r.length === w.length && V.truth(V.and(true, ...w.map((x, i) => V.eq(r[i], x)))) && V.truth(V.eq(r.index, w.index)), 'what the first matching pattern finds');
        }
        return;
    }
    if (what === 'multi') {
        const rules = V.array(V.size('count', 0, m), i => [V.choice('m' + i, ['a', '', '-', /a/, /a/g, /\d|b/g, /(a)(b)?/]), V.choice('r' + i, ['x', '$&$&', '$$', 'fn'])]);
        const fn = (...a) => '<' + a[0] + '>';
        let want = s;
        for (const [a, b] of rules) {
            // reference: matches from left to right
            const out = [];
            let at = 0;
            const repl = t => (b === 'fn' ? '<' + t + '>' : b === '$&$&' ? t + t : b === '$$' ? '$' : b);
            for (let i = 0; i <= want.length; i++) {
                let len = -1;
                const is = c => i < want.length && V.truth(want.charAt(i) === c);
                if (typeof a === 'string') len = a === '' || is(a) ? a.length : -1;
                else if (a.source === 'a') len = is('a') ? 1 : -1;
                else if (a.source === '(a)(b)?') len = is('a') ? (i + 1 < want.length && V.truth(want.charAt(i + 1) === 'b') ? 2 : 1) : -1;
                else len = i < want.length && V.truth(V.or(V.and(want.charAt(i) >= '0', want.charAt(i) <= '9'), want.charAt(i) === 'b')) ? 1 : -1;
                if (len < 0) continue;
                out.push(want.slice(at, i) + repl(want.slice(i, i + len)));
                at = i + len;
                i = at - 1;
                if (typeof a === 'string' || !a.global) break;
            }
            want = out.join('') + want.slice(at);
        }
        const use = rules.map(([a, b]) => [a, b === 'fn' ? fn : b]);
        const r = pkg.multiReplace(s, use);
        V.observe(r);
        V.check(V.eq(r, want), 'the rules are applied one after the other');
        V.check(V.eq(pkg.multiReplace(s, use.map(([match, replacer]) => ({ match, replacer }))), r), 'rules written as objects');
        return;
    }
    const re = V.choice('re', [/\d/, /\d/g, /\d+/g, /(?<d>\d)/g, /1(a)?/]);
    const wrap = V.choice('wrap', [undefined, v => '[' + v + ']']);
    const pun = c => V.or(c === ' ', c === ',', c === '。');
    const r = pkg.subSpaces(s, re, wrap);
    V.observe(r);
    let want = '';
    for (let i = 0; i < n; ) {
        if (!V.truth(s.charAt(i) === '1')) {
            want += s.charAt(i++);
            continue;
        }
        let e = i + 1;
        if (re.source === '\\d+') while (e < n && V.truth(s.charAt(e) === '1')) e++;
        if (re.source === '1(a)?' && e < n && V.truth(s.charAt(e) === 'a')) e++;
        const t = wrap ? '[' + s.slice(i, e) + ']' : s.slice(i, e);
        const left = i > 0 && !V.truth(pun(s.charAt(i - 1)));
        const right = e < n && !V.truth(pun(s.charAt(e)));
        if (left) V.cover('blank added');
        want += (left ? ' ' : '') + t + (right ? ' ' : '');
        i = e;
        if (!re.global) {
            want += s.slice(i);
            break;
        }
    }
    V.check(V.eq(r, want), 'blanks are added exactly next to characters that are no blanks and no punctuation');
};
