'use strict';
exports.bounds = [
    'half-width: every text of 1..3 (thorough 4) code units, all 65536 values each, without typesetting',
    'typesetting: every text of 1..3 (thorough 4) characters over Chinese characters, letters, digits, blank and full-width comma, basic and enhanced rules'
];
exports.outside = ['typesetting of punctuation other than the listed ones', 'longer texts'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 1; n <= (q ? 3 : 4); n++) out.push({ name: 'half' + n, params: { what: 'half', n } });
    for (let n = 0; n <= (q ? 3 : 4); n++) for (const enhance of [false, true]) out.push({ name: (enhance ? 'enhanced' : 'basic') + n, params: { what: 'space', n, enhance } });
    return out;
};
exports.mustReach = () => ['full width', 'kept', 'blank added'];
exports.run = (V, { what, n, enhance }) => {
    if (what === 'half') {
        const half = V.load('string/src/corrector/basic/fullWith');
        const s = V.str('s', n, [[0, 65535]]);
        const r = half(s);
        V.observe(r.length);
        V.check(r.length === n, 'one character each');
        for (let i = 0; i < n; i++) {
            const c = s.charCodeAt(i);
            const d = r.charCodeAt(i);
            const kept = V.or(...[0xff0c, 0xff1f, 0xff01, 0xff1a, 0xff1b, 0xff08, 0xff09].map(k => c === k));
            const full = V.and(c >= 0xff01, c <= 0xff5e, V.not(kept));
            if (V.truth(full)) V.cover('full width');
            else if (V.truth(kept)) V.cover('kept');
            V.check(V.is(d, V.ite(full, c - 65248, V.ite(c === 0x3000, 32, c))), 'full-width characters become half-width, Chinese punctuation and all else stays');
        }
        return;
    }
    const { corrector } = V.load('string');
    const s = V.str('s', n, [[32, 32], [49, 49], [97, 98], [0x4e2d, 0x4e2e], [0xff0c, 0xff0c]]);
    const r = corrector(s, { enhanceRule: enhance });
    V.observe(r);
    const bare = t => {
        let out = '';
        for (let i = 0; i < t.length; i++) if (!V.truth(t.charAt(i) === ' ')) out += t.charAt(i);
        return out;
    };
    const zh = c => V.truth(V.and(c.charCodeAt(0) >= 0x4e00, c.charCodeAt(0) <= 0x9fff));
    const wd = c => V.truth(V.or(c === '1', c === 'a', c === 'b'));
    // blanks between Chinese characters stand for a comma in the enhanced rules
    let gap = false;
    let last = '';
    for (let i = 0; i < n; i++) {
        const c = s.charAt(i);
        if (V.truth(c === ' ')) continue;
        if (last && i && zh(c) && zh(last) && V.truth(s.charAt(i - 1) === ' ')) gap = true;
        last = c;
    }
    if (!gap) V.check(V.eq(bare(r), bare(s)), 'no character but blanks is added, lost or moved');
    for (let i = 0; i + 1 < r.length; i++) {
        const [a, b] = [r.charAt(i), r.charAt(i + 1)];
        V.check(!((zh(a) && wd(b)) || (wd(a) && zh(b))), 'a blank between Chinese and other text');
    }
    if (r.length > s.length) V.cover('blank added');
    V.check(r.length === 0 || (!V.truth(r.charAt(0) === ' ') && !V.truth(r.charAt(r.length - 1) === ' ')), 'no blanks at the ends');
    V.check(V.eq(corrector(r, { enhanceRule: enhance }), r), 'a corrected text stays as it is');
};
