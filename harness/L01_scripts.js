'use strict';
// The oracle is the character database of the engine, as lists of ranges (tools/unicode.js).
const unicode = require('./lib/unicode.json');
const R = (src, from = 0) => (from ? unicode.pairs : unicode.basic)[src];
const clip = (ranges, blocks) => blocks.flatMap(([from, to]) => ranges.filter(([a, b]) => b >= from && a <= to).map(([a, b]) => [Math.max(a, from), Math.min(b, to)]));
// added to Unicode after the version the tables were made from: nothing is said about them
const LATER = [[0x4db6, 0x4dbf], [0x9ff0, 0x9fff], [0x61d, 0x61d], [0x1b4e, 0x1b4f], [0x1b7d, 0x1b7f], [0x2e50, 0x2e5d]];
const LATER_PAIRS = [[0x2a6d7, 0x2a6df], [0x2b735, 0x2b73f], [0x2cea2, 0x2ceaf], [0x2ebe1, 0x2f7ff], [0x2fa1e, 0x10ffff]];
// what a table must hold, and what it may hold besides
const TABLES = {
    blank: ['\\p{Z}', []],
    ascii: ['[\\x00-\\x7f]', []],
    unifiedIdeograph: ['\\p{Unified_Ideograph}', []],
    han: ['\\p{Script=Han}', [[0x2e9a, 0x2e9a], [0x3200, 0x33ff]]],
    hiragana: ['\\p{Script=Hiragana}', '\\p{Script_Extensions=Hiragana}'],
    katakana: ['\\p{Script=Katakana}', '\\p{Script_Extensions=Katakana}'],
    japanese: ['[\\p{Script=Han}\\p{Script=Hiragana}\\p{Script=Katakana}]', []],
    korean: ['\\p{Script=Hangul}', []],
    punctuation: ['\\p{P}', [[0x24, 0x24], [0x3c, 0x3c], [0x3e, 0x3e], [0x5e, 0x5e], [0x60, 0x60], [0x7e, 0x7e], [0xff5e, 0xff5e]]],
    control: ['\\p{Cc}', [[0, 0x1f], [0x7f, 0x9f], [0xad, 0xad], [0x378, 0x2fff], [0x3040, 0x3040], [0x3097, 0x3098], [0x3100, 0x3bff], [0x4db6, 0x4dff], [0x9fa6, 0xabff], [0xd7a4, 0xffff]]],
    chkPunctuation: null
};
const BLOCKS = [[0x2000, 0x206f], [0x2e00, 0x2e7f], [0x3000, 0x303f], [0xfe10, 0xfe1f], [0xfe30, 0xfe4f], [0xff00, 0xffef]];
exports.bounds = [
    'each table against all 65536 single code units (lone surrogates included)',
    'inChinese, inJapanese and inChkPunctuation for every text of up to 3 (thorough 4) code units, each any of 65536, pairs of surrogates included'
];
exports.outside = [
    'characters added to Unicode after version 12 (the tables name that version); kana outside the basic plane; the control table (which holds unassigned characters) is only held against Latin letters, kana, ideographs and Hangul',
    'inJapanese: ideographs outside the basic plane, which its table does not claim'
];
exports.cases = tier => {
    const out = [];
    for (const t of Object.keys(TABLES)) out.push({ name: 'table-' + t, params: { what: 'table', t } });
    for (let n = 0; n <= (tier === 'quick' ? 3 : 4); n++) for (const f of ['zh', 'kana', 'ja', 'punct']) out.push({ name: f + n, params: { what: f, n } });
    return out;
};
exports.mustReach = () => ['in', 'out', 'pair', 'kana'];
exports.run = (V, { what, t, n }) => {
    const pkg = V.load('regexp');
    const within = (c, ranges) => V.or(false, ...ranges.map(([a, b]) => (a === b ? c === a : V.and(c >= a, c <= b))));
    if (what === 'table') {
        const c = V.str('c', 1, [[0, 65535]]);
        const k = c.charCodeAt(0);
        V.assume(V.not(within(k, LATER)));
        let must, may;
        if (t === 'chkPunctuation') {
            must = clip(R('\\p{P}'), BLOCKS);
            may = BLOCKS;
        } else {
            must = R(TABLES[t][0]);
            // what Unicode has assigned since may be in the table of controls
            may = typeof TABLES[t][1] === 'string' ? R(TABLES[t][1]) : TABLES[t][1];
            if (t === 'control') V.assume(V.not(V.and(k >= 0xd800, k <= 0xdfff)));
        }
        const hit = V.truth(new RegExp(pkg.source[t]).test(c));
        V.cover(hit ? 'in' : 'out');
        if (hit) V.check(V.or(within(k, must), within(k, may)), 'a table holds nothing else', t);
        else V.check(V.not(within(k, must)), 'a table holds all characters of its kind', t);
        return;
    }
    const s = V.str('s', n, [[0, 65535]]);
    const codes = Array.from({ length: n }, (_, i) => s.charCodeAt(i));
    for (const k of codes) V.assume(V.not(within(k, LATER)));
    const pairs = [];
    for (let i = 0; i + 1 < n; i++) {
        const isPair = V.and(codes[i] >= 0xd800, codes[i] <= 0xdbff, codes[i + 1] >= 0xdc00, codes[i + 1] <= 0xdfff);
        const cp = (codes[i] - 0xd800) * 1024 + (codes[i + 1] - 0xdc00) + 0x10000;
        V.assume(V.not(V.and(isPair, within(cp, LATER_PAIRS))));
        pairs.push([isPair, cp]);
    }
    const any = ranges => V.or(false, ...codes.map(k => within(k, ranges)));
    const ideograph = V.or(any(R('\\p{Unified_Ideograph}')), ...pairs.map(([p, cp]) => V.and(p, within(cp, R('\\p{Unified_Ideograph}', 0x10000)))));
    if (what === 'zh') {
        const hit = V.truth(pkg.inChinese(s));
        V.cover(hit ? 'in' : 'out');
        if (hit && n > 1 && !V.truth(any(R('\\p{Unified_Ideograph}')))) V.cover('pair');
        V.check(V.is(hit, ideograph), 'Chinese exactly when an ideograph is there');
        V.check(V.is(pkg.inChinese(s, false), ideograph), 'Chinese exactly when an ideograph is there');
    } else if (what === 'kana') {
        const hit = V.truth(pkg.inChinese(s, true));
        const kana = any([...R('\\p{Script=Hiragana}'), ...R('\\p{Script=Katakana}')]);
        const maybe = any([...R('\\p{Script_Extensions=Hiragana}'), ...R('\\p{Script_Extensions=Katakana}')]);
        if (hit) V.check(V.and(ideograph, V.not(kana)), 'no kana in a text that passes for Chinese');
        else {
            if (n && V.truth(V.and(ideograph, kana))) V.cover('kana');
            V.check(V.or(V.not(ideograph), kana, maybe), 'Chinese without kana passes');
        }
    } else if (what === 'ja') {
        const hit = V.truth(pkg.inJapanese(s));
        V.cover(hit ? 'in' : 'out');
        V.check(V.is(hit, any(R(TABLES.japanese[0]))), 'Japanese exactly when an ideograph or kana is there');
    } else {
        const hit = V.truth(pkg.inChkPunctuation(s));
        const must = clip(R('\\p{P}'), BLOCKS);
        if (hit) V.check(any(BLOCKS), 'a mark is only seen where one of the blocks has a character');
        else V.check(V.not(any(must)), 'every mark is seen');
    }
};
