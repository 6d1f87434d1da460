'use strict';
// Writes harness/lib/unicode.json: lists of ranges of the properties of
// characters that harness/L01_scripts.js uses as its oracle, from the character
// database of Node (Unicode 15 or later).
const fs = require('fs');
const path = require('path');
const rangesOf = (src, from, to) => {
    const re = new RegExp(src, 'u');
    const out = [];
    for (let c = from; c <= to; c++) {
        if (c >= 0xd800 && c <= 0xdfff) continue;
        if (!re.test(String.fromCodePoint(c))) continue;
        const last = out[out.length - 1];
        if (last && (last[1] === c - 1 || (c === 0xe000 && last[1] === 0xd7ff))) last[1] = c;
        else out.push([c, c]);
    }
    return out;
};
const basic = ['\\p{Z}', '[\\x00-\\x7f]', '\\p{Unified_Ideograph}', '\\p{Script=Han}', '\\p{Script=Hiragana}', '\\p{Script_Extensions=Hiragana}', '\\p{Script=Katakana}', '\\p{Script_Extensions=Katakana}', '[\\p{Script=Han}\\p{Script=Hiragana}\\p{Script=Katakana}]', '\\p{Script=Hangul}', '\\p{P}', '\\p{Cc}'];
const out = { basic: {}, pairs: {} };
for (const p of basic) out.basic[p] = rangesOf(p, 0, 0xffff);
out.pairs['\\p{Unified_Ideograph}'] = rangesOf('\\p{Unified_Ideograph}', 0x10000, 0x10ffff);
fs.writeFileSync(path.join(__dirname, '..', 'harness', 'lib', 'unicode.json'), JSON.stringify(out) + '\n');
