'use strict';
const ANYCH = [[48, 57], [43, 43], [45, 46], [101, 101], [120, 120], [98, 98], [32, 32], [73, 73]];
exports.bounds = [
    'every amount text of 1..8 integer digits (thorough 11) alone, and of 0..2 integer digits with 1..4 decimals; longer amounts of 11..14 digits with 6 arbitrary digits at every position (thorough 8) among nines or zeros; leading zeros, signs; integer numbers in +-9999',
    'refusals: 15 and 16 integer digits (below 2^53), 5 and 6 decimals, every text of 1..3 (thorough 4) characters over digits, signs, point, blank, e, x, b, I'
];
exports.outside = ['amounts given as fractional numbers rather than texts (their decimal text is the language\'s)'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 1; n <= (q ? 8 : 11); n++) out.push({ name: 'int' + n, params: { what: 'text', n, d: 0 } });
    for (let n = 0; n <= 2; n++) for (let d = 1; d <= 4; d++) out.push({ name: `dec${n}-${d}`, params: { what: 'text', n, d } });
    const w = q ? 6 : 8;
    for (const n of q ? [9, 13, 14] : [11, 12, 13, 14]) for (let at = 0; at <= n - w; at += q ? 4 : 2) for (const fill of [9, 0]) out.push({ name: `long${n}-${at}-${fill}`, params: { what: 'text', n, d: 0, at, w, fill } });
    out.push({ name: 'number', params: { what: 'number' } }, { name: 'zeros', params: { what: 'text', n: 3, d: 1, lead: true } });
    for (const s of ['-', '+', ' ']) out.push({ name: 'sign' + s, params: { what: 'text', n: 2, d: 1, sign: s } });
    for (const [n, d] of [[15, 0], [16, 0], [1, 5], [0, 6], [2, 5]]) out.push({ name: `over${n}-${d}`, params: { what: 'over', n, d } });
    for (let n = 1; n <= (q ? 3 : 4); n++) out.push({ name: 'other' + n, params: { what: 'other', n } });
    return out;
};
const DIGIT = ['零', '壹', '贰', '叁', '肆', '伍', '陆', '柒', '捌', '玖'];
const UNIT = ['', '拾', '佰', '仟'];
const PLACE = ['', '万', '亿', '兆'];
const FRACTION = ['角', '分', '厘', '毫'];
// all accepted writings: a zero before a thousands digit, or between a zero
// in the units and the first decimal, may be written or left out
function writings(V, int, dec) {
    const zero = d => V.truth(d === 0);
    let out = [''];
    const put = s => (out = out.map(o => o + s));
    const maybe = s => (out = out.concat(out.map(o => o + s)));
    let i = 0;
    while (i < int.length && zero(int[i])) i++;
    int = int.slice(i);
    let j = dec.length;
    while (j > 0 && zero(dec[j - 1])) j--;
    dec = dec.slice(0, j);
    const n = int.length;
    for (let g = Math.ceil(n / 4) - 1; g >= 0; g--) {
        let any = false;
        for (let k = 3; k >= 0; k--) {
            const p = n - 1 - (g * 4 + k);
            if (p < 0 || zero(int[p])) continue;
            if (p > 0 && zero(int[p - 1])) (k === 3 ? maybe : put)('零');
            put(DIGIT[int[p]] + UNIT[k]);
            any = true;
        }
        if (any) put(PLACE[g]);
    }
    if (n || !dec.length) put((n ? '' : '零') + '元');
    if (!dec.length) put('整');
    for (let k = 0; k < dec.length; k++) {
        if (zero(dec[k])) continue;
        if (k === 0) {
            if (n && zero(int[n - 1])) maybe('零');
        } else if (zero(dec[k - 1]) && (n || dec.slice(0, k).some(d => !zero(d)))) put('零');
        put(DIGIT[dec[k]] + FRACTION[k]);
    }
    if (dec.length === 1) put('整');
    return out;
}
exports.run = (V, { what, n, d, at, w, fill, lead, sign }) => {
    const words = V.load('number/src/amount/amountInWords');
    const same = (r, list) => V.or(...list.filter(x => x.length === r.length).map(x => x === r));
    if (what === 'number') {
        const x = V.int('x', -9999, 9999);
        const r = words(x);
        V.observe(r);
        const m = V.truth(x < 0) ? -x : x;
        const ds = [Math.floor(m / 1000), Math.floor(m / 100) % 10, Math.floor(m / 10) % 10, m % 10];
        V.check(same(r, writings(V, ds, []).map(s => (V.truth(x < 0) ? '负' : '') + s)), 'the words say the number');
        return;
    }
    if (what === 'other') {
        const s = V.str('s', n, ANYCH);
        const r = V.attempt(() => words(s));
        V.observe(r.ok ? r.value : r.error);
        // sign, digits, at most one point, nothing else between blanks
        let a = 0;
        let b = n;
        while (a < b && V.truth(s.charAt(a) === ' ')) a++;
        while (b > a && V.truth(s.charAt(b - 1) === ' ')) b--;
        if (a === b) return;
        if (V.truth(V.or(s.charAt(a) === '+', s.charAt(a) === '-'))) a++;
        let points = 0;
        let digits = 0;
        let other = false;
        for (; a < b; a++) {
            const c = s.charAt(a);
            if (V.truth(c === '.')) points++;
            else if (V.truth(V.and(c >= '0', c <= '9'))) digits++;
            else other = true;
        }
        V.check(r.ok === (!other && points <= 1 && digits > 0), 'exactly decimal amounts are accepted');
        if (!r.ok) V.check(r.error instanceof TypeError, 'refusals are type errors');
        return;
    }
    const ds = V.array(n, i => (at === undefined || (i >= at && i < at + w) ? V.int('d' + i, 0, 9) : fill === 0 && i === 0 ? 1 : fill));
    const fs = V.array(d, i => V.int('f' + i, 0, 9));
    if (n && !lead && (n > 1 || what === 'over')) V.assume(ds[0] > 0);
    if (n === 16) V.assume(ds[0] < 9);
    if (what === 'over' && d > 4) V.assume(fs[d - 1] > 0);
    const text = V.array(n, i => `${ds[i]}`).join('') + (d ? '.' + V.array(d, i => `${fs[i]}`).join('') : '');
    if (what === 'over') {
        const r = V.attempt(() => words(text));
        V.observe(r.ok ? r.value : r.error);
        V.check(!r.ok && r.error instanceof TypeError, 'amounts beyond 14 integer digits or 4 decimals are refused');
        return;
    }
    const opts = { prefix: '人民币', negative: '欠' };
    const r = sign === '-' ? words(sign + text, opts) : words((sign || '') + text + (sign === ' ' ? ' ' : ''));
    V.observe(r);
    V.check(same(r, writings(V, ds, fs).map(s => (sign === '-' ? '人民币欠' : '') + s)), 'the words say exactly the amount');
};
