'use strict';
exports.bounds = ['every digit text of 1..9 digits (thorough 15), optional sign, 0..2 (thorough 4) decimals; every group size 1..5; every delimiter of 1..2 characters; integers in +-10^7; every double as group size; texts that are not numbers, of up to 3 characters'];
exports.outside = ['hexadecimal and exponent notation, blanks around the number', 'fractional numbers given as numbers rather than texts'];
exports.cases = tier => {
    const out = [];
    const q = tier === 'quick';
    for (let n = 1; n <= (q ? 9 : 15); n++) for (const d of q ? [0, 2] : [0, 1, 2, 4]) for (const sign of ['', '-']) {
        if (sign && n > 4 && d) continue;
        out.push({ name: `${sign}${n}.${d}`, params: { n, d, sign } });
    }
    for (const delim of [1, 2]) out.push({ name: 'delim' + delim, params: { n: 5, d: 1, sign: '', delim } });
    out.push({ name: 'default', params: { n: 7, d: 0, sign: '', dflt: true } }, { name: 'number', params: { what: 'number' } }, { name: 'size', params: { what: 'size' } });
    for (let n = 1; n <= 3; n++) out.push({ name: 'refuse' + n, params: { what: 'refuse', n } });
    return out;
};
// groups of `size` counted from the right, joined by the delimiter
const group = (ds, size, delim) => {
    let out = '';
    ds.forEach((c, i) => (out += (i && (ds.length - i) % size === 0 ? delim : '') + c));
    return out;
};
exports.run = (V, { what, n, d, sign, delim, dflt }) => {
    const { withDelimiter } = V.load('number');
    if (what === 'size') {
        const c = V.fp('c');
        V.assume(V.not(V.and(c >= 1, Math.floor(c) === c, c < Infinity)));
        const r = V.attempt(() => withDelimiter(1234, { capacity: c }));
        V.check(!r.ok && r.error instanceof TypeError, 'group sizes below one and fractions are refused');
        return;
    }
    if (what === 'refuse') {
        const s = V.str('s', n, [[48, 49], [44, 46], [97, 97], [32, 32]]);
        const r = V.attempt(() => withDelimiter(s));
        const x = Number(s);
        V.observe(r.ok ? r.value : r.error);
        V.check(r.ok === V.truth(x === x), 'refused exactly when not a number');
        if (!r.ok) V.check(r.error instanceof TypeError, 'a refusal is a type error');
        return;
    }
    if (what === 'number') {
        const x = V.int('x', -1e7, 1e7);
        const r = withDelimiter(x);
        V.observe(r);
        V.check(r === (V.truth(x < 0) ? '-' : '') + group([...`${V.truth(x < 0) ? -x : x}`], 3, ','), 'thousands separated by commas');
        return;
    }
    const ds = V.array(n, i => V.str('d' + i, 1, [[48, 57]]));
    const fs = V.array(d, i => V.str('f' + i, 1, [[48, 57]]));
    const size = dflt ? 3 : delim ? V.size('size', 1, 3) : V.size('size', 1, 5);
    const sep = delim ? V.str('delim', delim) : ',';
    const opts = { capacity: size };
    if (delim) opts.delimiter = sep;
    const tail = d ? '.' + fs.join('') : '';
    const r = dflt ? withDelimiter(ds.join('') + tail) : withDelimiter(sign + ds.join('') + tail, opts);
    V.observe(r);
    V.check(r === sign + group(ds, size, sep) + tail, 'every group from the right has the full size and nothing else changes');
};
