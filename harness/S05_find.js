'use strict';
const CH = [[46, 46], [65, 66], [97, 98], [0xc9, 0xc9], [0xe9, 0xe9]];
exports.bounds = ['texts of 0..4 (thorough 5) characters and up to two pieces of 0..2 characters over letters of both cases, é, É and the point; positions -1..6, 1.5, NaN or none; with and without regard to case'];
exports.outside = ['characters whose upper and lower case have different lengths'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 3 : 5); n++) for (const f of ['frontOf', 'behindOf', 'notStarts', 'startsSlice']) for (const cs of [undefined, false]) out.push({ name: f + n + (cs === false ? 'i' : ''), params: { f, n, cs } });
    return out;
};
exports.mustReach = () => ['found', 'missing', 'refused', 'preserve'];
const low = c => (c === 'A' ? 'a' : c === 'B' ? 'b' : c === 'É' ? 'é' : c);
exports.run = (V, { f, n, cs }) => {
    const fn = V.load('string')[f];
    const s = V.str('s', n, CH);
    const one = f === 'startsSlice';
    const count = one ? 1 : V.size('count', 0, 2);
    const piece = i => (cs === false ? V.choice('c' + i, i ? ['b', 'É'] : ['', 'a', 'A', '.', 'aB', 'é.', 'bb']) : V.strUpTo('c' + i, 0, i ? 1 : 2, i ? [[97, 98]] : CH));
    const chunks = V.array(count, piece);
    const odd = V.choice('odd' + (n === 2 && count < 2 ? 'all' : ''), ['none', 'int', ...(n === 2 && count < 2 ? [1.5, NaN, '1', null] : [])]);
    const pos = odd === 'none' ? undefined : odd === 'int' ? V.int('pos', -1, n + 2) : odd;
    const valid = pos === undefined || (odd === 'int' && V.truth(pos >= 0));
    // the position counts from here on
    let p = 0;
    if (odd === 'int') for (p = 0; p < n + 2 && !V.truth(V.or(p === pos, pos < 0)); p++);
    const sameAt = (c, at) => {
        if (at < 0 || at + c.length > n) return false;
        return V.and(true, ...Array.from({ length: c.length }, (_, i) => {
            const x = s.charAt(at + i);
            const y = c.charAt(i);
            return cs === false ? V.or(x === low(y), x === { a: 'A', b: 'B', é: 'É' }[low(y)]) : x === y;
        }));
    };
    const within = (c, from, to) => V.or(false, ...Array.from({ length: n + 1 }, (_, i) => i).filter(i => i >= from && i + c.length <= to).map(i => sameAt(c, i)));
    const preserve = one && V.choice('preserve', [undefined, false, true]);
    if (preserve) V.cover('preserve');
    const o = {};
    if (pos !== undefined) o.position = pos;
    if (cs === false) o.caseSensitivity = false;
    else if (V.truth(V.bool('say'))) o.caseSensitivity = true;
    if (preserve !== undefined && one) o.preserve = preserve;
    const r = V.attempt(() => (one ? fn(s, chunks[0], o) : fn(s, chunks, o)));
    V.observe(r.ok ? r.value : 'refused');
    const starts = f === 'notStarts' || one;
    const empty = !one && (n === 0 || count === 0);
    if (starts && !empty && (odd === 'none' ? false : !valid || (odd === 'int' && p > n))) {
        V.cover('refused');
        V.check(!r.ok && r.error.name === 'TypeError', 'positions outside the text are refused with a type error');
        return;
    }
    V.check(r.ok, 'other positions are accepted');
    if (one) {
        const hit = V.truth(sameAt(chunks[0], p));
        V.cover(hit ? 'found' : 'missing');
        V.check(V.eq(r.value, hit ? (preserve ? s.slice(0, p) : '') + s.slice(p + chunks[0].length) : s), 'the rest behind the piece, or the text as it was');
        return;
    }
    let want;
    if (empty) want = f === 'notStarts';
    else if (f === 'notStarts') want = V.not(V.or(...chunks.map(c => sameAt(c, p))));
    else if (f === 'frontOf') want = V.or(...chunks.map(c => within(c, 0, odd === 'none' || !valid || p >= n ? n : p + 1)));
    else if (odd !== 'none' && !valid) return; // behindOf: positions that are no indexes are not documented
    else want = V.or(...chunks.map(c => (p > n ? c.length === 0 : within(c, p, n))));
    V.cover(V.truth(want) ? 'found' : 'missing');
    V.check(V.eq(r.value, want), 'whether a piece is found');
};
