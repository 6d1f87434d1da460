'use strict';
// characters: a name/value letter, the separators, a quote, blanks, a newline
const HEAD = [[9, 10], [32, 32], [34, 34], [59, 59], [61, 61], [92, 92], [97, 98]];
const TOKEN = [[33, 33], [35, 39], [42, 43], [45, 46], [48, 57], [65, 90], [94, 122], [124, 124], [126, 126]];
const SETS = { bmp: [[0, 0xffff]], ascii: [[0, 127]], latin: [[1, 0x2ff]], pair: [[0xd800, 0xdfff]] };
exports.bounds = [
    'parse: every header text of 1..5 characters (thorough 7) over letters, "=", ";", quote, backslash, blank, tab and newline, with and without a decoder',
    'round trip: 1..2 cookies, token names of 1..2 characters, values of one arbitrary BMP character, 2 ASCII characters, or (thorough) any low surrogate after three sample high ones, or 3 ASCII characters, default encoding',
    'attributes: any combination of maximum age (any integer or absent), domain, path, flags and same-site policy'
];
exports.outside = ['a value that is a single quote character', 'names that collide with inherited object properties', 'longer headers'];
exports.cases = tier => {
    const out = [];
    for (let n = 1; n <= (tier === 'quick' ? 5 : 7); n++) for (const dec of [false, true]) if (!dec || n <= 4) out.push({ name: `parse${n}${dec ? 'd' : ''}`, params: { what: 'parse', n, dec } });
    for (const [k, l, set] of tier === 'quick' ? [[1, 1, 'bmp'], [1, 2, 'ascii'], [2, 1, 'ascii']] : [[1, 1, 'bmp'], [1, 2, 'pair'], [1, 3, 'ascii'], [2, 1, 'ascii'], [2, 2, 'ascii'], [1, 2, 'latin']]) out.push({ name: `round${k}-${l}-${set}`, params: { what: 'round', k, l, set } });
    for (let i = 0; i < 4; i++) out.push({ name: 'attr' + i, params: { what: 'attr', i } });
    out.push({ name: 'refuse', params: { what: 'refuse' } }, { name: 'special', params: { what: 'special' } });
    return out;
};
// reference: segments between semicolons, split at the first equals sign,
// blanks trimmed, one pair of surrounding quotes removed
function reference(V, u, dec) {
    const segs = [[]];
    for (let i = 0; i < u.length; i++) {
        const c = u.charAt(i);
        if (V.truth(c === ';')) segs.push([]);
        else segs[segs.length - 1].push(c);
    }
    const blank = c => V.truth(V.or(c === ' ', c === '\t', c === '\n'));
    const trim = a => {
        let i = 0;
        let j = a.length;
        while (i < j && blank(a[i])) i++;
        while (j > i && blank(a[j - 1])) j--;
        return a.slice(i, j);
    };
    const out = [];
    for (const s of segs) {
        const p = s.findIndex(c => V.truth(c === '='));
        if (p < 0) continue;
        const name = trim(s.slice(0, p)).join('');
        let v = trim(s.slice(p + 1));
        if (v.length >= 1 && V.truth(v[0] === '"') && V.truth(v[v.length - 1] === '"')) {
            V.assume(v.length > 1);
            v = trim(v.slice(1, -1));
        }
        const val = dec ? '<' + v.join('') + '>' : v.join('');
        const old = out.find(e => V.truth(e[0] === name));
        if (old) old[1] = val;
        else out.push([name, val]);
    }
    return out;
}
exports.run = (V, p) => {
    const { createCookie, parseCookie } = V.load('cookie');
    if (p.what === 'parse') {
        const h = V.str('h', p.n, HEAD);
        const want = reference(V, h, p.dec);
        const r = V.attempt(() => (p.dec ? parseCookie(h, v => '<' + v + '>') : parseCookie(h)));
        V.observe(r.ok ? r.value : r.error);
        let hasEq = false;
        for (let i = 0; i < p.n; i++) hasEq = V.or(hasEq, h.charAt(i) === '=');
        V.check(V.iff(hasEq, r.ok), 'refused exactly when there is no name=value pair at all');
        if (!r.ok) return;
        const got = Object.entries(r.value);
        V.check(got.length === want.length, 'one entry per distinct name');
        for (const [k, v] of want) V.check(got.some(e => V.truth(V.and(e[0] === k, e[1] === v))), 'every pair is read at its first equals sign, later pairs win');
        return;
    }
    if (p.what === 'special') {
        const names = ['a', '__proto__', 'constructor', 'hasOwnProperty'];
        const pairs = [0, 1, 2].slice(0, V.size('n', 1, 3)).map(i => [V.choice('k' + i, names), V.strUpTo('v' + i, 0, 2, [[48, 57], [97, 98]])]);
        const r = parseCookie(pairs.map(([k, v]) => k + '=' + v).join('; '));
        const last = new Map(pairs);
        V.observe(Object.keys(r));
        V.check(Object.getPrototypeOf(r) === Object.prototype && Object.keys(r).length === last.size, 'one entry per distinct name');
        for (const [k, v] of last) V.check(V.is(Object.getOwnPropertyDescriptor(r, k).value, v), 'cookies keep their names, whatever they are called');
        return;
    }
    if (p.what === 'round') {
        const names = V.array(p.k, i => V.strUpTo('n' + i, 1, p.k === 1 ? 2 : 1, TOKEN));
        const vals = V.array(p.k, i => p.set === 'pair' ? V.choice('hi' + i, ['\ud800', '\ud83d', '\udbff']) + V.str('v' + i, 1, [[0xdc00, 0xdfff]]) : V.str('v' + i, p.l, SETS[p.set]));
        if (p.k === 2) V.assume(names[0] !== names[1]);
        for (const v of vals) for (let i = 0; i < p.l; i++) {
            const hi = V.and(v[i] >= '\ud800', v[i] <= '\udbff');
            const lo = V.and(v[i] >= '\udc00', v[i] <= '\udfff');
            const prevHi = i > 0 ? V.and(v[i - 1] >= '\ud800', v[i - 1] <= '\udbff') : false;
            V.assume(V.iff(lo, prevHi));
            if (i === p.l - 1) V.assume(V.not(hi));
        }
        const head = names.map((n, i) => createCookie(n, vals[i], {})).join('; ');
        const back = parseCookie(head, v => decodeURIComponent(v));
        V.check(Object.keys(back).length === p.k, 'reading back gives one entry per cookie written');
        for (let i = 0; i < p.k; i++) V.check(V.is(back[names[i]], vals[i]), 'reading back a written cookie gives the same value');
        V.observe(back);
        return;
    }
    if (p.what === 'refuse') {
        const n = V.strUpTo('n', 0, 2);
        const v = V.strUpTo('v', 0, 2);
        const id = x => x;
        const legal = s => {
            let ok = s.length > 0;
            for (let i = 0; i < s.length; i++) ok = V.and(ok, V.or(s[i] === '\t', V.and(s[i] >= ' ', s[i] <= '~'), V.and(s[i] >= '\x80', s[i] <= '\xff')));
            return ok;
        };
        const r = V.attempt(() => createCookie(n, v, { encode: id }));
        V.observe(r.ok ? r.value : r.error);
        V.check(V.iff(r.ok, V.and(legal(n), legal(v))), 'a name or encoded value with illegal characters is refused, a legal one is not');
        if (r.ok) V.check(r.value === n + '=' + v, 'a cookie without options is just name=value');
        return;
    }
    const o = {};
    const want = ['k=v'];
    if (p.i === 0) {
        const has = V.choice('has', [true, false]);
        const m = V.int('age', -1000000, 1000000);
        if (has) {
            o.maxAge = m;
            want.push(`Max-Age=${m}`);
        }
        const hs = V.choice('sec', [undefined, true, false]);
        o.secure = hs;
        if (hs) want.push('Secure');
    } else if (p.i === 1) {
        const d = V.strUpTo('d', 0, 2, [[33, 58], [60, 126]]);
        const q = V.strUpTo('q', 0, 2, [[33, 58], [60, 126]]);
        o.domain = d;
        o.path = q;
        if (d.length) want.push('Domain=' + d);
        if (q.length) want.push('Path=' + q);
    } else if (p.i === 2) {
        const e = V.choice('e', [undefined, new Date(0), new Date(1700000000000)]);
        if (e) {
            o.expires = e;
            want.push('Expires=' + e.toUTCString());
        }
        const h = V.choice('h', [undefined, true, false]);
        o.httpOnly = h;
        if (h) want.push('HttpOnly');
        const s = V.choice('s', [undefined, true, false]);
        o.secure = s;
        if (s) want.push('Secure');
    } else {
        const t = { true: 'Strict', lax: 'Lax', strict: 'Strict', none: 'None', LAX: 'Lax', undefined: '' };
        const k = V.choice('k', [true, 'lax', 'strict', 'none', 'LAX', undefined]);
        o.sameSite = k;
        if (t[String(k)]) want.push('SameSite=' + t[String(k)]);
        const m = V.choice('m', [undefined, 0, 10.7]);
        o.maxAge = m;
        if (m !== undefined) want.splice(1, 0, 'Max-Age=' + (m ? 10 : 0));
    }
    const c = createCookie('k', 'v', o);
    V.observe(c);
    V.check(V.is(c, want.join('; ')), 'each given attribute appears once and no other attribute does');
};
