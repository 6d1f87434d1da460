'use strict';
exports.bounds = [
    'splitting: 1..3 set-cookie texts (thorough 4), each name=value with one-character names and values over separator-free ASCII, followed by any choice of attributes (dates with commas included), joined by a comma with or without blanks',
    'parsing: name and value of 1..2 characters over printable ASCII without separators and percent signs, any combination of up to two attributes in any letter case'
];
exports.outside = ['values that contain commas followed by name=', 'attributes called name or value', 'set-cookie texts without any attribute (documented to throw)'];
const CH = [[33, 36], [38, 43], [45, 58], [60, 60], [62, 126]];
const ATTRS = ['', '; Path=/', '; expires=Tue, 07-Jun-22 11:49:38 GMT', '; Expires=Tue, 07 Jun 2022 11:49:38 GMT; path=/a', '; Max-Age=60; Secure'];
exports.cases = tier => {
    const out = [];
    for (let k = 1; k <= (tier === 'quick' ? 3 : 4); k++) out.push({ name: 'split' + k, params: { what: 'split', k } });
    out.push({ name: 'parse1', params: { what: 'parse', k: 1 } }, { name: 'parse2', params: { what: 'parse', k: 2 } }, { name: 'map', params: { what: 'map' } }, { name: 'decode', params: { what: 'decode' } }, { name: 'join', params: { what: 'join' } }, { name: 'long', params: { what: 'long' } });
    return out;
};
exports.run = (V, p) => {
    const { splitSetCookie, parseSetCookie, joinSetCookie } = V.load('cookie');
    if (p.what === 'split') {
        const list = V.array(p.k, i => V.str('n' + i, 1, CH) + '=' + V.strUpTo('v' + i, 0, p.k === 1 ? 2 : 1, CH) + V.choice('a' + i, ATTRS));
        const sep = V.choice('sep', [',', ', ', ' , ', ',\t']);
        const r = splitSetCookie(list.join(sep));
        V.observe(r);
        V.check(r.length === p.k, 'one text per cookie');
        for (let i = 0; i < p.k; i++) V.check(V.is(sep === ' , ' && i < p.k - 1 ? r[i].trimEnd() : r[i], list[i]), 'each cookie text is recovered, dates with commas stay whole');
        return;
    }
    if (p.what === 'join') {
        const k = V.size('k', 1, 3);
        const items = V.array(k, i => ({ name: V.str('n' + i, 1, CH), value: V.strUpTo('v' + i, 0, 1, CH), path: '/' }));
        const obj = {};
        items.forEach((it, i) => (obj['c' + i] = it));
        const asObj = V.choice('obj', [false, true]);
        const r = joinSetCookie(asObj ? obj : items);
        V.observe(r);
        V.check(V.is(r, items.map(i => i.name + '=' + i.value).join('; ')), 'a request cookie lists name=value in order and nothing else');
        return;
    }
    if (p.what === 'long') {
        const v = V.choice('shape', ['a=b=c=d=e', '=', '====', 'x=%3D=y', '"q r"', 'a b', 'abcdefghijklmnopqrstuvwxyz0123456789=='])+ V.str('end', 2, [...CH, [61, 61]]);
        const r = parseSetCookie(['name_of_many=' + v + '; Path=/a=b=c; Domain=.x.example.com'], { decode: false });
        V.check(V.eq(r, [{ name: 'name_of_many', value: v, path: '/a=b=c', domain: '.x.example.com' }]), 'long values with more equals signs are read in full');
        V.observe(r);
        return;
    }
    if (p.what === 'decode') {
        const c = V.unit('c', [[0, 0xd7ff], [0xe000, 0xffff]]);
        const v = V.fromUnits([c]);
        const r = parseSetCookie(['k=' + encodeURIComponent(v) + '; path=/'])[0];
        V.check(V.is(r.value, v), 'an encoded value is decoded');
        const raw = parseSetCookie(['k=%41; path=/'], { decode: false })[0];
        V.check(V.is(raw.value, '%41'), 'decoding can be turned off');
        V.observe(r);
        return;
    }
    const mk = i => {
        const n = V.strUpTo('n' + i, 1, p.what === 'map' || p.k === 2 ? 1 : 2, CH);
        const v = V.strUpTo('v' + i, 0, p.what === 'map' || p.k === 2 ? 1 : 2, CH);
        return { n, v };
    };
    if (p.what === 'map') {
        const a = mk(0);
        const b = mk(1);
        const special = V.choice('special', [null, '__proto__', 'constructor']);
        if (special) V.choice('which', [0, 1]) ? (a.n = special) : (b.n = special);
        const r = parseSetCookie([`${a.n}=${a.v}; path=/a`, `${b.n}=${b.v}; path=/b`], { map: true });
        const same = V.truth(a.n === b.n);
        V.check(Object.keys(r).length === (same ? 1 : 2) && Object.getPrototypeOf(r) === Object.prototype, 'one entry per name');
        V.check(V.and(V.is(r[b.n].value, b.v), V.is(r[b.n].name, b.n), V.is(r[b.n].path, '/b')), 'entries are stored under their name, later ones win');
        if (!same) V.check(V.and(V.is(r[a.n].value, a.v), V.is(r[a.n].path, '/a')), 'the first entry is kept under its own name');
        V.observe(r);
        return;
    }
    const c = mk(0);
    const sep = V.choice('sep', ['; ', ';', ' ; ']);
    const kinds = [
        ['Path', 'path', 'text'],
        ['DOMAIN', 'domain', 'text'],
        ['Max-Age', 'maxAge', 'int'],
        ['expires', 'expires', 'date'],
        ['Secure', 'secure', 'flag'],
        ['httponly', 'httpOnly', 'flag'],
        ['HttpOnly', 'httpOnly', 'flag'],
        ['Partitioned', 'partitioned', 'empty'],
        ['SameSite', 'sameSite', 'text'],
        ['X-Other', 'x-other', 'text'],
        ['Value', null, 'text'],
        ['name', null, 'text']
    ];
    const want = { name: c.n, value: c.v };
    let head = c.n + '=' + c.v;
    for (let i = 0; i < p.k; i++) {
        const [a, key, t] = V.choice('k' + i, kinds);
        V.assume(!Object.keys(want).includes(key));
        if (t === 'text') {
            const x = V.str('t' + i, 1, CH);
            head += sep + a + '=' + x;
            if (key) want[key] = x;
            else V.cover('foreign');
        } else if (t === 'int') {
            const x = V.int('m' + i, -9, 99999);
            head += sep + a + '=' + x;
            want[key] = x;
        } else if (t === 'date') {
            head += sep + a + '=Tue, 07 Jun 2022 11:49:38 GMT';
            want[key] = new Date(1654602578000);
        } else {
            head += sep + a;
            want[key] = t === 'flag' ? true : '';
        }
    }
    const r = V.attempt(() => parseSetCookie([head]));
    V.observe(r.ok ? r.value : r.error);
    V.check(r.ok, 'a well-formed set-cookie text is parsed');
    V.check(r.value.length === 1, 'one result per text');
    V.check(V.eq(r.value[0], want), 'name, value and every attribute are read, attribute names in any case');
};
