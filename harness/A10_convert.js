'use strict';
exports.bounds = [
    'lists of 0..3 (thorough 4) entries with keys of up to 2 characters from a narrow range, __proto__ and constructor among them',
    'array-like values of length 0..4 with any of their places missing; values of every kind with every choice of the two options',
    'lists of 0..4 words under every collation: the comparison of the platform is any order with ties'
];
exports.stubs = ['words carry their own localeCompare, which compares an arbitrary rank'];
exports.cases = tier => {
    const out = [{ name: 'wrap', params: { what: 'wrap' } }, { name: 'args', params: { what: 'args' } }];
    const N = tier === 'quick' ? 3 : 4;
    for (let n = 0; n <= N; n++) out.push({ name: 'object' + n, params: { what: 'object', n } });
    for (let n = 0; n <= 4; n++) {
        out.push({ name: 'like' + n, params: { what: 'like', n } });
        for (const rev of [false, true]) out.push({ name: `sort${n}${rev}`, params: { what: 'sort', n, rev } });
    }
    return out;
};
exports.mustReach = () => ['same key', 'special key', 'hole', 'tie', 'none'];
exports.run = (V, { what, n, rev }) => {
    const lib = V.load('array');
    if (what === 'wrap') {
        const x = V.int('x', -9, 9);
        const list = [x];
        const kinds = [null, undefined, x, 'text', '', false, list, [], [null], { length: 1, 0: x }, () => x, Symbol.iterator, NaN];
        const v = kinds[V.size('kind', 0, kinds.length - 1)];
        const mode = V.choice('mode', ['none', 'empty', 'null', 'undefined', 'both', 'neither']);
        const o = { empty: {}, null: { allowNull: true }, undefined: { allowUndefined: true }, both: { allowNull: true, allowUndefined: true }, neither: { allowNull: false, allowUndefined: false } }[mode];
        const r = o ? lib.toArray(v, o) : lib.toArray(v);
        V.observe(r.length);
        if (Array.isArray(v)) return void V.check(r === v, 'a list is given back itself');
        const none = (v === null && !(o && o.allowNull)) || (v === undefined && !(o && o.allowUndefined));
        if (none) V.cover('none');
        V.check(Array.isArray(r) && r.length === (none ? 0 : 1), 'nothing gives an empty list, a value a list of one');
        if (!none) V.check(v !== v ? Number.isNaN(r[0]) : V.is(r[0], v), 'the value is in the list');
        return;
    }
    if (what === 'args') {
        const vs = V.array(V.size('n', 0, 3), i => V.int('v' + i));
        const f = function () {
            return lib.fromArrayLike(arguments);
        };
        const r = f(...vs);
        V.check(Array.isArray(r) && V.truth(V.eq(r, vs)), 'the arguments become a list');
        const s = V.strUpTo('s', 0, 3);
        V.check(V.eq(lib.fromArrayLike(s), Array.from({ length: s.length }, (_, i) => s.charAt(i))), 'the units of a text become a list');
        return;
    }
    if (what === 'like') {
        const src = { length: n, extra: 1 };
        const vs = [];
        for (let i = 0; i < n; i++) {
            if (V.choice('has' + i, [true, false])) src[i] = vs[i] = V.int('v' + i);
            else V.cover('hole');
        }
        const keys = Reflect.ownKeys(src).join();
        const r = lib.fromArrayLike(src);
        V.observe(r);
        V.check(Array.isArray(r) && r.length === n, 'the list has the length of the source');
        for (let i = 0; i < n; i++) V.check(V.is(r[i], vs[i]), 'every entry keeps its place');
        V.check(!('extra' in r), 'other properties are left behind');
        V.check(Reflect.ownKeys(src).join() === keys && r !== src, 'the source is left alone');
        const list = vs.slice();
        const r2 = lib.fromArrayLike(list);
        V.check(r2 !== list && r2.length === list.length, 'a list becomes a new list');
        return;
    }
    if (what === 'sort') {
        const ranks = V.array(n, i => V.int('r' + i, -9, 9));
        const words = ranks.map((rank, at) => ({ rank, at, localeCompare: o => rank - o.rank }));
        const list = words.slice();
        const r = rev ? lib.sortWords(list, true) : lib.sortWords(list);
        V.check(Array.isArray(r) && r.length === n && words.every(w => r.includes(w)), 'sorting keeps the words');
        V.observe(r.map(w => w.at));
        for (let i = 1; i < n; i++) {
            if (V.truth(r[i - 1].rank === r[i].rank)) {
                V.cover('tie');
                V.check(r[i - 1].at < r[i].at, 'words that compare equal keep their order');
            } else V.check(rev ? r[i - 1].rank > r[i].rank : r[i - 1].rank < r[i].rank, 'words are in the order of the collation');
        }
        return V.check(true, 'sorted');
    }
    const KEYS = ['__proto__', 'constructor'];
    const keys = V.array(n, i => {
        const k = V.choice('special' + i, [null, ...KEYS]);
        if (k) V.cover('special key');
        return k || V.strUpTo('k' + i, 0, 2, [[48, 49], [97, 97]]);
    });
    const seen = [];
    const items = keys.map((key, i) => ({ key, v: i % 2 ? { i } : V.int('v' + i) }));
    const before = items.slice();
    const r = lib.toObject(items, x => (seen.push(x), x.key), x => x.v);
    V.check(seen.length === n && seen.every((x, i) => x === items[i]), 'every entry is asked for its key once and in order');
    V.check(items.length === n && items.every((x, i) => x === before[i]), 'the list is left alone');
    V.check(Object.getPrototypeOf(r) === Object.prototype, 'the result is an ordinary object');
    const distinct = [];
    for (let i = 0; i < n; i++) {
        let last = i;
        for (let j = i + 1; j < n; j++) if (V.truth(V.is(keys[j], keys[i]))) last = j;
        if (last !== i) V.cover('same key');
        else distinct.push(i);
        const d = Object.getOwnPropertyDescriptor(r, keys[i]);
        V.check(!!d, 'every key is in the object', keys[i]);
        V.check(V.is(d.value, items[last].v), 'the last entry of a key counts');
        V.check(d.enumerable && d.writable && d.configurable, 'every key is an ordinary property');
    }
    V.check(Reflect.ownKeys(r).length === distinct.length, 'there are no other keys');
};
