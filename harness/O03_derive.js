'use strict';
exports.bounds = [
    'objects with up to four properties (two names, a digit name, a symbol), each a value, a hidden value, a read-only value, a getter, or absent; any integer values; key lists of up to 2 (thorough 3) keys, with names listed twice, numbers for digit names, and keys that are not there',
    'sorting: 1..3 (thorough 4) distinct names of 1..2 characters out of letters of both cases, "_", non-ASCII and surrogates; nested objects and lists to depth 2, shared and cyclic; any comparison given by ranks',
    'lower-casing: up to three names of 1..2 characters out of letters of both cases incl. É and digits'
];
exports.outside = ['lists with holes', 'the Turkish locale'];
const SYM = Symbol('s');
const NAMES = ['b', 'a', '1', SYM];
const CH2 = [[65, 65], [97, 97], [0xd83d, 0xd83d], [0xff21, 0xff21]];
const CH = [[65, 66], [95, 95], [97, 98], [0xe9, 0xe9], [0xd83d, 0xd83d], [0xff21, 0xff21]];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [{ name: 'derive', params: { what: 'derive' } }, { name: 'null', params: { what: 'null' } }];
    for (let n = 0; n <= (q ? 2 : 3); n++) out.push({ name: 'without' + n, params: { what: 'without', n } }, { name: 'delete' + n, params: { what: 'delete', n } });
    for (let n = 1; n <= (q ? 3 : 4); n++) out.push({ name: 'sort' + n, params: { what: 'sort', n } }, { name: 'ranked' + n, params: { what: 'ranked', n } });
    for (const deep of [false, true]) out.push({ name: deep ? 'deep' : 'flat', params: { what: 'nest', deep } });
    for (let n = 1; n <= (q ? 2 : 3); n++) out.push({ name: 'lower' + n, params: { what: 'lower', n } });
    out.push({ name: 'refuse', params: { what: 'refuse' } });
    return out;
};
exports.mustReach = () => ['fixed', 'gone', 'shared', 'cyclic', 'cover', 'keep', 'collide'];
const make = (V, kinds, names = NAMES) => {
    const proto = { inherited: 1 };
    const o = Object.create(proto);
    const put = [];
    names.forEach((k, i) => {
        const s = V.choice('st' + i, kinds);
        if (s === 'absent') return;
        const v = V.int('v' + i, -9, 9);
        put.push(k);
        if (s === 'getter') Object.defineProperty(o, k, { get: () => v, enumerable: true, configurable: true });
        else Object.defineProperty(o, k, { value: v, enumerable: s !== 'hidden', writable: s !== 'readonly', configurable: s !== 'fixed' });
    });
    return { o, proto, put };
};
const same = (V, x, y) => {
    if (!x || !y) return !x && !y;
    if (x.get || y.get) return x.get === y.get && x.set === y.set && x.enumerable === y.enumerable && x.configurable === y.configurable;
    return V.and(x.enumerable === y.enumerable, x.writable === y.writable, x.configurable === y.configurable, V.is(x.value, y.value));
};
const gop = Object.getOwnPropertyDescriptor;
const sameOwn = (V, x, y, without = []) => {
    const kx = Reflect.ownKeys(x).filter(k => !without.includes(k));
    const ky = Reflect.ownKeys(y);
    return kx.length === ky.length && kx.every((k, i) => k === ky[i]) && V.and(true, ...kx.map(k => same(V, gop(x, k), gop(y, k))));
};
const nameOf = k => (typeof k === 'number' ? String(k) : k);
exports.run = (V, { what, n, deep }) => {
    const pkg = V.load('object');
    if (what === 'derive') {
        const { o, proto } = make(V, ['plain', 'hidden', 'readonly', 'getter', 'absent']);
        const r = pkg.derive(o);
        V.observe(Reflect.ownKeys(r).length);
        V.check(r !== o && Object.getPrototypeOf(r) === proto, 'a new object with the same prototype');
        V.check(sameOwn(V, o, r), 'the same own properties with the same attributes');
        return;
    }
    if (what === 'without' || what === 'delete') {
        const { o, proto, put } = make(V, what === 'delete' ? ['plain', 'fixed', 'absent'] : ['plain', 'hidden', 'absent'], ['a', '1', SYM]);
        const list = V.array(n, i => V.choice('k' + i, ['a', '1', 1, SYM, 'inherited']));
        const given = list.slice();
        const names = list.map(nameOf);
        const copy = Object.create(proto, Object.getOwnPropertyDescriptors(o));
        if (put.some(k => names.includes(k))) V.cover('gone');
        const fixed = put.some(k => names.includes(k) && !gop(copy, k).configurable);
        if (fixed) V.cover('fixed');
        const r = what === 'delete' ? pkg.deleteAttrs(o, list) : pkg.derive(o, list);
        V.observe(Reflect.ownKeys(r).length);
        V.check(list.length === given.length && list.every((k, i) => k === given[i]), 'the key list is left alone');
        V.check(Object.getPrototypeOf(r) === proto, 'the same prototype');
        V.check(sameOwn(V, copy, r, names), 'all but the given keys, unchanged');
        V.check('inherited' in r, 'inherited names stay');
        if (what === 'without') V.check(r !== o && V.truth(sameOwn(V, copy, o)), 'the source is left alone');
        else V.check(fixed === (r !== o), 'a new object only where a property cannot be deleted');
        return;
    }
    if (what === 'null') {
        const v = V.int('v', -9, 9);
        const kind = V.choice('kind', ['none', 'value', 'getter', 'null']);
        const r = kind === 'none' ? pkg.createWithNull() : kind === 'null' ? pkg.createWithNull(null) : pkg.createWithNull(kind === 'value' ? { a: { value: v, enumerable: true } } : { a: { get: () => v } });
        V.check(Object.getPrototypeOf(r) === null && Reflect.ownKeys(r).length === (kind === 'value' || kind === 'getter' ? 1 : 0), 'a bare object with just these properties');
        V.check(kind === 'none' || kind === 'null' ? r.a === undefined && r.toString === undefined : V.is(r.a, v), 'its values');
        return;
    }
    if (what === 'sort' || what === 'ranked') {
        const names = [];
        const sym = [];
        for (let i = 0; i < n; i++) {
            const s = what === 'ranked' ? 'k' + i : V.strUpTo('n' + i, 1, n === 2 ? 2 : 1, n === 2 ? CH2 : CH);
            for (const t of sym) V.assume(V.not(V.eq(s, t)));
            sym.push(s);
            names.push(what === 'ranked' ? s : V.concrete(s));
        }
        const o = {};
        const setter = x => x;
        const how = names.map((k, i) => (i || (what === 'sort' && n > 1) ? 'plain' : V.choice('how', ['plain', 'readonly', 'getter', 'setter'])));
        const hidden = V.bool('hidden');
        names.forEach((k, i) => {
            const v = V.int('v' + i, -9, 9);
            if (how[i] === 'getter') Object.defineProperty(o, k, { get: () => v, enumerable: true, configurable: true });
            else if (how[i] === 'setter') Object.defineProperty(o, k, { set: setter, enumerable: true, configurable: true });
            else Object.defineProperty(o, k, { value: v, enumerable: true, writable: how[i] === 'plain', configurable: true });
        });
        if (V.truth(hidden)) Object.defineProperty(o, 'hidden', { value: 1, enumerable: false });
        const before = Object.keys(o);
        let r;
        let ord;
        if (what === 'ranked') {
            const rank = {};
            names.forEach((k, i) => (rank[k] = V.int('rank' + i, 0, 3)));
            r = pkg.sortKeys(o, { compare: (a, b) => rank[a] - rank[b] });
            ord = Object.keys(r);
            for (let i = 0; i + 1 < n; i++) {
                const [x, y] = [ord[i], ord[i + 1]];
                V.check(V.or(rank[x] < rank[y], V.and(V.is(rank[x], rank[y]), names.indexOf(x) < names.indexOf(y))), 'in the order of the comparison, equal ones as they were');
            }
        } else {
            r = pkg.sortKeys(o);
            ord = Object.keys(r);
            for (let i = 0; i + 1 < n; i++) V.check(ord[i] < ord[i + 1], 'in ascending order of characters');
        }
        V.observe(ord.length);
        V.check(r !== o && ord.length === n && names.every(k => ord.includes(k)), 'exactly the visible keys');
        V.check(V.and(true, ...names.map(k => same(V, gop(o, k), gop(r, k)))), 'each with its value, getter and attributes');
        V.check(Object.keys(o).every((k, i) => k === before[i]), 'the source keeps its order');
        return;
    }
    if (what === 'nest') {
        const x = V.int('x', -9, 9);
        const y = V.int('y', -9, 9);
        const shape = V.choice('shape', ['object', 'list', 'shared', 'cyclic', 'toplist', 'cyclist', 'class']);
        class K {
            constructor() {
                this.z = x;
                this.a = y;
            }
        }
        const inner = { z: x, a: y };
        let o;
        if (shape === 'object') o = { q: inner, b: x };
        else if (shape === 'list') o = { q: [inner, x], b: [y, [inner]] };
        else if (shape === 'shared') o = { q: inner, b: inner };
        else if (shape === 'cyclic') (o = { q: inner, b: x }), (inner.back = o);
        else if (shape === 'toplist') o = [inner, x, inner];
        else if (shape === 'cyclist') (o = { q: [inner], b: 1 }), o.q.push(o.q), (inner.back = o);
        else o = { q: new K(), b: x };
        if (shape === 'shared') V.cover('shared');
        if (shape === 'cyclic') V.cover('cyclic');
        const r = pkg.sortKeys(o, { deep });
        V.observe(Object.keys(r));
        V.check(r !== o && Array.isArray(r) === Array.isArray(o), 'a new value of the same kind');
        V.check(Object.keys(inner)[0] === 'z', 'the source is left alone');
        // the same graph, keys sorted
        const pairs = new Map();
        const graph = (a, b, top) => {
            if (typeof a !== 'object') return V.is(a, b);
            if (!top && (!deep || a instanceof K)) return a === b;
            if (pairs.has(a)) return pairs.get(a) === b;
            if (a === b || typeof b !== 'object') return false;
            pairs.set(a, b);
            const ka = Object.keys(a);
            const kb = Object.keys(b);
            if (ka.length !== kb.length || Array.isArray(a) !== Array.isArray(b)) return false;
            if (!Array.isArray(a)) ka.sort();
            if (!ka.every((k, i) => k === kb[i])) return false;
            return ka.every(k => V.truth(graph(a[k], b[k], false)));
        };
        V.check(graph(o, r, true), deep ? 'the same structure with every key list sorted' : 'nested values stay the same ones');
        return;
    }
    if (what === 'lower') {
        const sym = [];
        for (let i = 0; i < n; i++) {
            const s = V.strUpTo('n' + i, 1, n === 2 ? 2 : 1, [[48, 48], ...(n === 2 ? [] : [[66, 66], [98, 98]]), [65, 65], [95, 95], [97, 97], [0xc9, 0xc9]]);
            for (const t of sym) V.assume(V.not(V.eq(s, t)));
            sym.push(s);
        }
        const names = sym.map(s => V.concrete(s));
        const special = V.choice('special', [null, '__proto__', '__PROTO__']);
        if (special) names.push(special);
        const vals = names.map((k, i) => (k === special ? { own: V.int('v' + i, -9, 9) } : V.int('v' + i, -9, 9)));
        const o = { [SYM]: 5 };
        names.forEach((k, i) => Object.defineProperty(o, k, { value: vals[i], enumerable: true, writable: true, configurable: true }));
        const mode = V.choice('mode', ['default', 'cover', 'keep']);
        const keep = mode === 'keep';
        V.cover(keep ? 'keep' : 'cover');
        const r = mode === 'default' ? pkg.toLowerCaseKey(o) : pkg.toLowerCaseKey(o, !keep);
        V.observe(Object.keys(r));
        const want = Object.create(null);
        for (const k of Object.keys(o)) {
            const l = k.toLowerCase();
            if (l in want) {
                V.cover('collide');
                if (keep) continue;
            }
            want[l] = o[k];
        }
        const kw = Object.keys(want);
        const kr = Object.keys(r);
        V.check(kr.length === kw.length && kw.every((k, i) => k === kr[i]), 'every name in lower case, once');
        V.check(V.and(true, ...kw.map(k => V.is(r[k], want[k]))), 'the last value wins, or the first when asked');
        V.check(r[SYM] === 5 && r !== o && Object.keys(o).length === names.length && Object.getPrototypeOf(r) === Object.prototype, 'symbols are kept and the source is left alone');
        return;
    }
    const v = V.choice('v', [null, undefined, 1, 'a', new Map(), () => 1, new (class Q {})()]);
    const r = V.attempt(() => pkg.sortKeys(v));
    V.check(!r.ok && r.error.name === 'TypeError', 'only plain objects and lists can be sorted');
};
