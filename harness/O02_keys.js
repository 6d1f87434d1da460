'use strict';
exports.bounds = [
    'objects with four properties (two names, a digit name, a symbol), each enumerable, hidden, inherited or absent; levels 0..3 and other levels; queries of up to 2 (thorough 3) keys out of 5',
    'values: any integer per property; value queries of up to 3 integers; paths of up to 2 (thorough 3) keys over nested objects ended by null, undefined, a number or a text'
];
exports.outside = ['proxies', 'getters that fail'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let l = 0; l < 4; l++) out.push({ name: 'level' + l, params: { what: 'level', l } });
    out.push({ name: 'badlevel', params: { what: 'bad' } });
    for (let l = 0; l < 4; l++) out.push({ name: 'has' + l, params: { what: 'has', l, n: q ? 2 : 3 } });
    for (let n = 0; n <= (q ? 2 : 3); n++) out.push({ name: 'values' + n, params: { what: 'values', n } });
    for (let n = 0; n <= (q ? 2 : 3); n++) out.push({ name: 'path' + n, params: { what: 'path', n } });
    out.push({ name: 'get', params: { what: 'get' } }, { name: 'class', params: { what: 'class' } });
    return out;
};
exports.mustReach = () => ['any', 'all', 'private', 'proto'];
const SYM = Symbol('s');
const NAMES = ['b', 'a', '1', SYM];
const ORDER = ['1', 'b', 'a', SYM]; // own key order: digits first, then as created
const make = (V, skip) => {
    const proto = {};
    const o = Object.create(proto);
    const st = {};
    const val = {};
    NAMES.forEach((k, i) => {
        if (k === skip) {
            st[k] = 'absent';
            return;
        }
        const s = V.choice('st' + i, ['seen', 'hidden', 'inherited', 'absent']);
        const v = V.int('v' + i, -9, 9);
        st[k] = s;
        val[k] = v;
        if (s === 'inherited') proto[k] = v;
        else if (s !== 'absent') Object.defineProperty(o, k, { value: v, enumerable: s === 'seen', writable: true, configurable: true });
    });
    return { o, st, val };
};
const own = (st, l) => ORDER.filter(k => (st[k] === 'seen' || (l > 0 && st[k] === 'hidden')) && (l === 3 || (typeof k === 'symbol') === (l === 2)));
exports.run = (V, { what, l, n }) => {
    const pkg = V.load('object');
    if (what === 'level') {
        const { o, st, val } = make(V);
        const want = own(st, l);
        const ks = pkg.keys(o, l);
        V.observe(ks.length);
        V.check(ks.length === want.length && want.every((k, i) => ks[i] === k), 'the own keys of that level, in order');
        const vs = pkg.values(o, l);
        V.check(V.eq(vs, want.map(k => val[k])), 'the values of these keys');
        const ar = pkg.toArray(o, undefined, l);
        V.check(ar.length === want.length && V.and(...want.map((k, i) => V.and(ar[i][0] === k, ar[i].length === 2, V.is(ar[i][1], val[k])))), 'the pairs of key and value');
        const seen = [];
        const conv = pkg.toArray(o, (k, v) => (seen.push(k), v + 1), l);
        V.check(seen.length === want.length && want.every((k, i) => seen[i] === k) && V.truth(V.eq(conv, want.map(k => val[k] + 1))), 'converted pairs');
        if (l === 0) V.check(V.eq(pkg.toArray(o).map(p => p[0]), ks) && V.eq(pkg.keys(o), ks) && V.truth(V.eq(pkg.values(o), vs)), 'level 0 unless given');
        return;
    }
    if (what === 'bad') {
        const { o } = make(V);
        const x = V.choice('l', [-1, 4, 1.5, NaN, '1', null, Infinity]);
        for (const f of ['keys', 'values']) {
            const r = V.attempt(() => pkg[f](o, x));
            V.check(!r.ok && r.error && r.error.name === 'TypeError', 'other levels are refused with a type error');
        }
        return;
    }
    if (what === 'has') {
        const { o, st } = make(V, 'b');
        const have = own(st, l);
        const count = V.size('count', 0, n);
        const list = V.array(count, i => V.choice('q' + i, ['a', '1', 1, SYM, 'toString']));
        const any = V.bool('any');
        const is = k => have.includes(typeof k === 'number' ? String(k) : k);
        const r = pkg.isKeysIncludes(o, list, l, any);
        V.observe(r);
        V.cover(V.truth(any) ? 'any' : 'all');
        V.check(V.is(r, V.truth(any) ? list.some(is) : list.every(is)), 'whether any, or every, key is there');
        if (count === 1) V.check(V.is(pkg.isKeysIncludes(o, list[0], l, any), is(list[0])), 'a single key need not be listed');
        if (l === 0) V.check(V.is(pkg.isKeysIncludes(o, list, any), r), 'the level may be left out');
        if (!V.truth(any)) V.check(V.is(pkg.isKeysIncludes(o, list, l), r) && (l > 0 || V.is(pkg.isKeysIncludes(o, list), r)), 'every key is asked for by default');
        return;
    }
    if (what === 'values') {
        const { o, st, val } = make(V);
        const have = own(st, 0).map(k => val[k]);
        const list = V.array(n, i => V.int('q' + i, -9, 9));
        const any = V.bool('any');
        const r = pkg.isValuesIncludes(o, list, any);
        V.observe(r);
        const is = x => V.or(false, ...have.map(h => V.is(h, x)));
        if (!V.truth(any)) V.check(V.eq(pkg.isValuesIncludes(o, list), r), 'every value is asked for by default');
        V.check(V.eq(r, V.truth(any) ? V.or(false, ...list.map(is)) : V.and(true, ...list.map(is))), 'whether any, or every, value is there');
        if (n === 1) V.check(V.is(pkg.isValuesIncludes(o, list[0], any), is(list[0])), 'a single value need not be listed');
        return;
    }
    if (what === 'path') {
        const keys = V.array(n, i => V.choice('k' + i, ['a', 0, 'length', SYM]));
        const priv = V.bool('private');
        const end = V.choice('end', ['int', 'null', 'undefined', 'text', 'array']);
        const depth = V.size('depth', 0, n);
        const inh = V.choice('inh', [-1, ...keys.map((_, i) => i)]);
        let leaf = end === 'int' ? V.int('leaf', 0, 9) : end === 'null' ? null : end === 'text' ? V.str('t', 2, [[97, 98]]) : end === 'array' ? [V.int('e', 0, 9)] : undefined;
        let o = leaf;
        for (let i = depth - 1; i >= 0; i--) o = i === inh ? Object.create({ [keys[i]]: o }) : { [keys[i]]: o };
        // reference walk
        let cur = o;
        let gone = false;
        for (let i = 0; i < n && !gone; i++) {
            if (cur === null || cur === undefined) gone = true;
            else if (V.truth(priv) && !(typeof cur === 'object' ? Object.getOwnPropertyDescriptor(cur, keys[i]) : typeof cur === 'string' || end === 'text' && i === depth ? keys[i] === 'length' || keys[i] === 0 : false)) gone = true;
            else cur = cur[keys[i]];
        }
        if (V.truth(priv)) V.cover('private');
        const r = V.attempt(() => pkg.getFromPaths(o, keys, priv));
        V.observe(r.ok);
        V.check(r.ok, 'missing steps never fail');
        if (!V.truth(priv)) V.check(V.is(pkg.getFromPaths(o, keys), r.value), 'inherited steps count by default');
        V.check(gone ? r.value === undefined : r.value === cur || V.truth(V.is(r.value, cur)), 'the value at the end of the path');
        return;
    }
    if (what === 'get') {
        const { o, st, val } = make(V);
        const k = V.choice('k', NAMES);
        const w = st[k] === 'absent' ? undefined : val[k];
        V.check(V.eq(pkg.getProperty(o, k), w), 'own or inherited value');
        V.check(V.eq(pkg.getPropertyGetter(k)(o), w), 'the prepared getter');
        for (const e of [null, undefined]) V.check(pkg.getProperty(e, k) === undefined && pkg.getPropertyGetter(k)(e) === undefined, 'nothing from null and undefined');
        const p = pkg.isPrototypeProperty(o, k);
        if (p) V.cover('proto');
        V.check(p === (st[k] === 'inherited'), 'inherited and not own');
        return;
    }
    class A {}
    class B extends A {}
    const nul = Object.create(null);
    const vals = [new A(), new B(), {}, [], '', 1, true, () => 1, nul, null, undefined];
    const ctors = [A, B, Object, Array, String, Number, Boolean, Function, null, null, null];
    const i = V.size('i', 0, vals.length - 1);
    const v = i === 5 ? V.int('n', -9, 9) : i === 4 ? V.str('s', 1) : vals[i];
    V.check(pkg.constructor(v) === ctors[i], 'the constructor, or null');
    V.check(pkg.constructorName(v) === (ctors[i] ? ctors[i].name : null), 'its name, or null');
    for (const c of [A, B, Object, Array, String, Number]) V.check(pkg.isInstanceOf(v, c) === (ctors[i] === c), 'made by exactly this class');
};
