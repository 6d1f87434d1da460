'use strict';
// a copy has the shape of the original and shares nothing with it
exports.bounds = ['values up to 2 levels (thorough 3) of up to 2 parts each: lists with holes, objects with or without prototype, maps, sets, dates, boxed values, patterns, errors, buffers, typed arrays', 'leaves: every text of up to 2 units, every double, integers, booleans', 'references to any value above or before, cycles included', 'hidden, read-only, symbolic and own keys beside the content'];
exports.outside = ['functions, accessors and generators: the copy is made from their source text', 'symbols as values: they come back boxed', 'instances of own classes', 'streams and values of browsers'];
const OUTER = ['list', 'holes', 'object', 'pure', 'derived', 'map', 'set', 'error', 'aggregate'];
const INNER = [...OUTER, 'date', 'pattern', 'number object', 'text object', 'bytes', 'floats', 'view', 'buffer', 'array buffer', 'address', 'leaf', 'again', 'above'];
exports.cases = tier => [
    ...OUTER.flatMap(a => INNER.map(b => ({ name: a + ' of ' + b, params: { a, b, deep: tier !== 'quick' && OUTER.includes(b) } }))),
    { name: 'leaves', params: { a: 'leaf' } },
    { name: 'marks', params: { a: 'marks' } },
    { name: 'attributes', params: { a: 'attributes' } },
    { name: 'attributes of another', params: { a: 'another' } }
];
exports.mustReach = () => ['shared', 'cycle', 'leaf', 'hole'];
exports.run = (V, { a, b, deep }) => {
    const { copy, copyAttrs, allAttrs, lackAttrs } = V.load('util');
    const alike = (x, y) => V.or(V.is(x, y), V.and(V.not(V.is(x, x)), V.not(V.is(y, y))));
    // same shape, nothing shared, same identities
    const same = (x, y, twins = new Map(), disjoint = true) => {
        if ((typeof x !== 'object' && typeof x !== 'function') || x === null) {
            V.check(alike(x, y), 'the same value');
            return;
        }
        V.check(typeof y === 'object' && y !== null, 'an object as well');
        if (twins.has(x)) {
            V.check(twins.get(x) === y, 'what was one object is one object');
            return;
        }
        twins.set(x, y);
        if (disjoint) V.check(x !== y, 'another object');
        V.check(Object.prototype.toString.call(x) === Object.prototype.toString.call(y), 'of the same kind');
        V.check(Object.getPrototypeOf(x) === Object.getPrototypeOf(y), 'with the same prototype');
        const keys = Reflect.ownKeys(x);
        V.check(keys.length === Reflect.ownKeys(y).length, 'with as many keys');
        for (const k of keys) {
            if (k === 'stack' && x instanceof Error) {
                V.check(x.stack === y.stack, 'the same stack');
                continue;
            }
            const d = Object.getOwnPropertyDescriptor(x, k);
            const e = Object.getOwnPropertyDescriptor(y, k);
            V.check(e !== undefined && 'value' in e, 'the same keys');
            if (!(x instanceof Error)) V.check(d.enumerable === e.enumerable && d.writable === e.writable && d.configurable === e.configurable, 'with the same attributes');
            if (!('value' in d)) continue;
            same(d.value, e.value, twins, disjoint);
        }
        if (Array.isArray(x)) V.check(x.length === y.length, 'as long');
        if (x instanceof Map) {
            const p = [...x];
            const q = [...y];
            V.check(p.length === q.length, 'as many entries');
            p.forEach(([k, v], i) => {
                same(k, q[i][0], twins, disjoint);
                same(v, q[i][1], twins, disjoint);
            });
        }
        if (x instanceof Set) {
            const p = [...x];
            const q = [...y];
            V.check(p.length === q.length, 'as many members');
            p.forEach((v, i) => same(v, q[i], twins, disjoint));
        }
        if (x instanceof Date || x instanceof Number || x instanceof String) V.check(V.is(x.valueOf(), y.valueOf()), 'the same content');
        if (x instanceof RegExp) V.check(x.source === y.source && x.flags === y.flags && x.lastIndex === y.lastIndex, 'the same pattern');
        if (x instanceof URL) V.check(x.href === y.href, 'the same address');
        if (ArrayBuffer.isView(x)) {
            if (disjoint && !(x instanceof DataView)) {
                const old = x[0];
                const more = typeof old === 'bigint' ? old + 1n : old + 1;
                x[0] = more;
                V.check(y[0] === old, 'bytes of its own');
                x[0] = old;
            } else V.check(x.buffer !== y.buffer || !disjoint, 'bytes of its own');
            V.check(x.byteLength === y.byteLength, 'as many bytes');
            if (x instanceof DataView) V.check(x.getUint8(0) === y.getUint8(0) && x.byteOffset === y.byteOffset, 'the same bytes');
        }
        if (x instanceof ArrayBuffer) V.check(new Uint8Array(x)[0] === new Uint8Array(y)[0] && x.byteLength === y.byteLength, 'the same bytes');
    };
    // no object of the one is an object of the other
    const apart = twins => {
        const copies = new Set(twins.values());
        V.check(copies.size === twins.size, 'as many objects');
        for (const x of twins.keys()) V.check(!copies.has(x), 'nothing of the original in the copy');
    };
    let count = 0;
    const leaf = () => {
        V.cover('leaf');
        const i = count++;
        const k = V.choice('leaf' + i, ['text', 'double', 'integer', 'none']);
        return k === 'text' ? V.str('s' + i, 1) : k === 'double' ? V.fp('f' + i) : k === 'integer' ? V.int('n' + i, -99, 99) : [undefined, null, true][V.choice('none' + i, [0, 1, 2])];
    };
    const filled = (kind, above, rest, flat) => {
        const part = () => rest(above);
        switch (kind) {
            case 'list': case 'holes': {
                const o = [];
                above = [...above, o];
                if (kind === 'holes') V.cover('hole');
                o[kind === 'list' ? 0 : 1] = part();
                if (!flat) o.push(leaf());
                if (kind === 'holes') o.length += 2;
                return o;
            }
            case 'object': case 'pure': case 'derived': {
                const o = kind === 'object' ? {} : Object.create(kind === 'pure' ? null : { base: 1 });
                above = [...above, o];
                o.a = part();
                if (!flat) o['b'] = leaf();
                return o;
            }
            case 'map': {
                const o = new Map();
                above = [...above, o];
                if (!flat) o.set('k', leaf());
                const p = part();
                if (p !== null && typeof p === 'object') o.set(p, 1);
                o.set(2, p);
                return o;
            }
            case 'set': {
                const o = new Set();
                above = [...above, o];
                if (!flat) o.add('x');
                const p = part();
                if (p !== null && typeof p === 'object') o.add(p);
                o.add(5);
                return o;
            }
            case 'error': {
                const o = new TypeError('m');
                above = [...above, o];
                o.info = part();
                return o;
            }
            case 'aggregate': {
                const o = new AggregateError([], 'm');
                above = [...above, o];
                o.errors.push(part());
                return o;
            }
            case 'date': return new Date(5);
            case 'pattern': return Object.assign(/a+/gi, { lastIndex: 2 });
            case 'number object': return Object(7);
            case 'text object': return Object('ab');
            case 'bytes': return Uint8Array.of(1, 255);
            case 'floats': return Float64Array.of(0.5, -0);
            case 'view': return new DataView(Uint8Array.of(1, 2, 3).buffer, 1, 2);
            case 'buffer': return Buffer.from('ab');
            case 'array buffer': return Uint8Array.of(9, 8).buffer;
            case 'address': return new URL('http://a/b?c');
            case 'leaf': return leaf();
            case 'again': V.cover('shared'); return above[0].shared;
            case 'above': V.cover('cycle'); return above[0];
        }
    };
    if (a === 'leaf') {
        for (const v of [V.fp('f'), V.strUpTo('s', 0, 2), V.bool('b'), V.int('n', -9, 9), undefined, null, 5n]) V.check(alike(copy(v), v), 'plain values are the same');
        V.cover('leaf');
        return;
    }
    if (a === 'marks') {
        // attributes of keys beside the content
        const o = [() => ({}), () => [1], () => new Map([[1, 2]]), () => new Set([1]), () => new Date(1), () => Buffer.from('a'), () => new Error('x'), () => Object(1)][V.choice('on', [0, 1, 2, 3, 4, 5, 6, 7])]();
        const shared = { deep: [leaf()] };
        o.plain = shared;
        o[Symbol.for('mark')] = shared;
        Object.defineProperty(o, 'hidden', { value: [shared], enumerable: V.truth(V.bool('enumerable')), writable: V.truth(V.bool('writable')), configurable: V.truth(V.bool('configurable')) });
        const twins = new Map();
        same(o, copy(o), twins);
        apart(twins);
        return;
    }
    if (a === 'attributes' || a === 'another') {
        const names = a === 'another' ? ['a', '__proto__'] : ['a', 'b', '__proto__'];
        const make = (w, leafs) => {
            const o = {};
            for (const n of names) {
                const k = V.choice(w + n, ['-', 'shown', 'hidden']);
                if (k !== '-') Object.defineProperty(o, n, { value: leafs(n), writable: true, configurable: true, enumerable: k === 'shown' });
            }
            return o;
        };
        const src = make('src', n => [n === 'a' ? leaf() : 5]);
        const mark = Symbol('m');
        src[mark] = { x: 1 };
        V.check(V.eq(allAttrs(src).filter(k => k !== mark).join(), Object.getOwnPropertyNames(src).join()) && allAttrs(src).includes(mark), 'all own keys');
        for (const v of [undefined, null, 1, true]) V.check(allAttrs(v).length === 0, 'plain values have none');
        if (a === 'attributes') return;
        const dest = make('dest', n => n + '!');
        const before = Object.getOwnPropertyNames(dest);
        const lack = lackAttrs(dest, Reflect.ownKeys(src));
        V.check(V.eq(lack.filter(k => k !== mark).join(), Object.getOwnPropertyNames(src).filter(n => !before.includes(n)).join()) && lack.includes(mark), 'lacking: the keys that are not there');
        const only = V.choice('only', [undefined, false, true]);
        const r = copyAttrs(src, dest, only);
        V.check(r === dest, 'the target itself');
        for (const n of [...names, mark]) {
            const had = before.includes(n);
            const has = Object.prototype.hasOwnProperty.call(src, n);
            V.check(Object.prototype.hasOwnProperty.call(dest, n) === (had || has), 'the keys of both');
            if (!had && !has) continue;
            if (has && !(had && only)) {
                same(src[n], dest[n]);
            } else V.check(dest[n] === n + '!', 'what was there stays');
        }
        return;
    }
    const shared = b === 'again' ? [leaf()] : undefined;
    const build = above => filled(b, above, up => (deep ? filled(V.choice('third', INNER.filter(k => k !== 'again' && !OUTER.includes(k))), up, null, true) : V.choice('inner', ['leaf', 'top']) === 'leaf' ? leaf() : up[0]), true);
    let root;
    if (b === 'again') {
        const s = shared;
        root = filled(a, [], () => s, true);
        const whole = [root, s, { s }];
        V.cover('shared');
        const twins = new Map();
        same(whole, copy(whole), twins);
        apart(twins);
        return;
    }
    root = filled(a, [], build, false);
    const twins = new Map();
    const c = copy(root);
    same(root, c, twins);
    apart(twins);
};
