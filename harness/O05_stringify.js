'use strict';
exports.bounds = [
    'trees of up to 4 nodes (thorough 5): objects, lists, any integer, any text of up to 2 characters out of letters, quote, backslash, control characters and surrogates, true, null, undefined, NaN, functions, dates, boxed values, objects with toJSON, Map and class instances; indents 0, 2 and text',
    'cycles and shared values: every back edge in chains of up to 3 nodes, objects and lists; key orders by any ranks; key lists of up to 2 out of 4 keys; replacer functions'
];
exports.outside = ['cycles through class instances and toJSON', 'BigInt'];
const TEXT = [[1, 1], [34, 34], [92, 92], [97, 97], [0xd800, 0xd800], [0xdc00, 0xdc00]];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 1; n <= (q ? 3 : 4); n++) out.push({ name: 'tree' + n, params: { what: 'tree', n } });
    for (let n = 1; n <= 3; n++) out.push({ name: 'cycle' + n, params: { what: 'cycle', n } });
    for (let n = 1; n <= (q ? 3 : 4); n++) out.push({ name: 'order' + n, params: { what: 'order', n } });
    for (let n = 0; n <= 2; n++) out.push({ name: 'list' + n, params: { what: 'list', n } });
    out.push({ name: 'shared', params: { what: 'shared' } }, { name: 'replacer', params: { what: 'replacer' } }, { name: 'failing', params: { what: 'fail' } });
    return out;
};
exports.mustReach = () => ['marker', 'refused'];
exports.run = async (V, { what, n }) => {
    const f = V.load('object').stringify;
    const get = async (v, o) => {
        const r = await V.settle(f(v, o));
        return { ok: r.status === 'fulfilled', value: r.value };
    };
    class K {
        constructor(v) {
            this.v = v;
        }
    }
    if (what === 'tree') {
        const leaf = i => {
            const kind = V.choice('leaf' + i, ['int', 'text', 'true', 'null', 'undefined', 'nan', 'fn', 'date', 'box', 'json', 'map', 'class', 'empty', 'elist']);
            return kind === 'int' ? V.int('x' + i, -99, 99) : kind === 'text' ? V.strUpTo('t' + i, 0, i || n > 1 ? 1 : 2, TEXT) : { true: true, null: null, nan: NaN, fn: () => 1, date: new Date(86400000), box: Object('ab'), json: { toJSON: k => 'j' + k }, map: new Map([[1, 2]]), class: new K(V.int('k' + i, 0, 9)), empty: {}, elist: [] }[kind];
        };
        let v = leaf(0);
        for (let i = 1; i < n; i++) {
            const c = V.choice('node' + i, n > 2 ? ['obj', 'list'] : ['obj', 'list', 'pair', 'class']);
            const e = n === 2 && i === 1 && c === 'pair' ? leaf(9) : 7;
            v = c === 'obj' ? { k: v } : c === 'list' ? [v, 1] : c === 'pair' ? { b: v, a: e } : new K(v);
        }
        const space = V.choice('space', n > 2 ? [undefined] : [undefined, 2, '--']);
        const r = await get(v, space === undefined ? undefined : { space });
        const want = JSON.stringify(v, null, space);
        V.observe(r.ok ? r.value : 'failed');
        V.check(r.ok, 'every value without cycles can be written');
        V.check(V.eq(r.value, want), 'the standard text');
        return;
    }
    if (what === 'cycle') {
        // a chain root -> c1 -> ... with one edge back to node "to"
        const kinds = V.array(n, i => V.choice('kind' + i, ['obj', 'list']));
        const to = V.size('to', 0, n - 1);
        const x = V.int('x', 0, 9);
        const deep = V.bool('sibling');
        const nodes = kinds.map(k => (k === 'obj' ? {} : []));
        for (let i = 0; i < n; i++) {
            const next = i + 1 < n ? nodes[i + 1] : nodes[to];
            if (kinds[i] === 'obj') (nodes[i].k = next), V.truth(deep) && (nodes[i].z = x);
            else nodes[i].push(next), V.truth(deep) && nodes[i].push(x);
        }
        const cycles = V.choice('cycles', [undefined, true, false]);
        const via = n > 2 ? 'none' : V.choice('via', ['none', 'function', 'list']);
        const replacer = via === 'function' ? (k, v) => v : via === 'list' ? ['k', 'z'] : undefined;
        const r = await get(nodes[0], { cycles, replacer });
        V.observe(r.ok ? r.value : 'failed');
        if (cycles === false) {
            V.cover('refused');
            V.check(!r.ok, 'cycles are refused when asked');
            return;
        }
        const path = kinds.slice(0, to).map(k => (k === 'obj' ? 'k' : '0')).join('.');
        let want = JSON.stringify(`[Circular *${path}]`);
        for (let i = n - 1; i >= 0; i--) want = kinds[i] === 'obj' ? `{"k":${want}${V.truth(deep) ? `,"z":${x}` : ''}}` : `[${want}${V.truth(deep) ? `,${x}` : ''}]`;
        V.cover('marker');
        V.check(r.ok && V.truth(V.eq(r.value, want)), 'a marker with the path of the value it leads back to');
        return;
    }
    if (what === 'shared') {
        const x = V.int('x', 0, 9);
        const s = V.choice('s', ['obj', 'list']) === 'obj' ? { p: x } : [x];
        const v = V.choice('v', [0, 1, 2, 3]);
        const o = v === 0 ? { a: s, b: s } : v === 1 ? [s, [s], s] : v === 3 ? { ['__proto__']: s, a: { ['__proto__']: x } } : { a: { b: s }, c: [s], d: s };
        for (const cycles of [undefined, false]) {
            const r = await get(o, { cycles });
            V.check(r.ok && V.truth(V.eq(r.value, JSON.stringify(o))), 'a value used twice is written twice');
        }
        return;
    }
    if (what === 'order') {
        const names = ['d', 'c', 'b', 'a'].slice(0, n);
        const rank = {};
        const o = {};
        for (const k of names) (rank[k] = V.int('rank' + k, 0, 3)), (o[k] = V.int('v' + k, 0, 9));
        const where = V.choice('where', ['root', 'nested', 'in list']);
        const by = V.choice('by', ['key', 'value']);
        const v = where === 'root' ? o : where === 'nested' ? { x: o } : [o];
        const r = await get(v, { compare: (p, q) => (by === 'key' ? (p.key in rank ? rank[p.key] - rank[q.key] : 0) : p.value - q.value) });
        V.check(r.ok, 'written');
        const m = by === 'key' ? rank : o;
        const ord = names.slice();
        for (let i = 1; i < n; i++) for (let j = i; j > 0 && V.truth(m[ord[j - 1]] > m[ord[j]]); j--) [ord[j - 1], ord[j]] = [ord[j], ord[j - 1]];
        const body = '{' + ord.map(k => `"${k}":${o[k]}`).join(',') + '}';
        V.observe(r.value);
        V.check(V.eq(r.value, where === 'root' ? body : where === 'nested' ? `{"x":${body}}` : `[${body}]`), 'keys in the order of the comparison');
        V.check(Object.keys(o).every((k, i) => k === names[i]), 'the source is left alone');
        return;
    }
    if (what === 'list') {
        const list = V.array(n, i => V.choice('k' + i, ['a', 'b', 1, '1', 'zz']));
        const x = V.int('x', 0, 9);
        const o = { b: { a: x, c: 1, b: [{ a: 1, c: x }, 2] }, a: x, c: [x], 1: x };
        const shape = V.choice('shape', ['obj', 'list']);
        const v = shape === 'obj' ? o : [o, x];
        const r = await get(v, { replacer: list });
        const keep = list.map(String);
        const ref = w => (Array.isArray(w) ? '[' + w.map(ref).join(',') + ']' : typeof w === 'object' ? '{' + Object.keys(w).filter(k => keep.includes(k)).map(k => `"${k}":${ref(w[k])}`).join(',') + '}' : `${w}`);
        V.observe(r.ok ? r.value : 'failed');
        V.check(r.ok && V.truth(V.eq(r.value, ref(v))), 'exactly the listed keys at every level');
        return;
    }
    if (what === 'replacer') {
        const x = V.int('x', 0, 9);
        const o = { a: x, b: [x, { a: 5 }], c: 'q' };
        const drop = V.choice('drop', ['a', 'b', 'c', '0', '1', 'none']);
        const r = await get(o, { replacer: (k, v) => (k === drop ? undefined : typeof v === 'string' ? v + '!' : v) });
        V.observe(r.ok ? r.value : 'failed');
        V.check(r.ok && V.truth(V.eq(r.value, JSON.stringify(o, (k, v) => (k === drop ? undefined : typeof v === 'string' ? v + '!' : v)))), 'a replacer works as in the standard');
        return;
    }
    const how = V.choice('how', ['toJSON', 'replacer', 'compare']);
    const x = V.int('x', 0, 9);
    const r = await get(how === 'toJSON' ? { a: { toJSON: () => { throw new Error('no'); } } } : { a: x, b: 1 }, how === 'replacer' ? { replacer: () => { throw new Error('no'); } } : how === 'compare' ? { compare: () => { throw new Error('no'); } } : undefined);
    V.check(!r.ok, 'failures come out as a rejected promise');
};
