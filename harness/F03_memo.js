'use strict';
exports.bounds = ['histories of 4 operations (thorough 5): calls with one of two keys (any integers or texts), pauses of 0..20 ms, clearing, deleting a key; no time limit or any limit of 0..20 ms; asynchronous computations take 1..9 ms and succeed or fail; 14 keys of all kinds at once, results of all kinds'];
exports.outside = ['clearing or deleting a key while its asynchronous computation is still running'];
exports.stubs = ['virtual clock'];
exports.cases = tier => {
    const out = [];
    for (const what of ['sync', 'async']) for (const limit of [false, true]) out.push({ name: `many-${what}${limit ? '-limit' : ''}`, params: { what, limit, many: true } });
    const K = tier === 'quick' ? 4 : 5;
    for (const what of ['sync', 'async']) for (const limit of [false, true]) for (const keys of what === 'sync' ? ['int', 'text'] : ['int']) for (const first of what === 'async' ? ['call', 'call-fail'] : ['call']) out.push({ name: `${what}-${limit ? 'limit' : 'forever'}-${keys}${first === 'call' ? '' : '-fails'}`, params: { what, limit, keys, K: what === 'async' ? Math.min(K, limit ? 3 : 4) + (tier === 'quick' ? 0 : 1) : K, first } });
    return out;
};
const many = async (V, what, limit) => {
    const memoizeWith = V.load(`function/src/cache/${what === 'sync' ? 'memoizeWith' : 'memoizeWithAsync'}`);
    const object = {};
    const keys = [NaN, undefined, null, 0, '', '0', '__proto__', 'constructor', object, {}, true, 'true', 1.5, Symbol.iterator];
    const odd = V.choice('result', [undefined, null, false, 0, NaN, '', 'text']);
    const at = V.choice('at', [0, 3, 6, 13]);
    const ms = limit ? V.int('limit', 30, 60) : undefined;
    const values = keys.map((k, i) => (i === at ? odd : { i }));
    let runs = keys.map(() => 0);
    const fn = k => {
        const i = keys.findIndex(x => Object.is(x, k));
        runs[i]++;
        return what === 'sync' ? values[i] : new Promise(ok => V.env.setTimeout(() => ok(values[i]), 5));
    };
    const m = memoizeWith(fn, k => k, ms);
    const all = async () => {
        const got = keys.map(k => m(k));
        const again = keys.map(k => m(k));
        for (let i = 0; i < keys.length; i++) {
            const [x, y] = what === 'sync' ? [got[i], again[i]] : [(await V.settle(got[i])).value, (await V.settle(again[i])).value];
            V.check(Object.is(x, values[i]) && Object.is(y, values[i]), 'the result of its key');
        }
    };
    await all();
    V.check(runs.every(n => n === 1), 'each key is computed once');
    const start = V.env.clock.now;
    await all();
    V.check(runs.every(n => n === 1), 'nothing is computed again');
    // one key is deleted: it alone is computed again
    const gone = V.choice('gone', [0, 1, 3, 8, 13]);
    m.delete(keys[gone]);
    await all();
    V.check(runs.every((n, i) => n === (i === gone ? 2 : 1)), 'a deleted key alone is computed again');
    if (limit) {
        // asking does not make results last longer
        let over = false;
        V.env.setTimeout(() => {
            over = true;
        }, V.int('pause', 1, 99));
        while (!over) {
            V.fireNext();
            await V.flush();
        }
        const late = V.env.clock.now > start + ms;
        const early = V.env.clock.now < start + ms - 20;
        await all();
        if (V.truth(late)) V.check(runs.every((n, i) => i === gone || n === 2), 'expired results are computed again');
        else if (V.truth(early)) V.check(runs.every((n, i) => n === (i === gone ? 2 : 1)), 'fresh results are used');
        return;
    }
    m.clear();
    await all();
    V.check(runs.every((n, i) => n === (i === gone ? 3 : 2)), 'after clearing, each is computed once more');
    V.check(m.cache.size === keys.length, 'the store has one result for each key');
};
exports.run = async (V, { what, limit, keys, K, first, many: wide }) => {
    if (wide) return many(V, what, limit);
    const memoizeWith = V.load(`function/src/cache/${what === 'sync' ? 'memoizeWith' : 'memoizeWithAsync'}`);
    const key = keys === 'int' ? [V.int('ka', 0, 9), V.int('kb', 0, 9)] : [V.str('ka', 2), V.str('kb', 2)];
    const ms = limit ? V.int('limit', 0, 20) : undefined;
    let computed = [];
    const inner = [];
    const hashed = [];
    const fn = (k, extra) => {
        const v = { k, extra, n: computed.length };
        computed.push(v);
        if (what === 'sync') return v;
        const fails = first === 'call-fail' && computed.length === 1;
        const p = new Promise((ok, no) => V.env.setTimeout(() => {
            // recorded at the moment the computation ends
            const e = entry(k);
            e.flying = null;
            if (!fails) {
                e.value = v;
                e.at = V.env.clock.now;
            }
            fails ? no(v) : ok(v);
        }, V.int('d' + computed.length, 1, 9)));
        const e = entry(k);
        e.flying = v;
        e.fails = fails;
        return p;
    };
    const table = [];
    const entry = k => {
        for (const e of table) if (V.truth(V.is(e.k, k))) return e;
        const e = { k, value: null, flying: null, at: 0 };
        table.push(e);
        return e;
    };
    const fresh = e => e.value !== null && (!limit || V.truth(V.env.clock.now <= e.at + ms));
    const m = memoizeWith(fn, (k, extra) => k, ms);
    const pending = [];
    for (let i = 0; i < K; i++) {
        const op = i === 0 ? 'call0' : V.choice('op' + i, what === 'sync' && !limit ? ['call0', 'call1', 'clear', 'delete0', 'delete1'] : ['call0', 'call1', 'clear', 'delete0']);
        if (i > 0 && (limit || what === 'async')) {
            // let time pass
            let over = false;
            V.env.setTimeout(() => {
                over = true;
            }, V.int('gap' + i, 1, 20));
            await V.drain();
            while (!over) {
                V.fireNext();
                await V.flush();
            }
        }
        if (op.startsWith('call')) {
            const k = key[Number(op[4])];
            const e = entry(k);
            const before = computed.length;
            const expect = fresh(e) ? e.value : e.flying;
            const shares = !fresh(e) && e.flying;
            const fails = shares && e.fails;
            const r = m(k, i);
            if (expect) V.check(computed.length === before, 'a stored or running computation is used instead of a new one');
            else {
                V.check(computed.length === before + 1, 'an absent or expired result is computed once');
                V.check(V.is(computed[before].k, k), 'the computation gets the arguments of the call');
                V.check(computed[before].extra === i, 'the computation gets every argument of the call');
            }
            const v = expect || computed[before];
            if (what === 'sync') {
                if (!expect) {
                    e.value = v;
                    e.at = V.env.clock.now;
                }
                V.check(r === v, 'a call returns the result of its key');
            } else pending.push([r, v, shares ? fails : !expect && e.fails]);
        } else if (op === 'clear') {
            V.assume(table.every(e => !e.flying));
            m.clear();
            for (const e of table) e.value = null;
        } else {
            const e = entry(key[Number(op[6])]);
            V.assume(!e.flying);
            m.delete(key[Number(op[6])], 'other');
            e.value = null;
        }
    }
    for (const [p, v, fails] of pending) {
        const s = await V.settle(p);
        V.check(s.status === (fails ? 'rejected' : 'fulfilled'), 'an asynchronous call ends like its computation');
        V.check((fails ? s.reason : s.value) === v, 'an asynchronous call returns the result of its key');
    }
    V.observe(computed.length);
    V.check(m.cache && m.cache.has(key[0]) === (entry(key[0]).value !== null), 'the store of results can be seen');
    // afterwards every key is recomputed exactly when nothing fresh is stored
    const e = entry(key[0]);
    const before = computed.length;
    const is = fresh(e);
    m(key[0], 'last');
    V.check(computed.length === before + (is ? 0 : 1), 'a failed, cleared or expired result is not served');
};
