'use strict';
exports.bounds = ['any count of 0..4 with 6 calls; any number at all for the refusal of invalid counts; up to 5 bound and 5 call arguments, arrays among them; failures of the wrapped function at any call'];
exports.cases = tier => {
    const out = [];
    for (const what of ['after', 'only']) out.push({ name: what, params: { what } }, { name: what + '-bad', params: { what, bad: true } });
    for (let k = 0; k <= 2; k++) out.push({ name: 'once' + k, params: { what: 'once', k } });
    return out;
};
exports.run = (V, { what, bad, k }) => {
    const { once, runAfterTimes, runOnlyNTimes } = V.load('function');
    const lib = what === 'after' ? runAfterTimes : runOnlyNTimes;
    if (bad) {
        const n = V.fp('count');
        const f = V.choice('f', ['sync', 'async', 'text']);
        const fn = f === 'sync' ? () => 1 : f === 'async' ? async () => 1 : 'no function';
        const r = V.attempt(() => lib(n, fn));
        V.observe(r.ok);
        const good = V.and(n >= 0, n <= 9007199254740991, n === Math.trunc(n), f === 'sync');
        V.check(V.iff(r.ok, good), 'counts that are no safe non-negative integers and functions that are not synchronous are refused');
        if (!r.ok) V.check(r.error instanceof TypeError, 'the refusal is a type error');
        return;
    }
    const bound = V.array(V.choice('nb', [0, 1, 2, 5]), i => (i % 2 ? [i] : { bound: i }));
    const given = [];
    const calls = [];
    const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
    if (what === 'once') {
        // the first k executions fail
        const fn = (...args) => {
            calls.push(args);
            if (calls.length <= k) throw new Error('not yet');
            return calls.length === k + 1 && V.choice('res', ['object', 'undefined']) === 'undefined' ? undefined : calls[calls.length - 1];
        };
        const f = once(fn, ...bound);
        let first;
        for (let i = 0; i < k + 3; i++) {
            const args = V.array(V.choice('na' + i, [0, 1, 3]), j => (j % 2 ? { i, j } : [i, j]));
            const r = V.attempt(() => f(...args));
            V.check(r.ok === i >= k, 'a failed execution is passed on and does not count');
            if (i <= k) V.check(same(calls[i], bound.concat(args)), 'bound arguments come before call arguments');
            if (i === k) first = r.value;
            if (i > k) V.check(r.value === first, 'later calls return the first result');
        }
        V.observe(calls.length);
        V.check(calls.length === k + 1, 'the function is executed until it succeeds once');
        return;
    }
    const n = V.int('count', 0, 4);
    const fn = (...args) => {
        calls.push(args);
        return calls.length;
    };
    let f = lib(n, fn, ...bound);
    let cur = f;
    const chained = what === 'after' && V.choice('how', ['same', 'chained']) === 'chained';
    for (let i = 1; i <= 6; i++) {
        const args = what === 'only' ? V.array([0, 1, 2, 5][i % 4], j => (j % 2 ? { i, j } : [i, j])) : [];
        const before = calls.length;
        const r = (chained ? cur : f)(...args);
        const ran = calls.length - before;
        const should = what === 'after' ? i >= n : i <= n;
        V.check(V.iff(ran === 1, should), what === 'after' ? 'the callback runs from the given number of calls on' : 'the callback runs for the given number of calls only');
        V.check(ran <= 1, 'one call runs the callback at most once');
        if (ran) {
            V.check(r === calls.length, 'the result of the callback is returned');
            V.check(same(calls[calls.length - 1], bound.concat(args)), 'the callback gets the bound and the call arguments');
        } else if (what === 'after') V.check(typeof r === 'function', 'before that the waiting function is returned');
        else V.check(r === undefined, 'after that nothing is returned');
        if (typeof r === 'function') cur = r;
        else if (chained) break;
    }
    V.observe(calls.length);
};
