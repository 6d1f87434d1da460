'use strict';
exports.bounds = ['0..3 tasks (thorough 4), each a plain value, a function that returns, throws, resolves or rejects after any delay of 1..9 ms; concurrency 1..tasks+1 or default; with and without error handling and one retry; 8 tasks in three fixed orders of finishing with one of any kind or result among them'];
exports.outside = ['what still runs after an unhandled failure', 'concurrency below one'];
exports.stubs = ['virtual clock'];
exports.cases = tier => {
    const out = [];
    const N = tier === 'quick' ? 3 : 4;
    for (let n = 0; n <= N; n++) for (let c = 0; c <= n + 1; c++) for (const mode of ['plain', 'handled', 'retried']) {
        if (c === 0 && n > 2) continue; // default concurrency equals c = n
        if (mode === 'retried' && n > 2 && tier === 'quick' && c !== 2) continue;
        if (n === 4 && (mode !== 'plain' || c < 2)) continue;
        out.push({ name: `n${n}-c${c}-${mode}`, params: { n, c, mode } });
    }
    for (const mode of ['plain', 'handled', 'retried']) for (const c of [0, 1, 2, 3, 4, 7, 9]) out.push({ name: `long-c${c}-${mode}`, params: { n: 8, c, mode, long: true } });
    return out;
};
exports.run = async (V, { n, c, mode, long }) => {
    const { parallel } = V.load('function');
    const slots = c === 0 ? n : c;
    const KINDS = n >= 4 ? ['late', 'fail'] : n === 3 ? ['plain', 'late', 'fail'] : ['plain', 'promise', 'sync', 'throw', 'late', 'fail'];
    // more tasks: one of any kind at some place, some that fail, and some orders of finishing
    const where = long ? V.choice('where', [0, 4, 7]) : -1;
    const pace = long ? V.choice('pace', [0, 1, 2]) : 0;
    const paces = [[5, 5, 5, 5, 5, 5, 5, 5], [8, 7, 6, 5, 4, 3, 2, 1], [2, 9, 4, 1, 7, 3, 8, 5]];
    const kind = V.array(n, i => (long ? (i === where ? V.choice('kind', ['plain', 'promise', 'sync', 'throw', 'fail', 'late']) : i % 4 === 3 && mode !== 'plain' ? 'fail' : 'late') : V.choice('k' + i, KINDS)));
    const dur = V.array(n, i => (kind[i] === 'late' || kind[i] === 'fail' ? (long ? paces[pace][i] : V.int('d' + i, 1, 9)) : 0));
    // with one retry, a failing task may succeed the second time
    const cured = V.array(n, i => mode === 'retried' && (kind[i] === 'fail' || kind[i] === 'throw') && (long ? (i === where ? V.choice('cure', [false, true]) : i === 3) : V.choice('again' + i, ['fails', 'works']) === 'works'));
    const result = long && mode === 'plain' ? V.choice('result', [undefined, null, false, 0, '', NaN, 'text']) : undefined;
    const val = V.array(n, i => (long && mode === 'plain' && i === where ? result : { value: i }));
    const alt = V.array(n, i => ({ instead: i }));
    // a task may fail with any value
    const odd = n === 1 ? V.choice('reason', [false, 'text', null, Object.freeze(new TypeError('frozen'))]) : false;
    const errs = V.array(n, i => (odd === false ? new Error('e' + i) : odd));
    const runs = V.array(n, () => 0);
    let active = 0;
    let peak = 0;
    const started = [];
    const startedAt = [];
    const data = [];
    const errors = [];
    const retries = [];
    const tasks = V.array(n, i => {
        if (kind[i] === 'plain') return val[i];
        if (kind[i] === 'promise') return Promise.resolve(val[i]);
        return () => {
            const again = runs[i]++ > 0;
            const bad = kind[i] === 'throw' || kind[i] === 'fail';
            const fails = bad && !(again && cured[i]);
            if (kind[i] === 'sync' || kind[i] === 'throw') {
                if (fails) throw errs[i];
                return val[i];
            }
            active++;
            if (active > peak) peak = active;
            return new Promise((ok, no) => V.env.setTimeout(() => {
                active--;
                fails ? no(errs[i]) : ok(val[i]);
            }, dur[i]));
        };
    });
    const options = {
        onStart(i, t) {
            V.check(Object.is(t, tasks[i]), 'the start callback gets the task of its index');
            started.push(i);
            startedAt.push(V.env.clock.now);
        },
        onData(i, r) {
            data.push([i, r]);
        }
    };
    if (c > 0) options.concurrency = c;
    if (mode === 'retried') {
        options.maxRetry = 1;
        options.retryWait = 3;
        options.onRetry = (i, e, k) => {
            retries.push([i, e, k]);
        };
    }
    if (mode !== 'plain') options.onError = (i, e) => {
        errors.push([i, e]);
        return alt[i];
    };
    const t0 = V.env.clock.now;
    const s = await V.settle(parallel(tasks, options));
    V.observe([s.status, started, data.map(d => d[0])]);
    const bad = i => (kind[i] === 'throw' || kind[i] === 'fail') && !cured[i];
    const anyBad = kind.some((_, i) => bad(i));
    V.check(peak <= Math.min(slots, n), 'no more tasks run at once than allowed');
    V.check(started.every((x, j) => x === j), 'tasks start in index order');
    if (mode === 'plain' && anyBad) {
        V.check(s.status === 'rejected', 'an unhandled failure fails the whole run');
        V.check(s.reason instanceof AggregateError && s.reason.errors.length === 1 && errs.some((e, i) => bad(i) && e === s.reason.errors[0]), 'the failure names the error of a failed task');
        return;
    }
    V.check(s.status === 'fulfilled', 'the run succeeds when every task succeeds or its failure is handled');
    V.check(started.length === n, 'every task is started once');
    V.check(active === 0, 'the result waits for every task');
    V.check(s.value.length === n && s.value.every((x, i) => Object.is(x, bad(i) ? alt[i] : val[i])), 'results are in task order, whatever finishes first');
    V.check(errors.length === kind.filter((_, i) => bad(i)).length && errors.every(([i, e]) => bad(i) && e === errs[i]), 'the error callback sees exactly the failed tasks');
    V.check(data.length === n && data.every(([i, r]) => Object.is(r, s.value[i])) && new Set(data.map(d => d[0])).size === n, 'the data callback sees every result once');
    for (let i = 0; i < n; i++) {
        if (kind[i] === 'plain' || kind[i] === 'promise') continue;
        const fails1 = kind[i] === 'throw' || kind[i] === 'fail';
        V.check(runs[i] === (mode === 'retried' && fails1 ? 2 : 1), 'a task runs again only after a failure, and only as often as allowed');
    }
    V.check(retries.every(([i, e, k]) => bad(i) && e === errs[i] && k === 1), 'the retry callback sees failed retries only');
    // list scheduling: a task starts as soon as the first slot is free
    const free = V.array(Math.min(slots, n), () => t0);
    for (let i = 0; i < n; i++) {
        let m = 0;
        for (let j = 1; j < free.length; j++) if (V.truth(free[j] < free[m])) m = j;
        V.check(startedAt[i] === free[m], 'a task starts as soon as a slot is free');
        const twice = mode === 'retried' && (kind[i] === 'throw' || kind[i] === 'fail');
        free[m] = free[m] + dur[i] + (twice ? dur[i] + 3 : 0);
    }
};
