'use strict';
exports.bounds = ['0..3 retries (thorough 4); each attempt succeeds, throws or rejects; the retry callback returns true, another truthy value or nothing; any fixed wait of 0..40 ms or any random wait range inside it; 6 (thorough 12) retries of a task that fails alike each time, also with values that are no errors'];
exports.outside = ['callbacks that throw'];
exports.stubs = ['virtual clock', 'Math.random returns an arbitrary multiple of 2^-20 in [0, 1)'];
exports.cases = tier => {
    const out = [];
    for (let m = 0; m <= (tier === 'quick' ? 3 : 4); m++) for (const onError of ['none', 'value', 'void']) for (const onRetry of [false, true]) for (const wait of ['none', 'fixed', 'range']) {
        if (wait === 'range' && m > 2) continue;
        out.push({ name: `m${m}-${onError}${onRetry ? '-onRetry' : ''}-${wait}`, params: { m, onError, onRetry, wait } });
    }
    for (const onError of ['none', 'value', 'void']) for (const onRetry of [false, true]) out.push({ name: `odd-${onError}${onRetry ? '-onRetry' : ''}`, params: { m: tier === 'quick' ? 6 : 12, onError, onRetry, wait: 'fixed', odd: true } });
    return out;
};
exports.mustReach = () => ['range first', 'range last'];
exports.run = async (V, { m, onError, onRetry, wait, odd }) => {
    const { retry } = V.load('function');
    const kinds = [];
    const errs = [];
    const starts = [];
    const log = [];
    const said = [];
    // longer runs that fail the same way each time, with errors and other values
    const same = Object.assign(new Error('again'), { name: 'AbortError', code: 'ABORT_ERR' });
    const failure = odd ? V.choice('failure', ['text', undefined, null, 0, false, 'same', 'mixed']) : 0;
    const succeed = odd ? V.size('succeed', 0, m + 1) : 0;
    const kindOf = odd ? k => (k === succeed ? 'ok' : k % 2 ? 'throw' : 'reject') : k => (kinds[k] === undefined ? (kinds[k] = V.choice('k' + k, ['ok', 'throw', 'reject', 'late'])) : kinds[k]);
    const calm = odd ? V.choice('calm', ['one', 'none']) : 0;
    const saidAt = odd ? () => calm : k => (said[k] === undefined ? (said[k] = V.choice('s' + k, ['true', 'one', 'none'])) : said[k]);
    const opts = {};
    let lo = 0;
    let hi = 0;
    if (wait === 'fixed') lo = hi = opts.retryWait = V.int('w', 0, 40);
    if (wait === 'range') {
        lo = V.int('lo', 0, 40);
        hi = V.int('hi', 0, 40);
        V.assume(V.truth(lo <= hi));
        opts.retryWait = { start: lo, end: hi };
    }
    const fallback = {};
    if (onError !== 'none') opts.onError = e => {
        log.push(['error', e]);
        return onError === 'value' ? fallback : undefined;
    };
    if (onRetry) opts.onRetry = (e, k) => {
        log.push(['retry', e, k]);
        const s = saidAt(k);
        return s === 'true' ? true : s === 'one' ? 1 : undefined;
    };
    const values = [];
    let n = 0;
    const ends = [];
    const task = () => {
        const k = n++;
        starts.push(V.env.clock.now);
        errs[k] = !odd ? new Error('attempt ' + k) : failure === 'same' ? same : failure === 'mixed' ? [same, undefined, 'text', new TypeError('t'), same, { code: 1 }][k % 6] : failure;
        values[k] = { k };
        const kind = kindOf(k);
        if (kind === 'late') return new Promise((ok, no) => V.env.setTimeout(() => {
            ends[k] = V.env.clock.now;
            no(errs[k]);
        }, 5));
        ends[k] = V.env.clock.now;
        if (kind === 'throw') throw errs[k];
        return kind === 'ok' ? Promise.resolve(values[k]) : Promise.reject(errs[k]);
    };
    const s = await V.settle(retry(m, task, opts));
    V.observe([s.status, n, log.length]);
    // what the documentation asks for
    const expectLog = [];
    let attempts = 0;
    let status;
    let value;
    for (let k = 0; ; k++) {
        attempts = k + 1;
        if (kindOf(k) === 'ok') {
            status = 'fulfilled';
            value = values[k];
            break;
        }
        if (onRetry && k > 0) {
            expectLog.push(['retry', errs[k], k]);
            if (saidAt(k) === 'true') {
                status = 'fulfilled';
                if (onError !== 'none') expectLog.push(['error', errs[k]]);
                value = onError === 'value' ? fallback : undefined;
                break;
            }
        }
        if (k === m) {
            if (onError === 'none') status = 'rejected';
            else {
                status = 'fulfilled';
                expectLog.push(['error', errs[k]]);
                value = onError === 'value' ? fallback : undefined;
            }
            break;
        }
    }
    V.check(n === attempts, 'the task runs until it succeeds, retrying is called off or the retries are used up');
    V.check(s.status === status, 'the result fails exactly when every attempt failed and nothing handles the failure');
    V.check(log.length === expectLog.length && log.every((e, i) => e.length === expectLog[i].length && e.every((x, j) => x === expectLog[i][j])), 'the callbacks see every failed retry and the last failure, in order');
    if (status === 'fulfilled') V.check(s.value === value, 'the result is the value of the successful attempt or of the error callback');
    else {
        V.check(s.reason instanceof AggregateError, 'the failure is an aggregate error');
        V.check(s.reason.errors.length === errs.length && s.reason.errors.every((e, i) => Object.is(e, errs[i])), 'the aggregate error lists every failure in order');
    }
    for (let k = 1; k < n; k++) {
        const gap = starts[k] - ends[k - 1];
        V.check(lo <= gap, 'a retry waits at least as long as asked');
        V.check(gap <= hi, 'a retry waits no longer than asked');
        if (wait === 'range' && k === 1 && m === 1 && onError === 'none' && V.truth(lo + 2 === hi)) {
            if (V.truth(gap === lo)) V.cover('range first');
            if (V.truth(gap === hi)) V.cover('range last');
        }
    }
};
