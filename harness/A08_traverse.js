'use strict';
exports.bounds = ['arrays of 0..3 elements (thorough 4); each callback finishes after any delay of 1..9 ms, returns true, another truthy value or nothing, or fails; arrays of 12 elements with one unusual result, stop or failure'];
exports.stubs = ['virtual clock: timers fire in order of their symbolic due times'];
const SYNC = ['each', 'eachRight', 'mapRight'];
const SERIAL = ['eachAsync', 'eachRightAsync', 'mapAsync', 'mapRightAsync'];
const PAR = ['eachParallel', 'eachRightParallel', 'mapParallel', 'mapRightParallel'];
exports.cases = tier => {
    const out = [];
    const N = tier === 'quick' ? 3 : 4;
    for (const f of SYNC.concat(SERIAL, PAR)) for (let n = 0; n <= N; n++) out.push({ name: f + n, params: { f, n } });
    for (const f of SYNC.concat(SERIAL, PAR)) out.push({ name: f + '-many', params: { f, n: 12, many: true } });
    return out;
};
exports.run = async (V, { f, n, many }) => {
    const lib = V.load('array');
    if (many) {
        // a longer array: one element stops, fails or gives an unusual result
        const stop = V.choice('where', [0, 7, 11]);
        const kind = V.choice('kind', ['result', 'true', 'fail']);
        const odd = kind === 'true' ? true : kind === 'fail' ? V.choice('failure', [undefined, null, 0]) : V.choice('result', [[], [1], null, undefined, NaN, {}, false, '', 1, 'true']);
        const items = V.array(n, i => V.int('a' + i, 0, 99));
        const isRight = /Right/.test(f);
        const ord = Array.from({ length: n }, (_, i) => (isRight ? n - 1 - i : i));
        const seen = [];
        const back = (v, i, arr) => {
            V.check(arr === items && v === items[i], 'the element of its index and the array itself');
            seen.push(i);
            if (i !== stop) return /map/.test(f) ? -i : undefined;
            if (kind === 'fail') throw odd;
            return SYNC.includes(f) ? odd : Promise.resolve(odd);
        };
        let r;
        if (SYNC.includes(f)) {
            const t = V.attempt(() => lib[f](items, back));
            r = { status: t.ok ? 'fulfilled' : 'rejected', value: t.value, reason: t.error };
        } else r = await V.settle(lib[f](items, back));
        const cut = kind === 'fail' || (kind === 'true' && !/map/.test(f) && !PAR.includes(f));
        V.check(V.eq(seen, cut ? ord.slice(0, ord.indexOf(stop) + 1) : ord), 'every element once, in order, up to the end');
        V.check(r.status === (kind === 'fail' ? 'rejected' : 'fulfilled'), 'fails with its callback');
        if (kind === 'fail') V.check(Object.is(r.reason, odd), 'the failure of the callback');
        else if (/map/.test(f)) V.check(r.value.length === n && ord.every((i, k) => Object.is(r.value[k], i === stop ? odd : -i)), 'the results in visiting order');
        return;
    }
    const a = V.array(n, i => V.int('a' + i, 0, 99));
    const right = /Right/.test(f);
    const isMap = f.startsWith('map');
    const order = Array.from({ length: n }, (_, i) => (right ? n - 1 - i : i));
    const what = V.array(n, i => V.choice('w' + i, SYNC.includes(f) ? ['none', 'true', 'one', 'throw'] : ['none', 'true', 'one', 'reject', 'throw', 'plain']));
    const res = what.map((w, i) => (w === 'true' ? true : isMap ? a[i] * 2 : w === 'one' ? 1 : undefined));
    const errs = a.map((_, i) => new Error('e' + i));
    const started = [];
    let running = 0;
    let peak = 0;
    const delays = PAR.includes(f) ? V.array(n, i => V.int('d' + i, 1, 9)) : V.array(n, () => 1);
    const cb = (v, i, arr) => {
        V.check(arr === a, 'the callback sees the array itself');
        V.check(v === a[i], 'the callback sees the element of its index');
        started.push(i);
        if (what[i] === 'throw') throw errs[i];
        if (SYNC.includes(f) || what[i] === 'plain') return res[i];
        running++;
        if (running > peak) peak = running;
        return new Promise((ok, no) =>
            V.env.setTimeout(() => {
                running--;
                if (what[i] === 'reject') no(errs[i]);
                else ok(res[i]);
            }, delays[i])
        );
    };
    // where a traversal stops
    const bad = order.findIndex(i => what[i] === 'throw' || what[i] === 'reject');
    const hit = isMap || PAR.includes(f) ? -1 : order.findIndex(i => what[i] === 'true');
    let end = n;
    let err = null;
    if (SYNC.includes(f) || SERIAL.includes(f)) {
        if (bad >= 0 && (hit < 0 || bad < hit)) {
            end = bad + 1;
            err = errs[order[bad]];
        } else if (hit >= 0) end = hit + 1;
    }
    if (SYNC.includes(f)) {
        const r = V.attempt(() => lib[f](a, cb));
        V.observe([started, r.ok ? r.value : 'error']);
        V.check(V.eq(started, order.slice(0, end)), 'elements are visited in order, once, up to a strict true or an exception');
        V.check(r.ok === (err === null), 'an exception of the callback comes out, nothing else does');
        if (!r.ok) V.check(r.error === err, 'the exception is the one the callback threw');
        else if (isMap) V.check(V.eq(r.value, order.map(i => res[i])), 'results are in visiting order');
        else V.check(r.value === undefined, 'nothing is returned');
        return;
    }
    const p = lib[f](a, cb);
    if (PAR.includes(f)) {
        const thrown = order.findIndex(i => what[i] === 'throw');
        V.check(V.eq(started, thrown < 0 ? order : order.slice(0, thrown + 1)), 'all callbacks start in order without waiting for each other');
        const s = await V.settle(p);
        V.observe([started, s.status]);
        V.check(s.status === (bad < 0 ? 'fulfilled' : 'rejected'), 'the result fails exactly when a callback fails');
        if (bad >= 0) {
            if (thrown >= 0) V.check(s.reason === errs[order[thrown]], 'an exception ends the traversal at once');
            else {
                // the earliest failing callback decides
                const k = errs.indexOf(s.reason);
                V.check(k >= 0 && what[k] === 'reject', 'the reason is one of the failures');
                for (let i = 0; i < n; i++) if (what[i] === 'reject') V.check(delays[k] <= delays[i], 'the first failure in time is the reason');
            }
            return;
        }
        V.check(running === 0, 'the result waits for every callback');
        if (isMap) V.check(V.eq(s.value, order.map(i => res[i])), 'results are in visiting order, whatever finishes first');
        return;
    }
    const s = await V.settle(p);
    V.observe([started, s.status, s.value]);
    V.check(V.eq(started, order.slice(0, end)), 'elements are visited in order, once, up to a strict true or a failure');
    V.check(peak <= 1, 'a serial traversal never runs two callbacks at a time');
    V.check(s.status === (err ? 'rejected' : 'fulfilled'), 'a failure of the callback comes out, nothing else does');
    if (err) V.check(s.reason === err, 'the reason is the failure of the callback');
    else if (isMap) V.check(V.eq(s.value, order.map(i => res[i])), 'results are in visiting order');
};
