'use strict';
exports.bounds = ['any duration as integer, decimal text, function, list of 1..3 entries or range with bounds inside +-1000; any double for the refusal of invalid durations; tasks that finish, fail or throw after any delay of 0..30 ms'];
exports.stubs = ['virtual clock', 'Math.random returns an arbitrary multiple of 2^-20 in [0, 1)'];
const FORMS = ['int', 'text', 'function', 'list', 'range', 'half-range', 'deep'];
exports.cases = tier => {
    const out = [];
    for (const f of FORMS) out.push({ name: 'resolve-' + f, params: { what: 'resolve', f } });
    for (const f of ['number', 'range-fp', 'type']) out.push({ name: 'refuse-' + f, params: { what: 'refuse', f } });
    for (const w of ['delay', 'delaySync', 'delayReturn', 'delayRun', 'timeoutOr', 'setTimeout']) out.push({ name: w, params: { what: w } });
    return out;
};
exports.mustReach = () => ['list 0', 'list 1', 'list 2', 'lowest of an ascending range', 'highest of an ascending range', 'lowest of a descending range', 'highest of a descending range'];
exports.run = async (V, { what, f }) => {
    const lib = V.load('function');
    const now = () => V.env.clock.now;
    if (what === 'resolve') {
        let arg;
        let lo;
        let hi;
        let pickList = null;
        const a = f === 'list' ? 0 : V.int('a', -1000, 1000);
        if (f === 'int') arg = lo = hi = a;
        if (f === 'text') {
            arg = String(a);
            lo = hi = a;
        }
        if (f === 'function') {
            arg = () => a;
            lo = hi = a;
        }
        if (f === 'list') {
            pickList = V.array(V.size('n', 1, 3), i => V.int('l' + i, 0, 1000));
            arg = pickList;
        }
        if (f === 'range' || f === 'deep') {
            const b = V.int('b', -1000, 1000);
            arg = { start: a, end: b };
            lo = V.ite(a <= b, a, b);
            hi = V.ite(a <= b, b, a);
            if (f === 'deep') arg = (x => () => [x])(arg);
        }
        if (f === 'half-range') {
            const which = V.choice('which', ['start', 'end']);
            arg = { [which]: a };
            lo = V.ite(a <= 0, a, 0);
            hi = V.ite(a <= 0, 0, a);
        }
        const r = lib.timeoutMsResolve(arg);
        V.observe(r);
        if (pickList) {
            V.check(V.or(...pickList.map(x => r === x)), 'the duration is one of the listed ones');
            if (pickList.length === 3) pickList.forEach((x, i) => {
                if (V.truth(V.and(...pickList.map((y, j) => (j === i ? r === x : V.not(r === y)))))) V.cover('list ' + i);
            });
            return;
        }
        const zlo = V.ite(lo < 0, 0, lo);
        const zhi = V.ite(hi < 0, 0, hi);
        V.check(zlo <= r, 'the duration is not below the range');
        V.check(r <= zhi, 'the duration is not above the range');
        if (f === 'range' && V.truth(V.and(lo > 0, hi === lo + 3))) {
            const dir = V.truth(a < lo + 1) ? 'an ascending' : 'a descending';
            if (V.truth(r === lo)) V.cover('lowest of ' + dir + ' range');
            if (V.truth(r === hi)) V.cover('highest of ' + dir + ' range');
        }
        return;
    }
    if (what === 'refuse') {
        let arg;
        let good = false;
        if (f === 'number') {
            const x = (arg = V.fp('x'));
            good = V.and(x === Math.trunc(x), x >= -9007199254740991, x <= 2147483647);
        } else if (f === 'range-fp') {
            const x = V.fp('x');
            arg = V.choice('which', ['both']) && { start: x, end: x };
            good = V.and(x === Math.trunc(x), x >= -9007199254740991, x <= 2147483647);
        } else arg = V.choice('arg', [null, undefined, true, 10n, 'ten', [], () => null, ['x']]);
        const r = V.attempt(() => lib.timeoutMsResolve(arg));
        V.observe(r.ok);
        V.check(V.iff(r.ok, good), 'exactly durations that resolve to an integer of at most 2147483647 are accepted');
        if (!r.ok) V.check(r.error instanceof TypeError, 'the refusal is a type error');
        return;
    }
    if (what === 'delaySync') {
        const ms = V.int('ms', 0, 6);
        const start = 1000;
        let t = start;
        let last = start;
        let i = 0;
        Object.defineProperty(V.env.clock, 'now', { get() {
            const r = (last = t);
            t = t + V.int('tick' + i++, 1, 9);
            return r;
        } });
        lib.delaySync(ms);
        V.check(last - start >= ms, 'blocking lasts at least the duration');
        return;
    }
    const ms = V.int('ms', -5, what === 'delay' || what === 'setTimeout' ? 2147483647 : 40);
    const wait = V.ite(ms < 0, 0, ms);
    const t0 = now();
    if (what === 'delay') {
        const s = await V.settle(lib.delay(ms));
        V.check(s.status === 'fulfilled' && now() - t0 === wait, 'a delay ends exactly when its time is over');
        return;
    }
    if (what === 'setTimeout') {
        const got = [];
        const h = lib.setTimeout((...a) => got.push(now(), ...a), ms, 'x', 'y');
        V.check(got.length === 0, 'the callback does not run at once');
        const drop = V.choice('drop', ['keep', 'clear']);
        if (drop === 'clear') V.env.clearTimeout(h);
        await V.drain();
        while (V.fireNext()) await V.flush();
        V.check(got.length === (drop === 'keep' ? 3 : 0), 'the callback runs once unless cleared');
        if (drop === 'keep') V.check(V.and(got[0] - t0 === V.ite(wait < 1, 1, wait), got[1] === 'x', got[2] === 'y'), 'the callback runs in time with its arguments');
        return;
    }
    const kind = V.choice('kind', ['sync', 'throw', 'late', 'fail', 'promise']);
    const d = kind === 'late' || kind === 'fail' ? V.int('d', 1, 40) : 0;
    const val = {};
    const err = new Error('task');
    const got = [];
    let calledAt = -1;
    const task = (...a) => {
        got.push(a);
        calledAt = now();
        if (kind === 'throw') throw err;
        if (kind === 'sync') return val;
        return new Promise((ok, no) => V.env.setTimeout(() => (kind === 'fail' ? no(err) : ok(val)), d));
    };
    const input = kind === 'promise' ? Promise.resolve(val) : task;
    const bad = kind === 'throw' || kind === 'fail';
    if (what === 'delayReturn' || what === 'delayRun') {
        if (what === 'delayRun' && kind === 'promise') return;
        const s = await V.settle(lib[what](ms, input, 'p', 'q'));
        V.observe([s.status, now() - t0]);
        if (kind !== 'promise') V.check(got.length === 1 && got[0].length === 2 && got[0][0] === 'p' && got[0][1] === 'q', 'the task runs once with its arguments');
        V.check(s.status === (bad ? 'rejected' : 'fulfilled') && (bad ? s.reason === err : s.value === val), 'the outcome is the outcome of the task');
        if (what === 'delayRun') {
            V.check(calledAt - t0 === wait, 'the task starts when the delay is over');
            V.check(now() - t0 === wait + d, 'the result comes when the task ends');
        } else {
            if (kind !== 'promise') V.check(calledAt === t0, 'the task starts at once');
            V.check(now() - t0 === V.ite(d < wait, wait, d), 'the result comes when both the task and the delay are over');
        }
        return;
    }
    // timeoutOr
    const alt = {};
    const back = V.choice('back', ['function', 'value', 'promise', 'throws', 'none']);
    const alts = [];
    const late = new Error('late');
    const callback = back === 'function' ? (...a) => {
        alts.push(a);
        return alt;
    } : back === 'value' ? alt : back === 'promise' ? Promise.resolve(alt) : back === 'throws' ? () => {
        alts.push([]);
        throw late;
    } : undefined;
    const s = await V.settle(lib.timeoutOr(ms, input, callback, 'p', 'q'));
    V.observe([s.status, now() - t0]);
    const due = V.ite(wait < 1, 1, wait);
    const over = V.truth(d > due) || (V.truth(d === due) && s.value !== val && s.reason !== err);
    if (!over) V.check(s.status === (bad ? 'rejected' : 'fulfilled') && (bad ? s.reason === err : s.value === val), 'in time, the outcome is the outcome of the task');
    else {
        V.check(s.status === (back === 'throws' ? 'rejected' : 'fulfilled'), 'out of time, the outcome is that of the fallback');
        V.check(back === 'throws' ? s.reason === late : s.value === (back === 'none' ? undefined : alt), 'out of time, the result is that of the fallback');
        if (back === 'function') V.check(alts.length === 1 && alts[0][0] === 'p' && alts[0][1] === 'q', 'the fallback gets the arguments');
    }
    V.check(now() - t0 === V.ite(d < due, d, due), 'the result comes with the earlier of the two');
    while (V.fireNext()) await V.flush();
    if (!over) V.check(alts.length === 0, 'the fallback does not run once the task has ended in time');
    if (kind !== 'promise') V.check(got.length === 1 && V.eq(got[0], ['p', 'q']), 'the task gets the arguments');
    V.check(got.length <= 1 && alts.length <= 1, 'nothing runs twice');
};
