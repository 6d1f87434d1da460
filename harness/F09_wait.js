'use strict';
exports.bounds = [
    'timeoutLog: every whole duration from -2^31 to 2^32 milliseconds, with no template and with templates of up to 3 parts; other kinds of values as duration',
    'clearTimeoutAll: 0..3 (thorough 4) timers with delays of any 0..9 milliseconds, some cleared or run before, numbers of timers that start anywhere'
];
exports.stubs = ['virtual clock with numbers as handles, as in browsers', 'console.log records what it is given'];
exports.outside = ['time zones with a change of clocks in January 2000', 'Node handles of timers (the function is for browsers: Node can only clear a timer by number when the number was asked for)'];
exports.cases = tier => {
    const out = [{ name: 'kinds', params: { what: 'kinds' } }];
    for (const r of ['ms', 'seconds', 'day', 'days', 'out', 'template']) out.push({ name: r, params: { what: r } });
    for (let n = 0; n <= (tier === 'quick' ? 3 : 4); n++) out.push({ name: 'clear' + n, params: { what: 'clear', n } });
    return out;
};
exports.mustReach = () => ['exact days', 'fraction', 'refused', 'pending'];
exports.run = (V, { what, n }) => {
    const DAY = 864e5;
    if (what === 'clear') {
        const fired = [];
        const timers = new Map();
        let next = V.int('first', 1, 99);
        let now = 0;
        V.env.setTimeout = (f, ms) => {
            const id = next;
            next = next + 1;
            timers.set(id, { f, id });
            return id;
        };
        V.env.clearTimeout = id => {
            for (const [k] of timers) if (V.truth(k === id)) return void timers.delete(k);
        };
        void now;
        const { clearTimeoutAll } = V.load('function');
        const before = V.env.setTimeout;
        const ids = [];
        for (let i = 0; i < n; i++) {
            const id = before(() => fired.push(i), 5);
            ids.push(id);
            const fate = V.choice('fate' + i, ['pending', 'run', 'cleared']);
            V.cover(fate);
            if (fate !== 'pending') timers.delete(id);
        }
        const r = clearTimeoutAll();
        V.check(timers.size === 0, 'no timer is left');
        V.check(ids.every(id => V.truth(r > id)), 'the number of the last timer is given back');
        before(() => fired.push('new'), 1);
        V.check(timers.size === 1 && fired.length === 0, 'timers set afterwards stay');
        return;
    }
    const lines = [];
    V.env.console = { log: (...a) => lines.push(a) };
    const { timeoutLog } = V.load('function');
    if (what === 'kinds') {
        const v = V.choice('v', [null, undefined, '5', 1.5, NaN, Infinity, -1, true, {}, [], 2147483648, -0.5]);
        const r = V.attempt(() => timeoutLog(v));
        V.cover('refused');
        V.check(!r.ok && r.error instanceof TypeError && lines.length === 0, 'only whole durations are shown');
        return;
    }
    const [lo, hi] = { ms: [0, 999], seconds: [1000, DAY - 1], day: [DAY, 2 * DAY - 1], days: [2 * DAY, 2147483647], out: [-(2 ** 31), 2 ** 32], template: [0, 999] }[what];
    const t = V.int('t', lo, hi);
    const parts = what === 'template' ? V.choice('parts', [['{}'], ['', ''], ['a', 'b'], ['a {} b {}'], ['{', '}'], ['$&', '$1']]) : null;
    const template = parts && parts.join('{}');
    const r = V.attempt(() => (parts ? timeoutLog(t, template) : timeoutLog(t)));
    if (what === 'out') {
        V.assume(V.or(t < 0, t > 2147483647));
        V.check(!r.ok && r.error instanceof TypeError && lines.length === 0, 'negative and too long durations are refused');
        return;
    }
    V.check(r.ok && lines.length === 1 && lines[0].length === 1, 'one line is written');
    const ms = t % 1000;
    const s = Math.floor(t / 1000) % 60;
    const m = Math.floor(t / 60000) % 60;
    const h = Math.floor(t / 3600000) % 24;
    const d = Math.floor(t / DAY);
    const two = x => String(x + 100).slice(1);
    let text;
    if (what === 'ms' || parts) text = String(ms) + 'ms';
    else {
        const frac = V.truth(ms === 0) ? '' : '.' + String(ms + 1000).slice(1);
        if (frac) V.cover('fraction');
        const time = two(h) + ':' + two(m) + ':' + two(s) + frac;
        if (what === 'seconds') text = time;
        else if (V.truth(t % DAY === 0)) (text = String(d) + '天'), V.cover('exact days');
        else text = String(d) + '天 ' + time;
    }
    V.observe(lines[0][0]);
    const want = parts ? template.split('{}').join(text) : '等待 ' + text;
    V.check(V.eq(lines[0][0], want), 'days, hours, minutes, seconds and milliseconds of the duration');
};
