'use strict';
exports.bounds = ['trees of up to 4 (thorough 5) processes of every shape, with process numbers in any order', 'answers of the listing in any order of time, cut into pieces anywhere', 'one process may change its parent between two listings', 'one listing may fail to start', 'every process may be gone or refuse the signal', 'Linux and macOS; Windows as one command'];
exports.outside = ['processes that start while the signals are sent', 'reuse of process numbers'];
exports.stubs = ['child_process.spawn: lists of the children in a table of processes', 'process.kill: records'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 1; n <= (q ? 4 : 5); n++) for (const platform of ['linux', 'darwin']) out.push({ name: `tree${n} on ${platform}`, params: { what: 'tree', n, platform } });
    for (let n = 1; n <= 3; n++) out.push({ name: 'gone' + n, params: { what: 'gone', n, platform: 'linux' } }, { name: 'cannot list' + n, params: { what: 'error', n, platform: 'darwin' } });
    out.push({ name: 'moving', params: { what: 'move', n: 4, platform: 'linux' } });
    for (const platform of ['linux', 'darwin', 'win32', 'aix']) out.push({ name: 'numbers on ' + platform, params: { what: 'numbers', n: 1, platform } });
    out.push({ name: 'windows', params: { what: 'windows', n: 1, platform: 'win32' } });
    return out;
};
exports.mustReach = () => ['killed', 'gone', 'refused', 'error', 'moved', 'number', 'windows'];
exports.run = async (V, { what, n, platform }) => {
    const signals = [];
    const commands = [];
    const denied = new Set();
    // no permission, or a signal nobody knows
    const code = what === 'gone' ? V.choice('code', ['EPERM', 'EINVAL', 'ERR_UNKNOWN_SIGNAL']) : 'EPERM';
    const missing = new Set();
    let parent = {};
    let listings = 0;
    let failAt = -1;
    let moveAt = -1;
    const open = [];
    const fakeKill = (pid, signal) => {
        signals.push([pid, signal]);
        if (missing.has(pid)) throw Object.assign(new Error('kill ESRCH'), { code: 'ESRCH' });
        if (denied.has(pid)) throw Object.assign(new Error('kill ' + code), { code });
        return true;
    };
    V.env.process = { ...V.env.process, platform, kill: fakeKill };
    V.stubs.process = V.env.process;
    const emitter = () => {
        const on = {};
        return {
            on(k, f) {
                (on[k] = on[k] || []).push(f);
                return this;
            },
            once(k, f) { return this.on(k, f); },
            emit: (k, ...a) => {
                if (k === 'error' && !(on.error || []).length) throw a[0];
                for (const f of on[k] || []) f(...a);
            },
            setEncoding() {}
        };
    };
    const spawn = (cmd, args) => {
        const pid = cmd === 'ps' ? +args[args.indexOf('--ppid') + 1] : +args[args.indexOf('-P') + 1];
        V.check(cmd === (platform === 'linux' ? 'ps' : 'pgrep'), 'the listing of the system');
        const ps = { ...emitter(), stdout: emitter(), stderr: emitter() };
        const me = { pid, ps, fails: listings === failAt, moves: listings === moveAt };
        listings++;
        if (listings > 4 * n) throw new Error('too many listings');
        open.push(me);
        return ps;
    };
    V.stubs.child_process = {
        spawn,
        exec: (c, o, cb) => {
            commands.push(c);
            const f = typeof o === 'function' ? o : cb;
            if (f) Promise.resolve().then(() => f(null, '', ''));
        },
        execFile: (c, a, o, cb) => {
            commands.push([c, ...a].join(' '));
            const f = typeof o === 'function' ? o : cb;
            if (f) Promise.resolve().then(() => f(null, '', ''));
        }
    };
    const { kill, asyncKill } = V.load('os');
    const calls = [];
    const cb = (...a) => calls.push(a);
    if (what === 'numbers') {
        const kinds = ['', ' ', 'x', -1, 0, '0', '-5', 1.5, NaN, Infinity, undefined, null, [], {}, '1e400', 2 ** 53];
        for (const x of kinds) {
            calls.length = 0;
            const r = V.attempt(() => kill(x, 'SIGTERM', cb));
            V.check(r.ok && calls.length === 1 && calls[0][0] instanceof Error, 'told: no number of a process');
            V.check(V.attempt(() => kill(x)).error instanceof Error, 'thrown without a callback');
            const a = await V.settle(asyncKill(x));
            V.check(a.status === 'rejected' || a.value instanceof Error, 'told by the promise');
        }
        V.cover('number');
        V.check(signals.length === 0 && listings === 0 && commands.length === 0, 'nothing happens');
        const y = V.int('y', -3, 9);
        const r = V.attempt(() => kill(y, cb));
        if (platform === 'aix') V.check(!r.ok || calls[0][0] instanceof Error, 'only systems it knows');
        else V.check(V.iff(listings + commands.length > 0, y > 0), 'only processes');
        return;
    }
    if (what === 'windows') {
        const y = V.choice('y', [1, 77, '77', 123456]);
        const r = await V.settle(asyncKill(y));
        V.cover('windows');
        V.check(r.status === 'fulfilled' && commands.length === 1, 'one command');
        V.check(commands[0].replace(/\s+/g, ' ').toLowerCase().split(' ').sort().join(' ') === ['taskkill', '/t', '/f', '/pid', String(+y)].sort().join(' '), 'ends the process and its children');
        return;
    }
    // a tree: the parent of each process; the numbers do not follow the tree
    const orders = [[10, 11, 12, 13, 14], [14, 3, 12, 7, 100], [5, 300, 20, 1000, 1]];
    const pids = orders[what === 'tree' ? V.choice('numbers', [0, 1, 2]) : 1];
    for (let i = 1; i < n; i++) parent[pids[i]] = pids[V.choice('parent' + i, Array.from({ length: i }, (_, k) => k))];
    parent[900] = 1;
    parent[901] = 900;
    const inTree = () => pids.slice(0, n);
    const expected = inTree();
    if (what === 'error') failAt = V.size('failAt', 0, n - 1);
    if (what === 'move') moveAt = V.size('moveAt', 0, n - 1);
    if (what === 'gone')
        for (const p of expected) {
            const s = V.choice('state' + p, [0, 1, 2]);
            if (s === 1) missing.add(p);
            if (s === 2) denied.add(p);
        }
    const signal = V.choice('signal', n > 3 || what === 'gone' ? [undefined, 'SIGKILL'] : [undefined, 'SIGKILL', 9, 0]);
    const how = V.choice('how', n > 3 || what === 'gone' ? [0, 2] : [0, 1, 2]);
    const root = how === 1 ? String(pids[0]) : pids[0];
    let result;
    const quiet = { status: 'none' };
    if (how === 2) result = V.settle(asyncKill(root, signal));
    else if (signal === undefined) kill(root, cb);
    else kill(root, signal, cb);
    // let the listings answer one by one in any order
    let step = 0;
    let lost = false;
    while (open.length) {
        const i = open.length === 1 ? 0 : V.choice(`next${step}of${open.length}`, Array.from({ length: open.length }, (_, k) => k));
        step++;
        const [me] = open.splice(i, 1);
        if (me.fails) {
            lost = true;
            const r = V.attempt(() => me.ps.emit('error', Object.assign(new Error('spawn ENOENT'), { code: 'ENOENT' })));
            V.check(r.ok, 'a listing that cannot start does not end the program');
            me.ps.emit('close', -2, null);
            continue;
        }
        const kids = Object.keys(parent).filter(p => parent[p] === me.pid).map(Number);
        if (me.moves && kids.length) {
            // its parent ends: the first child belongs to another one afterwards, and will be seen there again
            if (open.length) {
                parent[kids[0]] = open[0].pid;
                V.cover('moved');
            }
        }
        const text = kids.map(p => (platform === 'linux' ? String(p).padStart(7) : String(p)) + '\n').join('');
        if (text) {
            const cut = step === 1 ? V.size(`cut${text.length}`, 0, Math.min(text.length, 9)) : 0;
            for (const part of [text.slice(0, cut), text.slice(cut)]) if (part) me.ps.stdout.emit('data', Buffer.from(part));
        }
        me.ps.emit('exit', kids.length ? 0 : 1, null);
        me.ps.emit('close', kids.length ? 0 : 1, null);
    }
    if (how === 2) {
        const r = await result;
        V.check(r.status !== 'pending', 'it answers');
        calls.push([r.value === undefined ? r.reason : r.value]);
    }
    V.check(calls.length === 1, 'one answer');
    const got = signals.map(([p]) => p);
    V.check(new Set(got).size === got.length, 'no process gets the signal twice');
    V.check(got.every(p => expected.includes(p)), 'no other process gets a signal');
    V.check(signals.every(([, s]) => s === signal), 'the signal that was asked for');
    if (lost) {
        V.cover('error');
        V.check(calls[0][0] instanceof Error, 'a failure to list is told');
        return;
    }
    if (expected.some(p => denied.has(p))) {
        V.cover('refused');
        V.check(calls[0][0] instanceof Error && calls[0][0].code === code, 'a refusal is told');
        return;
    }
    if (missing.size) V.cover('gone');
    V.cover('killed');
    V.check(got.length === expected.length, 'every process of the tree gets the signal');
    V.check(calls[0][0] === undefined || calls[0][0] === null, 'no failure');
};
