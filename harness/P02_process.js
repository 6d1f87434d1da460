'use strict';
exports.bounds = ['every order of up to 3 (thorough 4) events: output, error output, halves of a character, end with 0, 3 or a signal, failure of the process or of one of its outputs; nine settings of stdio; text or bytes'];
exports.outside = ['the processes themselves'];
exports.stubs = ['child_process.spawn and exec: stand-ins that report the events of the schedule'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let m = 0; m <= (q ? 3 : 4); m++) out.push({ name: 'events' + m, params: { what: 'events', m } });
    out.push({ name: 'stdio', params: { what: 'stdio', m: 2 } }, { name: 'throws', params: { what: 'throws' } }, { name: 'exec', params: { what: 'exec' } }, { name: 'sleep', params: { what: 'sleep' } }, { name: 'open', params: { what: 'open' } });
    return out;
};
exports.mustReach = () => ['closed', 'failed', 'pending', 'bytes', 'null', 'start', 'windows'];
const C = Buffer.from('中');
const EVENTS = [['out', Buffer.from(' a')], ['out', C.subarray(0, 1)], ['out', C.subarray(1)], ['err', Buffer.from('e\n')], ['close', 0, null], ['close', 3, null], ['close', null, 'SIGTERM'], ['error'], ['outerror'], ['errerror']];
exports.run = async (V, { what, m }) => {
    if (what === 'sleep') {
        const { sleep } = V.load('process');
        const ms = V.int('ms', 0, 5000);
        const at = V.env.clock.now;
        const r = await V.settle(sleep(ms));
        V.check(r.status === 'fulfilled' && r.value === undefined, 'ends');
        const d = V.env.clock.now - at;
        V.check(V.or(V.eq(d, ms), V.and(V.eq(ms, 0), d <= 1)), 'after exactly the time asked for');
        return;
    }
    if (what === 'exec') {
        const calls = [];
        const fail = V.bool('fail');
        V.stubs.child_process = {
            exec(...a) {
                calls.push(a.slice(0, -1));
                a[a.length - 1](V.truth(fail) ? new Error('no') : null, { stdout: 'o', stderr: 'e' });
                return {};
            },
            spawn() {},
            spawnSync() {}
        };
        const { exec } = V.load('process');
        const parts = V.choice('parts', ['a b', ['a', 'b'], ['a'], []]);
        const r = await V.settle(exec(parts, { cwd: '/x' }));
        V.observe([r.status]);
        V.check(calls.length === 1 && calls[0][0] === [parts].flat().join(' ') && calls[0][1].cwd === '/x', 'the command and the options are passed on');
        V.check(V.truth(fail) ? r.status === 'rejected' && r.reason.message === 'no' : r.status === 'fulfilled' && r.value.stdout === 'o' && r.value.stderr === 'e', 'the outcome is passed on');
        return;
    }
    const calls = [];
    const make = () => {
        const on = {};
        return {
            on(k, f) {
                (on[k] || (on[k] = [])).push(f);
                return this;
            },
            emit(k, ...a) {
                if (k === 'error' && !on[k]) throw new Error('unhandled error event');
                for (const f of on[k] || []) f(...a);
            }
        };
    };
    const child = Object.assign(make(), { stdin: { name: 'stdin' }, stdout: null, stderr: null });
    let throws = false;
    V.stubs.child_process = {
        spawn(cmd, args, opts) {
            calls.push({ cmd, args, opts });
            if (throws) throw new TypeError('bad argument');
            const s = opts.stdio;
            const piped = i => (Array.isArray(s) ? s[i] === undefined || s[i] === null || s[i] === 'pipe' : s === undefined || s === null || s === 'pipe');
            if (piped(1)) child.stdout = make();
            if (piped(2)) child.stderr = make();
            return child;
        },
        spawnSync: () => ({ status: 1, stdout: '' }),
        exec() {}
    };
    if (what === 'open') {
        const platform = V.choice('platform', ['linux', 'darwin', 'win32', 'wsl']);
        const command = V.choice('command', [undefined, 'firefox']);
        V.stubs.os = { release: () => (platform === 'wsl' ? '5.10-Microsoft-standard' : '6.1.0') };
        V.env.process = { platform: platform === 'wsl' ? 'linux' : platform, env: { ComSpec: 'C:\\Windows\\system32\\cmd.exe', PATH: '', PATHEXT: '' } };
        const { open } = V.load('process');
        const arg = V.choice('arg', ['http://a/?b&c', ['a b', 'c']]);
        const opts = { command, cwd: '/x', shell: V.choice('shell', [undefined, false, '/bin/zsh']) };
        const p = open(arg, opts);
        await V.flush();
        child.emit('close', 0, null);
        const r = await V.settle(p);
        V.check(r.status === 'fulfilled' && calls.length === 1, 'one process is started');
        const c = calls[0];
        const win = platform === 'win32' || platform === 'wsl';
        const name = command || (win ? 'start ""' : platform === 'darwin' ? 'open' : 'xdg-open');
        const cmd = !command && win ? 'C:\\Windows\\system32\\cmd.exe' : platform === 'win32' ? 'C:\\Windows\\system32\\cmd.exe' : 'sh';
        V.cover(win ? 'windows' : 'start');
        V.observe([c.cmd, c.args]);
        V.check(c.cmd === cmd, 'the shell of the system');
        V.check(c.args[c.args.length - 1].startsWith(name + ' '), 'the program that opens files');
        V.check(c.opts.cwd === '/x' && opts.command === command, 'the options are passed on and stay as they are');
        if (cmd === 'sh') V.check(c.args[1] === name + (Array.isArray(arg) ? " 'a b' c" : " 'http://a/?b&c'"), 'quoted arguments');
        return;
    }
    const { spawn } = V.load('process');
    if (what === 'throws') {
        throws = true;
        const p = spawn('x', ['a']);
        const r = await V.settle(p);
        const d = V.attempt(() => {
            while (V.fireNext());
        });
        V.check(r.status === 'rejected' && r.reason instanceof TypeError, 'a process that cannot be started is a rejection');
        V.check(d.ok, 'and no failure later on');
        return;
    }
    const stdio = what === 'stdio' ? V.choice('stdio', ['pipe', 'inherit', 'ignore', null, ['pipe', 'ignore', 'pipe'], ['ignore', 'pipe', 'inherit'], [], [null, null, null], ['pipe']]) : undefined;
    const text = what === 'stdio' ? V.choice('text', [undefined, true, false]) : undefined;
    const opts = {};
    if (stdio !== undefined) opts.stdio = stdio;
    if (text !== undefined) opts.isToString = text;
    const p = spawn('x', ['a'], opts);
    if (V.choice('early', [false, true])) {
        while (V.fireNext());
        V.check(p.stdin === child.stdin && p.process === child, 'the process and its input are available soon');
    }
    const out = [];
    const err = [];
    let want = null;
    for (let i = 0; i < m; i++) {
        const e = V.choice('e' + i, EVENTS);
        if ((e[0].startsWith('out') && !child.stdout) || (e[0].startsWith('err') && e[0] !== 'error' && !child.stderr)) continue;
        if (e[0] === 'out') {
            child.stdout.emit('data', e[1]);
            if (!want) out.push(e[1]);
        } else if (e[0] === 'err') {
            child.stderr.emit('data', e[1]);
            if (!want) err.push(e[1]);
        } else if (e[0] === 'close') {
            child.emit('close', e[1], e[2]);
            want = want || { status: e[1], signal: e[2] };
        } else {
            const error = new Error('failed');
            (e[0] === 'error' ? child : e[0] === 'outerror' ? child.stdout : child.stderr).emit('error', error);
            want = want || { error };
        }
    }
    const r = await V.settle(p);
    V.observe(r.status);
    if (!want) {
        V.cover('pending');
        V.check(r.status === 'pending', 'no outcome before the process ended');
        return;
    }
    V.cover(want.error ? 'failed' : 'closed');
    V.check(r.status === (want.error ? 'rejected' : 'fulfilled'), 'the first end or failure decides');
    const v = want.error ? r.reason : r.value;
    V.check(want.error ? v.error === want.error : v.status === want.status && v.signal === want.signal, 'with its status, signal or failure');
    V.check(v.cmd === 'x' && v.args.length === 1 && v.args[0] === 'a', 'and what was run');
    for (const [k, chunks] of [['stdout', out], ['stderr', err]]) {
        if (!child[k]) {
            V.cover('null');
            V.check(v[k] === null, 'no output that was not read');
        } else if (text === false) {
            V.cover('bytes');
            V.check(Buffer.isBuffer(v[k]) && v[k].equals(Buffer.concat(chunks)), 'all bytes in order');
        } else V.check(v[k] === Buffer.concat(chunks).toString().trim(), 'all text in order');
    }
};
