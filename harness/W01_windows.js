'use strict';
exports.bounds = ['names of images of 1..5 (thorough 7) characters with blanks and digits, process numbers of 1..8 digits, with and without a session', 'lists of 1..3 tasks, with either end of lines', 'every exit of taskkill', 'every option of a shortcut given and not given, texts of 0..2 units', 'open on every platform, with lists of 0..2 arguments of 0..3 units'];
exports.outside = ['names that begin or end with blanks', 'names of 25 characters without a session before a process number of 8 digits (the table does not tell them apart)', 'the script that writes the shortcut, and what Windows does with it'];
exports.stubs = ['child_process and @curong/process record and answer', 'fs.existsSync and lstatSync answer as told', 'os.type and os.release'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 1; n <= (q ? 5 : 7); n++) for (const session of [true, false]) out.push({ name: `list ${n} ${session}`, params: { what: 'list', n, session } });
    out.push({ name: 'lists', params: { what: 'lists' } }, { name: 'find', params: { what: 'find' } });
    for (let n = 0; n <= 3; n++) out.push({ name: 'end' + n, params: { what: 'end', n } });
    out.push({ name: 'shortcut', params: { what: 'shortcut' } }, { name: 'shortcut texts', params: { what: 'shortcut', texts: true } });
    for (const platform of ['linux', 'wsl', 'darwin', 'win32', 'win32 without ComSpec', 'freebsd']) for (let n = 0; n <= 2; n++) out.push({ name: `open ${platform} ${n}`, params: { what: 'open', platform, n } });
    out.push({ name: 'platform', params: { what: 'platform' } }, { name: 'culture', params: { what: 'culture' } });
    return out;
};
exports.mustReach = () => ['listed', 'found', 'ended', 'not ended', 'shortcut', 'refused', 'opened', 'platform', 'culture'];
const NAME = [[0x20, 0x20], [0x2e, 0x2e], [0x30, 0x39], [0x41, 0x42], [0x4e00, 0x4e01]];
const pad = (s, n) => ' '.repeat(Math.max(0, n - s.length)) + s;
const fill = (s, n) => s + ' '.repeat(Math.max(0, n - s.length));
exports.run = async (V, { what, n, session, platform, texts }) => {
    const calls = [];
    let answer = () => ({ stdout: '', stderr: '' });
    let code = 0;
    // the processes: a shell for exec, a program and its arguments for spawn
    const child = () => {
        const on = {};
        const c = { stdout: null, stderr: null, stdin: null, on: (k, f) => ((on[k] = on[k] || []).push(f), c), once: (k, f) => c.on(k, f) };
        Promise.resolve().then(() => {
            if (code === 'error') (on.error || []).forEach(f => f(new Error('ENOENT')));
            else (on.close || []).forEach(f => f(code, code === null ? 'SIGTERM' : null));
        });
        return c;
    };
    const exec = (cmd, o, cb) => {
        calls.push(['exec', cmd]);
        const r = answer();
        Promise.resolve().then(() => (cb || o)(null, r, ''));
        return {};
    };
    exec[require('util').promisify.custom] = (cmd, o) => {
        calls.push(['exec', cmd]);
        return Promise.resolve({ stdout: answer(), stderr: '' });
    };
    V.stubs.child_process = {
        exec,
        spawn: (cmd, args, o) => (calls.push(['spawn', cmd, args, o]), child()),
        spawnSync: () => ({ status: 1, stdout: '' }),
        execFile: (cmd, args, o, cb) => (calls.push(['spawn', cmd, args, {}]), child())
    };
    let osType = 'Windows_NT';
    let osRelease = '10.0';
    const os = { type: () => osType, release: () => osRelease, EOL: '\n', platform: () => 'win32', homedir: () => '/home/u', tmpdir: () => '/tmp' };
    V.stubs.os = os;
    const exists = new Set();
    const dirs = new Set();
    V.stubs.fs = { existsSync: p => exists.has(p) || dirs.has(p), lstatSync: p => ({ isDirectory: () => dirs.has(p) }), promises: {} };
    V.env.process = { ...V.env.process, platform: 'win32', env: {}, kill() {} };
    V.stubs.process = V.env.process;
    if (what === 'list' || what === 'lists' || what === 'find') {
        const row = t => fill(t.name, 25) + ' ' + pad(t.pid, 8) + ' ' + fill(t.session, 16) + ' ' + pad(t.id, 11) + ' ' + pad(t.mem + ' K', 12);
        const tasks = [];
        if (what === 'list') {
            const name = V.str('name' + n, n, NAME);
            V.assume(V.and(V.not(V.eq(name[0], ' ')), V.not(V.eq(name[n - 1], ' '))));
            const pid = V.choice('pid', ['0', '744', '12345678']);
            // names of 25 characters are next to the number of their process
            tasks.push({ name: (session || pid.length < 8) && V.truth(V.bool('wide')) ? 'x'.repeat(25 - n) + name : name, pid, session: session ? V.choice('session', ['Console', 'RDP-Tcp#0', 'A234567890123456']) : '', id: V.choice('id', ['0', '4294967295']), mem: V.choice('mem', ['8', '1,234', '12,345,678']) });
        } else {
            const k = what === 'find' ? 3 : V.size('k', 1, 3);
            const names = what === 'find' ? [V.str('a', 2, [[0x41, 0x43]]), V.str('b', 2, [[0x41, 0x43]]), 'AA'] : ['System Idle Process', 'a  b.exe', '1.exe'];
            for (let i = 0; i < k; i++) tasks.push({ name: names[i], pid: String(i * 4), session: 'Services', id: '0', mem: '1,00' + i });
        }
        const eol = what === 'lists' ? V.choice('eol', ['\n', '\r\n']) : '\r\n';
        answer = () => eol + tasks.map(t => row(t) + eol).join('');
        const { windowsTaskList, findWindowsTask, windowsFindTask, ...os } = V.load('os');
        const list = os.taskList || windowsTaskList || os.windowsTaskList;
        const find = os.findTask || findWindowsTask || windowsFindTask;
        const key = what === 'find' ? V.str('key', 2, [[0x41, 0x43]]) : null;
        const p = await V.settle(what === 'find' ? find(key) : list());
        V.check(p.status === 'fulfilled', 'an answer');
        const want = what === 'find' ? tasks.filter(t => V.truth(V.eq(t.name, key))) : tasks;
        V.check(p.value.length === want.length, 'every process once');
        want.forEach((t, i) => {
            const r = p.value[i];
            V.check(V.eq(r.imageName, t.name), 'its name');
            V.check(r.pid === t.pid || V.eq(r.pid, t.pid), 'its number');
            V.check(V.eq(r.session.name || '', t.session) && V.eq(r.session.id, t.id), 'its session');
            V.check(V.eq(r.memusage, t.mem.replace(/,/g, '')), 'its memory');
        });
        V.check(calls.length === 1, 'one command');
        V.cover(what === 'find' ? 'found' : 'listed');
        return;
    }
    if (what === 'end') {
        const { killWindowsTask, ...os } = V.load('os');
        const end = killWindowsTask || os.killTask || os.windowsKillTask;
        const name = V.str('name' + n, n, [[1, 0xffff]]);
        code = V.choice('code', [0, 1, 128, null, 'error']);
        const p = await V.settle(end(name));
        V.check(p.status === 'fulfilled' && p.value === (code === 0), 'tells whether it ended');
        V.check(calls.length === 1 && calls[0][0] === 'spawn' && calls[0][1] === 'taskkill' && !(calls[0][3] || {}).shell, 'no shell sees the name');
        const args = calls[0][2];
        V.check(args.includes('/F') && args.includes('/T') && V.eq(args[args.indexOf('/IM') + 1], name) && args.length === 4, 'the name is one argument');
        V.cover(code === 0 ? 'ended' : 'not ended');
        return;
    }
    if (what === 'shortcut') {
        if (!texts && V.truth(V.bool('other'))) osType = V.choice('type', ['Linux', 'Darwin']);
        const { windowsMakeShortcut, ...o } = V.load('os');
        const make = windowsMakeShortcut || o.makeShortcut;
        const opts = {};
        const KEYS = ['dirPath', 'name', 'args', 'description', 'cwd', 'icon', 'windowMode', 'hotkey'];
        for (const k of KEYS) {
            if (texts ? V.truth(V.bool('has' + k)) : k === 'dirPath' && V.truth(V.bool('hasdirPath'))) opts[k] = k === 'windowMode' ? V.int('mode', 1, 9) : k === 'dirPath' ? '/some/dir' : V.strUpTo('t' + k, 0, 1, [[0x20, 0x7e]]);
        }
        const target = V.choice('target', texts ? ['/x/a.b.exe'] : ['/x/a.b.exe', '/x/plain', 'rel.exe']);
        const there = texts || V.truth(V.bool('there'));
        if (there) exists.add(target);
        const isDir = texts || V.truth(V.bool('isDir'));
        if (isDir) dirs.add('/some/dir');
        else if (V.truth(V.bool('isFile'))) exists.add('/some/dir');
        if (!texts) {
            const force = V.choice('force', [undefined, true, false]);
            if (force !== undefined) opts.force = force;
        }
        const p = await V.settle(make(target, Object.keys(opts).length ? opts : V.choice('none', [undefined, {}])));
        const good = osType === 'Windows_NT' && (opts.force || (there && (!opts.dirPath || isDir)));
        V.check((p.status === 'fulfilled') === good, 'fails exactly when it cannot be made');
        V.check(calls.length === (good ? 1 : 0), 'starts the script or nothing');
        V.cover(good ? 'shortcut' : 'refused');
        if (!good) return;
        const args = calls[0][2];
        V.check(calls[0][1] === 'wscript' && !calls[0][3].shell && /shortcut\.vbs$/.test(args[0]), 'the script');
        const base = target.slice(target.lastIndexOf('/') + 1);
        const dflt = { dirPath: '', name: base.includes('.') ? base.slice(0, base.lastIndexOf('.')) : base, args: '', description: '', cwd: '', icon: target, windowMode: 4, hotkey: '' };
        V.check(args.length === 10 && args[1] === target, 'the target');
        KEYS.forEach((k, i) => V.check(V.eq(args[i + 2], String(k in opts ? opts[k] : dflt[k])), 'the option ' + k));
        return;
    }
    if (what === 'culture') {
        osType = V.choice('type', ['Windows_NT', 'Linux', 'Darwin']);
        const { windowsLocal } = V.load('os');
        const eol = V.choice('eol', ['\r\n', '\n']);
        const id = V.int('id', 1, 65535);
        const name = V.strUpTo('name', 1, 3, [[0x2d, 0x2d], [0x41, 0x5a], [0x61, 0x7a]]);
        const full = V.choice('full', ['Chinese (Simplified, China)', 'English', '']);
        answer = () => ['', 'LCID             Name             DisplayName', '----             ----             -----------', fill(String(id), 16) + ' ' + fill(name, 16) + ' ' + full, '', ''].join(eol);
        const r = await V.settle(windowsLocal());
        V.observe(r);
        V.check(r.status === 'fulfilled', 'the culture is told');
        if (osType !== 'Windows_NT') return void V.check(r.value === null && calls.length === 0, 'nothing elsewhere, and nothing is run');
        V.cover('culture');
        V.check(calls.length === 1 && V.truth(V.eq(r.value, name)), 'the name of the culture');
        return;
    }
    if (what === 'platform') {
        osType = V.choice('type', ['Windows_NT', 'Darwin', 'Linux', 'FreeBSD']);
        osRelease = V.choice('release', ['10.0.19041', '5.4.0-42-generic', '4.4.0-19041-Microsoft', '5.10.16.3-microsoft-standard-WSL2']);
        const o = V.load('os');
        V.check(o.isWindows === (osType === 'Windows_NT') && o.isMacOS === (osType === 'Darwin') && o.isLinux === (osType === 'Linux'), 'the platform');
        V.check(o.isWSL === (osType === 'Linux' && /microsoft/i.test(osRelease)), 'Linux on Windows');
        const cmd = V.strUpTo('cmd', 0, 3, [[0x20, 0x7e]]);
        const a = (o.appendCmd || o.windowsAppendCmd)(cmd);
        V.check(V.eq(a, o.isWindows ? cmd + '.cmd' : cmd), 'the ending of commands');
        V.cover('platform');
        return;
    }
    // open
    const plat = platform.split(' ')[0];
    V.env.process.platform = plat === 'wsl' ? 'linux' : plat;
    V.env.process.env = plat === 'win32' && !platform.includes('without') ? { ComSpec: 'C:\\Windows\\system32\\cmd.exe' } : {};
    osType = { win32: 'Windows_NT', darwin: 'Darwin' }[plat] || 'Linux';
    osRelease = plat === 'wsl' ? V.choice('release', ['4.4.0-19041-Microsoft', '5.10.16.3-microsoft-standard-WSL2']) : '1.2.3';
    const { open } = V.load('process');
    const safe = [[0x30, 0x39], [0x41, 0x5a], [0x61, 0x7a]];
    const list = [];
    for (let i = 0; i < n; i++) list.push(V.str('arg' + i, 2, plat === 'linux' || plat === 'darwin' || plat === 'freebsd' ? [[1, 0x7e]] : safe));
    const given = n === 1 && V.truth(V.bool('bare')) ? list[0] : list;
    const opts = V.choice('opts', [undefined, {}, { command: 'firefox' }, { cwd: '/x' }]);
    const p = await V.settle(open(given, opts));
    V.check(p.status === 'fulfilled' && calls.length === 1, 'starts one process');
    const [, sh, args, o] = calls[0];
    const cmd = opts && opts.command ? opts.command : plat === 'darwin' ? 'open' : plat === 'win32' || plat === 'wsl' ? 'start ""' : 'xdg-open';
    V.check(V.eq(o.cwd || '', (opts && opts.cwd) || ''), 'the options');
    if (plat === 'win32' || plat === 'wsl') {
        V.check(typeof sh === 'string' || (opts && opts.command), 'a shell');
        if (!(opts && opts.command)) V.check(/cmd\.exe$/.test(sh), 'the shell of Windows');
    } else V.check(sh === 'sh', 'the shell of the system');
    const script = args[args.length - 1];
    if (plat === 'linux' || plat === 'darwin' || plat === 'freebsd') {
        // what the shell makes of the script
        let i = cmd.length;
        V.check(V.eq(script.slice(0, i), cmd), 'the command');
        for (const a of list) {
            V.check(V.eq(script[i], ' '), 'one argument');
            i++;
            let k = 0;
            let quoted = false;
            for (; i < script.length; i++) {
                if (V.truth(V.eq(script[i], "'"))) {
                    quoted = !quoted;
                    continue;
                }
                if (!quoted && V.truth(V.eq(script[i], ' '))) break;
                if (!quoted && V.truth(V.eq(script[i], '\\'))) i++;
                else if (!quoted) V.check(V.not(V.or(...[...'\n\t"`#$&*;?|()<>[]{}~'].map(x => V.eq(script[i], x)))), 'nothing for the shell');
                V.check(k < a.length && V.eq(script[i], a[k]), 'the argument');
                k++;
            }
            V.check(k === a.length && !quoted, 'the whole argument');
        }
        V.check(i === script.length, 'and nothing else');
    } else if (!(opts && opts.command)) V.check(V.eq(script, [cmd, ...list].join(' ')), 'the command');
    V.cover('opened');
};
