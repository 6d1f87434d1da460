'use strict';
const { FS } = require('./lib/vfs');
exports.bounds = ['trees of any of: files, nested files, empty folders, folders of the wanted name at both levels and within each other, links, hidden names, names with dots and shortcuts', 'any one (thorough two) of the operations may fail'];
exports.outside = ['the shortcuts of Windows themselves: a stand-in answers for powershell'];
exports.stubs = ['fs: a file system in memory', 'child_process.exec: records the command'];
const NAMES = ['f', 'd/g', 'd/w/h', 'w/x', 'w/w/y', 'e', 'l', 'ld', '.hidden', 'a.b/c', 'go.lnk', ' s /w/k'];
exports.cases = tier => [
    ...[false, true].flatMap(faults => ['fileList', 'findDir'].map(what => ({ name: what + (faults ? ' with faults' : ''), params: { what, quick: tier === 'quick', faults: faults ? (tier === 'quick' ? 1 : 2) : 0 } }))),
    { name: 'kinds', params: { what: 'kinds' } },
    { name: 'shortcuts', params: { what: 'lnk' } },
    { name: 'shortcuts to folders', params: { what: 'windows', find: true } },
    { name: 'links of Windows', params: { what: 'windows', quick: tier === 'quick' } }
];
exports.mustReach = () => ['listed', 'found', 'refused', 'failed', 'windows', 'found behind a shortcut'];
exports.run = async (V, { find, what, quick, faults = 0 }) => {
    let left = faults;
    let count = 0;
    let failed = false;
    const fs = new FS({
        fault() {
            if (left === 0 || count > 12 || !V.truth(V.bool('fault' + count++))) return null;
            left--;
            failed = true;
            V.cover('failed');
            return 'EACCES';
        }
    });
    const mods = fs.modules();
    V.stubs.fs = mods.fs;
    V.stubs['fs/promises'] = mods.promises;
    V.stubs.path = fs.path();
    const windows = what === 'windows' || what === 'lnk';
    const commands = [];
    let answer = () => ({ stdout: '', stderr: 'no' });
    // exec goes through cmd.exe, execFile does not
    const ask = (shell, c, cb) => {
        commands.push({ shell, c });
        const { error, stdout, stderr } = answer(c);
        Promise.resolve().then(() => cb(error || null, stdout, stderr));
        return {};
    };
    const exec = (c, o, cb) => ask(true, c, cb || o);
    const execFile = (f, args, o, cb) => ask(false, [f, ...args].join(' '), cb || o);
    for (const f of [exec, execFile]) f[require('util').promisify.custom] = (...a) => new Promise((res, rej) => f(...a.slice(0, f === exec ? 1 : 2), {}, (e, stdout, stderr) => (e ? rej(e) : res({ stdout, stderr }))));
    V.stubs.child_process = { exec, execFile };
    V.stubs.process = { ...V.env.process, platform: windows ? 'win32' : 'linux' };
    V.env.process.platform = windows ? 'win32' : 'linux';
    if (what === 'lnk') V.stubs.path.normalize = x => x;
    const pkg = V.load('fs');
    fs.cwd = '/w';
    fs.put('/w/own', fs.file([1]));
    const sorted = l => [...l].sort();
    const same = (a, b) => Array.isArray(a) && sorted(a).join('\n') === sorted(b).join('\n');
    if (what === 'lnk') {
        // what is asked of Windows about a shortcut
        const s = V.strUpTo('p', 1, 2, [[0x20, 0x2d], [0x30, 0x7e], [0x2018, 0x201b]]);
        const good = V.choice('good', [true, false]);
        answer = () => (good ? { stdout: 'C:\\x\r\n', stderr: '' } : { stdout: '', stderr: 'failed' });
        const r = await V.settle(pkg.readLnk(s));
        V.cover('windows');
        V.check(commands.length === 1, 'one question');
        const { shell, c } = commands[0];
        const a = "powershell.exe -command (New-Object -COM WScript.Shell).CreateShortcut('";
        const b = "').TargetPath;";
        V.check(V.and(V.eq(c.slice(0, a.length), a), V.eq(c.slice(-b.length), b)), 'the question');
        const inner = c.slice(a.length, -b.length);
        // a quoted text of powershell ends at a single quote
        let text = '';
        let ok = true;
        for (let i = 0; i < inner.length; i++) {
            // powershell ends a text at any of these, unless there are two
            const quote = V.truth(V.or(V.eq(inner[i], "'"), V.and(inner.charCodeAt(i) >= 0x2018, inner.charCodeAt(i) <= 0x201b)));
            if (quote) {
                const n = i + 1 < inner.length ? inner.charCodeAt(i + 1) : 0;
                if (V.truth(V.or(V.eq(n, 0x27), V.and(n >= 0x2018, n <= 0x201b)))) i++;
                else ok = false;
            }
            if (shell && V.truth(V.or(false, ...[...'&|<>^%"'].map(m => V.eq(inner[i], m))))) ok = false;
            text += inner[i];
        }
        V.check(ok, 'the path cannot end its quotes');
        V.check(V.eq(text, s), 'the path itself');
        if (good) V.check(r.status === 'fulfilled' && r.value === 'C:\\x', 'the path it leads to');
        else V.check(r.status === 'rejected', 'a failure');
        return;
    }
    const p = what === 'kinds' ? '/t' : V.choice('path', windows ? ['/t'] : ['/t', '../t', '/t/', '/none', '/far/a']);
    // a name is there or not; elsewhere than at the plain path one tree is enough
    const some = ['f', 'd/w/h', 'ld', 'a.b/c'];
    const free = windows ? ['go.lnk', 'd/g', 'e', 'ld'] : quick ? ['d/g', 'd/w/h', 'w/x', 'w/w/y', 'e', 'ld', '.hidden'] : NAMES.filter(n => n !== 'go.lnk');
    const yes = n => (what === 'kinds' ? false : faults || p !== '/t' || !free.includes(n) ? some.includes(n) : V.truth(V.bool('has' + NAMES.indexOf(n))));
    fs.put('/t', fs.dir());
    for (const n of NAMES) if (!['e', 'l', 'ld'].includes(n) && yes(n)) fs.put('/t/' + n, fs.file([1]));
    if (yes('e')) fs.put('/t/e', fs.dir());
    if (yes('l')) fs.put('/t/l', fs.link('nothing'));
    if (yes('ld')) fs.put('/t/ld', fs.link('.'));
    fs.put('/far/a', fs.file([1]));
    fs.put('/far/w/z', fs.file([1]));
    if (windows) answer = () => ({ stdout: '/far\r\n', stderr: '' });
    const all = fs.list('/t');
    const files = all.filter(([, k]) => k !== 'dir').map(([p]) => p);
    if (what === 'kinds') {
        for (const [p, dir, file, link] of [['/t', true, false, false], ['/far/a', false, true, false], ['/none', false, false, false], ['/far/a/x', false, false, false], ['/lf', false, true, true], ['/ld', true, false, true], ['/dang', false, false, true], ['/p', false, false, false]]) {
            fs.put('/lf', fs.link('/far/a'));
            fs.put('/ld', fs.link('/far'));
            fs.put('/dang', fs.link('/no'));
            fs.put('/p', fs.other());
            V.check((await pkg.isDir(p)) === dir && (await pkg.isFile(p)) === file && (await pkg.isSymbolicLink(p)) === link, 'the kind of ' + p);
            V.check((await pkg.symbolicLink(p)) === (link ? { '/lf': '/far/a', '/ld': '/far', '/dang': '/no' }[p] : null), 'where a link leads');
        }
        return;
    }
    const base = p === '/t/' ? '/t/' : p + '/';
    if (what === 'fileList' || (windows && !find)) {
        const flat = V.choice(p === '/t' ? 'flat' : 'depthOnce', p === '/t' ? [undefined, true] : [undefined, false, true]);
        const r = await V.settle(pkg.fileList(p, flat === undefined ? undefined : { depthOnce: flat }));
        V.observe([r.status]);
        if (p === '/none' || p === '/far/a') {
            V.cover('refused');
            V.check(r.status === 'rejected', 'only folders can be listed');
            return;
        }
        if (failed) {
            V.check(r.status === 'rejected', 'no list with gaps');
            return;
        }
        V.check(r.status === 'fulfilled', 'a list');
        V.cover('listed');
        if (flat) V.check(same(r.value, [...fs.node('/t').entries.keys()]), 'all names in the folder');
        else {
            const want = files.filter(f => !f.endsWith('.lnk')).map(f => base + f.slice(3));
            if (files.includes('/t/go.lnk')) {
                V.cover('windows');
                want.push('/far/a', '/far/w/z');
            }
            V.check(same(r.value, want), 'all files of all folders, once each');
        }
        return;
    }
    // findDir
    const target = find ? V.choice('target', ['/far', '/far/a.txt', '']) : null;
    if (find) answer = () => (target ? { stdout: target + '\r\n', stderr: '' } : { stdout: '', stderr: 'no' });
    const wanted = V.choice(p === '/t' ? 'wanted' : 'wantedToo', p === '/t' ? ['w', ['w', 'd']] : ['w', ['w'], [], undefined, ['none']]);
    const r = await V.settle(pkg.findDir(p, wanted));
    V.observe([r.status]);
    V.check(r.status === 'fulfilled', 'an answer');
    const names = wanted === undefined ? [] : [wanted].flat();
    const want = [];
    const go = (d, at) => {
        for (const [n, x] of d.entries) {
            if (x.type !== 'dir') continue;
            if (names.includes(n)) want.push(at + n);
            else go(x, at + n + '/');
        }
    };
    if (p !== '/none' && p !== '/far/a') go(fs.node('/t'), base);
    if (find && files.includes('/t/go.lnk') && target === '/far') {
        V.cover('found behind a shortcut');
        if (names.includes('w')) want.push('/far/w');
    }
    if (find) V.check(commands.length === (files.includes('/t/go.lnk') ? 1 : 0), 'Windows is only asked about shortcuts');
    if (failed) V.check(r.value.every(x => want.includes(x)), 'nothing that is not there');
    else V.check(same(r.value, want), 'every folder of the name, outermost first');
    V.cover('found');
    for (const bad of ['', undefined, null, 5]) V.check((await V.settle(pkg.findDir(bad, 'w'))).status === 'rejected', 'only paths');
};
