'use strict';
const { normal } = require('./H01_paths.js');
exports.bounds = ['source folders of 1..2 and files of 1..4 (thorough 5) units, 1..2 (thorough 4) with shortcuts, of letters, dots and slashes, absolute and relative', 'target folders near and deep, absolute and relative', 'up to two shortcuts in the source folder that lead to a folder, nowhere, or fail', 'making of the folder: every path below the target up to two folders deep, there before, missing, or refused'];
exports.outside = ['drives of Windows'];
exports.stubs = ['path: normalize, join, relative, dirname and isAbsolute as in Node on posix', 'fs.promises.readdir names the shortcuts, PowerShell tells where they lead'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let s = 1; s <= 2; s++) for (let f = 1; f <= (q ? (s === 1 ? 4 : 3) : 5); f++) out.push({ name: `below ${s} ${f}`, params: { what: 'plain', s, f } });
    for (let f = 1; f <= (q ? 2 : 4); f++) for (let k = 1; k <= 2; k++) out.push({ name: `shortcuts ${f} ${k}`, params: { what: 'lnk', s: 1, f, k } });
    out.push({ name: 'make', params: { what: 'make' } }, { name: 'refused', params: { what: 'refused' } });
    return out;
};
exports.mustReach = () => ['inside', 'outside', 'shortcut', 'itself', 'made', 'refused'];
const parts = p => {
    const out = [];
    for (const x of p.split('/')) {
        if (x === '' || x === '.') continue;
        if (x === '..') out.pop();
        else out.push(x);
    }
    return out;
};
const CWD = '/w';
const resolve = p => parts(p[0] === '/' ? p : CWD + '/' + p);
const posix = {
    sep: '/',
    delimiter: ':',
    normalize: normal,
    isAbsolute: p => p.length > 0 && p[0] === '/',
    join: (...a) => {
        const l = a.filter(x => x.length > 0);
        return l.length ? normal(l.join('/')) : '.';
    },
    resolve: (...a) => '/' + resolve(a.join('/')).join('/'),
    relative(a, b) {
        const x = resolve(a);
        const y = resolve(b);
        let i = 0;
        while (i < x.length && i < y.length && x[i] === y[i]) i++;
        return [...x.slice(i).map(() => '..'), ...y.slice(i)].join('/');
    },
    dirname(p) {
        const i = p.lastIndexOf('/');
        return i < 0 ? '.' : i === 0 ? '/' : p.slice(0, i);
    },
    basename: p => p.slice(p.lastIndexOf('/') + 1)
};
posix.posix = posix;
exports.run = async (V, { what, s, f, k }) => {
    const CH = [[0x2e, 0x2f], [0x61, 0x62]];
    const T = x => V.truth(x);
    const same = (a, b) => a.length === b.length && T(V.eq(a, b));
    const made = [];
    const dirs = new Set(['/', '/d', '/w', '/f']);
    let refuse = false;
    let names = [];
    const answers = new Map();
    const asked = [];
    const stat = p => {
        if (dirs.has(p)) return { isDirectory: () => true, isFile: () => false, isSymbolicLink: () => false };
        throw Object.assign(new Error('ENOENT'), { code: 'ENOENT' });
    };
    const mk = async (p, o) => {
        if (refuse) throw Object.assign(new Error('EACCES'), { code: 'EACCES' });
        const up = p.slice(0, p.lastIndexOf('/')) || '/';
        if (!dirs.has(up)) {
            if (!(o && o.recursive)) throw Object.assign(new Error('ENOENT'), { code: 'ENOENT' });
            await mk(up, o);
        }
        if (dirs.has(p) && !(o && o.recursive)) throw Object.assign(new Error('EEXIST'), { code: 'EEXIST' });
        made.push(p);
        dirs.add(p);
    };
    const promises = { readdir: async () => names, stat: async p => stat(p), lstat: async p => stat(p), access: async p => void stat(p), mkdir: mk };
    V.stubs.fs = { promises, existsSync: p => dirs.has(p) };
    V.stubs['fs/promises'] = promises;
    V.stubs.path = posix;
    V.stubs.process = { ...V.env.process, platform: 'win32' };
    V.env.process.platform = 'win32';
    const execFile = () => {};
    execFile[require('util').promisify.custom] = async (cmd, args) => {
        const c = args[args.length - 1];
        asked.push(c);
        const hit = [...answers].find(([n]) => c.includes('/' + n + "'") || c.includes("'" + n + "'"));
        if (!hit) throw new Error('no such shortcut');
        return hit[1] === null ? { stdout: '', stderr: 'failed' } : { stdout: hit[1] + '\r\n', stderr: '' };
    };
    V.stubs.child_process = { execFile, exec: execFile };
    const { destPath } = V.load('fs');
    if (what === 'refused') {
        const a = ['/a/b', '/a', '/d'];
        const i = V.size('i', 0, 2);
        a[i] = V.choice('bad', ['', undefined, null, 5]);
        V.check((await V.settle(destPath(...a))).status === 'rejected', 'three paths');
        V.cover('refused');
        return;
    }
    if (what === 'make') {
        const rel = V.choice('rel', ['x', 'a/x', 'a/b/x']);
        const root = V.choice('root', ['/d', '/new/er', '/d/']);
        const base = root === '/d/' ? '/d' : root;
        const there = V.size('there', 0, 2);
        if (there > 0) dirs.add('/d/a');
        if (there > 1) dirs.add('/d/a/b');
        refuse = T(V.bool('refuse'));
        const opt = V.choice('opt', [undefined, {}, { isMakeDir: false }, { isMakeDir: true }]);
        const p = await V.settle(destPath('/s/' + rel, '/s', root, opt));
        const up = base + '/' + rel;
        const dir = up.slice(0, up.lastIndexOf('/'));
        const wanted = !!opt && opt.isMakeDir === true;
        const missing = wanted && !['/d', ...(there > 0 ? ['/d/a'] : []), ...(there > 1 ? ['/d/a/b'] : [])].includes(dir);
        if (missing && refuse) {
            V.check(p.status === 'rejected', 'tells that there is no folder');
            return;
        }
        V.check(p.status === 'fulfilled' && p.value === up, 'the place in the target');
        V.check(wanted ? dirs.has(dir) : made.length === 0, 'the folder is made if asked for');
        V.check(made.every(m => (dir + '/').startsWith(m + '/')), 'and nothing else');
        V.cover('made');
        return;
    }
    const lead = V.choice('lead', ['/', '']);
    const src = lead + V.str('src' + s, s, CH);
    const file = (what === 'lnk' ? '/' : V.choice('lead2', ['/', ''])) + V.str('file' + f, f, CH);
    const des = V.choice('des', ['/d', '/d/e', 'd', '/']);
    if (what === 'lnk') {
        for (let i = 0; i < k; i++) {
            const n = ['one.lnk', 'two.x.lnk'][i];
            names.push(n);
            answers.set(n, V.choice('to' + i, [null, '', '/a', '/b/a', '/']));
        }
        names.splice(1, 0, 'note.txt');
    }
    const inside = (d, p) => {
        const x = resolve(d);
        const y = resolve(p);
        return x.length <= y.length && x.every((c, i) => same(c, y[i])) ? y.slice(x.length) : null;
    };
    const p = await V.settle(destPath(file, src, des));
    V.check(p.status === 'fulfilled', 'an answer');
    V.check(made.length === 0, 'no folders are made');
    const at = (...a) => posix.join(...a.filter(x => x.length));
    const rel = inside(src, file);
    const eqPath = (a, b) => V.eq(a.length > 1 && a[a.length - 1] === '/' ? a.slice(0, -1) : a, b.length > 1 && b[b.length - 1] === '/' ? b.slice(0, -1) : b);
    if (rel) {
        V.check(eqPath(p.value, at(des, ...rel)), 'the same place in the target');
        V.cover(rel.length ? 'inside' : 'itself');
        V.check(asked.length === 0, 'no shortcuts are needed');
        return;
    }
    for (const n of names) {
        const to = answers.get(n);
        if (!to) continue;
        const r = inside(to, file);
        if (!r) continue;
        V.check(eqPath(p.value, at(des, n.slice(0, -4), ...r)), 'the same place behind the shortcut');
        V.cover('shortcut');
        return;
    }
    V.check(eqPath(p.value, normal(file)), 'the file itself');
    V.cover('outside');
};
