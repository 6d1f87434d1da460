'use strict';
const { FS, BytesBuffer } = require('./lib/vfs');
exports.bounds = ['a tree of eleven files, five folders deep, with six links, over none, some or all of its files', 'trees of any of: a file, a nested file, an empty folder, links to a file, a folder, nothing and the folder itself', 'targets that are missing, a folder with any of the same files, a file, a link, or inside the source', 'forcibly true, false or not given; absolute and relative paths', 'any one (thorough two) of the writing and reading operations may fail, also after part of a file was written'];
exports.outside = ['failures of stat', 'shortcuts of Windows', 'files outside the source folder'];
exports.stubs = ['fs: a file system in memory', 'Buffer: a list of symbolic bytes'];
const KINDS = ['file', 'folder', 'link', 'missing', 'fifo'];
exports.cases = tier => [
    ...KINDS.flatMap(k => ['none', 'folder', 'file', 'link', 'inside'].map(t => ({ name: `copy ${k} to ${t}`, params: { what: 'copy', k, t } }))),
    ...['file', 'folder'].map(k => ({ name: `copy ${k} with faults`, params: { what: 'copy', k, t: 'folder', faults: tier === 'quick' ? 1 : 2 } })),
    ...['none', 'same', 'other', 'readonly', 'folder'].map(t => ({ name: `copyFile to ${t}`, params: { what: 'copyFile', t } })),
    ...['none', 'other', 'readonly'].map(t => ({ name: `copyFile to ${t} with faults`, params: { what: 'copyFile', t, faults: tier === 'quick' ? 1 : 2 } })),
    { name: 'copySymbolicLink', params: { what: 'link' } },
    { name: 'copy of a deep tree', params: { what: 'deep' } }
];
exports.mustReach = () => ['copied', 'refused', 'kept', 'link', 'failed'];
exports.run = async (V, { what, k, t, faults = 0 }) => {
    let left = faults;
    let count = 0;
    let failed = false;
    let cuts = 0;
    const fault = yes => {
        if (left === 0 || count > 14 || !yes) return false;
        if (!V.truth(V.bool('fault' + count++))) return false;
        left--;
        failed = true;
        V.cover('failed');
        return true;
    };
    const fs = new FS({
        root: what !== 'copyFile',
        fault: op => (fault(['mkdir', 'open', 'read', 'symlink', 'scandir'].includes(op) || (op === 'copyfile' && what === 'copy')) ? 'EIO' : null),
        partial(a, b, n) {
            if (!fault(true)) return null;
            return V.size('cut' + cuts++, 0, n);
        }
    });
    const mods = fs.modules();
    V.stubs.fs = mods.fs;
    V.stubs['fs/promises'] = mods.promises;
    V.stubs.path = fs.path();
    V.env.Buffer = BytesBuffer;
    const pkg = V.load('fs');
    let bytes = 0;
    const data = () => [V.int('byte' + bytes++, 0, 255), 7];
    const snapshot = at => fs.list(at).map(([p, kind, c]) => [p, kind, Array.isArray(c) ? c.slice() : c]);
    const unchanged = (before, at, but) => {
        const now = snapshot(at).filter(([p]) => !but || !p.startsWith(but));
        V.check(now.length === before.length, 'nothing appears or vanishes ' + at);
        before.forEach(([p, kind, c], i) => {
            V.check(now[i][0] === p && now[i][1] === kind, 'nothing changes ' + at);
            V.check(Array.isArray(c) ? c.length === now[i][2].length && V.truth(V.and(true, ...c.map((x, j) => V.eq(x, now[i][2][j])))) : c === now[i][2], 'no content changes ' + at);
        });
    };
    const sameData = (a, b) => a.length === b.length && V.truth(V.and(true, ...a.map((x, i) => V.eq(x, b[i]))));
    // where a path leads, through all links
    const leads = p => {
        try {
            return fs.walk(p, 'look', true);
        } catch (e) {
            if (e.code) return { node: undefined, error: e.code };
            throw e;
        }
    };
    const forcibly = V.choice('forcibly', [undefined, true, false]);
    const options = forcibly === undefined ? undefined : { forcibly };
    if (what === 'copyFile') {
        const deep = V.choice('deep', [false, true]);
        const slash = V.choice('slash', ['', '/']);
        const from = deep ? '/s/d/f' : '/s/f';
        const to = deep ? '/t/d/f' : '/t/f';
        const src = fs.put(from, fs.file(data()));
        fs.put('/s/other', fs.file([1]));
        fs.put('/t', fs.dir());
        if (t === 'same') fs.put(to, fs.file(src.data.slice()));
        if (t === 'other') fs.put(to, fs.file(data()));
        if (t === 'readonly') fs.put(to, fs.file([9], 0o444));
        if (t === 'folder') fs.put(to, fs.dir());
        fs.put('/t/near', fs.file([3]));
        const before = snapshot('/s');
        const r = await V.settle(pkg.copyFile(from, '/s' + slash, '/t' + slash, options));
        V.observe([r.status]);
        unchanged(before, '/s');
        V.check(fs.node('/t/near') && fs.node('/t/near').data[0] === 3, 'what is near stays');
        V.check(fs.fds.size === 0, 'what was opened is closed');
        if (t === 'readonly' && forcibly === false) {
            V.cover('kept');
            const x = fs.node(to);
            if (!V.truth(V.and(src.data.length === 1, V.eq(src.data[0], 9)))) V.check(r.status === 'rejected' && x && x.data.length === 1 && x.data[0] === 9, 'a file that must not be written stays unless forced');
        }
        if (r.status === 'fulfilled') {
            V.cover('copied');
            const x = fs.node(to);
            V.check(r.value === to && x && x.type === 'file' && sameData(x.data, src.data), 'the answer is the path of an equal file');
        } else V.check(failed || t === 'folder' || (t === 'readonly' && forcibly === false), 'copied unless something prevents it');
        return;
    }
    if (what === 'deep') {
        const files = ['a', 'b.txt', '.c', '..d', 'e f', 'sub/a', 'sub/sub/a', 'sub/sub/b', 'sub/sub/sub/z', 'x/..y/f', 'x/f'];
        const src = files.map(n => fs.put('/s/' + n, fs.file([n.length, 7])));
        const links = { 'sub/up': '../a', 'sub/sub/up': '../../a', 'sub/sub/sub/up': '../../../x/f', 'x/out': '../../w/f', 'x/abs': '/s/x', 'sub/wild': '../../../../w' };
        for (const n of Object.keys(links)) fs.put('/s/' + n, fs.link(links[n]));
        fs.put('/w/f', fs.file([1]));
        const old = new Map();
        const some = V.choice('old', [[], [5], [0, 3, 8], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]]);
        for (const i of some) old.set(i, fs.put('/t/' + files[i], fs.file([V.int('o' + i, 0, 255), 99, 98])));
        const oldData = new Map([...old].map(([i, n]) => [i, n.data.slice()]));
        const before = snapshot('/s');
        const into = some.length ? '/t' : V.choice('into', ['/t', '/s2', '/deep/er/t']);
        const r = await V.settle(pkg.copy('/s', into, options));
        V.observe([r.status]);
        unchanged(before, '/s');
        V.check(r.status === 'fulfilled', 'copied');
        V.cover('copied');
        files.forEach((n, i) => {
            const x = fs.node(into + '/' + n);
            V.check(x && x.type === 'file' && sameData(x.data, forcibly === false && old.has(i) ? oldData.get(i) : src[i].data), 'every file: the new content, or the old one when not forced');
        });
        for (const n of Object.keys(links)) {
            const a = leads('/s/' + n);
            const x = fs.node(into + '/' + n);
            V.check(a.node && x && x.type === 'link' && leads(into + '/' + n).node === a.node, 'every link leads to the same place');
        }
        const count = (at, k) => fs.list(at).filter(([, kind]) => kind === k).length;
        for (const kind of ['file', 'link', 'dir']) V.check(count(into, kind) === count('/s', kind), 'and nothing else');
        return;
    }
    if (what === 'link') {
        fs.put('/s/f', fs.file(data()));
        fs.put('/s/d/g', fs.file(data()));
        const relative = V.choice('relative', [false, true]);
        fs.cwd = '/s';
        const target = V.choice('target', ['f', '/s/f', 'd', './d/../f', 'nowhere', '.', 'l2', 'none']);
        fs.put('/s/l2', fs.link('d'));
        if (target !== 'none') fs.put('/s/l', fs.link(target));
        else if (V.choice('plain', [true, false])) fs.put('/s/l', fs.file([1]));
        const to = V.choice('to', ['/t/new', '/s/d/new', '/t/a/b/new', '/s/f', '/s/copy']);
        const before = snapshot('/s').filter(([p]) => p !== to);
        const had = fs.node(to);
        const r = await V.settle(pkg.copySymbolicLink(relative ? 'l' : '/s/l', to));
        V.observe([r.status]);
        unchanged(before, '/s', to === '/s/f' ? '/s/f' : to);
        if (target === 'none' || had) {
            V.cover('refused');
            V.check(r.status === 'rejected' && fs.node(to) === had, 'only links are copied, and nothing is replaced');
            return;
        }
        V.cover('link');
        V.check(r.status === 'fulfilled', 'copied');
        const x = fs.node(to);
        const a = leads('/s/l');
        const b = leads(to);
        V.check(x && x.type === 'link' && a.node === b.node && (a.node || (a.parent === b.parent && a.name === b.name)), 'the copy leads where the original does');
        const kind = a.node && a.node.type;
        V.check(kind === 'file' ? x.kind === 'file' : kind === 'dir' ? x.kind === 'dir' || x.kind === 'junction' : true, 'made as a link of the kind of what it leads to');
        if (target !== 'l') {
            fs.tree.entries.get('s').entries.delete('l');
            V.check(leads(to).node === a.node, 'and still does without the original');
        }
        return;
    }
    // copy
    const parts = ['f', 'd/g', 'e', 'l', 'm', 'loop'].map(n => (faults === 1 && n !== 'f' && n !== 'l' ? n === 'd/g' : k === 'folder' ? V.truth(V.bool('has' + n.replace('/', ''))) : true));
    const relative = t === 'none' && V.choice('relative', [false, true]);
    fs.cwd = '/w';
    const from = relative ? '../s' : '/s';
    if (k === 'file') fs.put('/s', fs.file(data()));
    if (k === 'fifo') fs.put('/s', fs.other());
    if (k === 'link') fs.put('/s', fs.link(V.choice('target', ['w/x', '/w', 'nowhere', 's'])));
    fs.put('/w/x', fs.file([5]));
    if (k === 'folder') {
        fs.put('/s', fs.dir());
        if (parts[0]) fs.put('/s/f', fs.file(data()));
        if (parts[1]) fs.put('/s/d/g', fs.file(data()));
        if (parts[2]) fs.put('/s/e', fs.dir());
        if (parts[3]) fs.put('/s/l', fs.link('f'));
        if (parts[4]) fs.put('/s/d2/m', fs.link('../d'));
        if (parts[5]) fs.put('/s/loop', fs.link('.'));
    }
    let to = relative ? 'out/t' : t === 'none' ? V.choice('to', ['/t', '/s2', '/s.d/..t']) : '/t';
    if (t === 'inside') to = k === 'folder' ? V.choice('into', ['/s/t', '/s/d/t', '/s/e/a/t', '/s/..t', '/s/.../t']) : '/w/deep/t';
    if (t === 'file') fs.put('/t', fs.file([8]));
    const via = t === 'link' ? V.choice('via', ['/w/y', '/w/x']) : '/w/y';
    if (t === 'link') fs.put('/t', fs.link(via));
    const old = new Map();
    if (t === 'folder') {
        fs.put('/t', fs.dir());
        if (k === 'folder') {
            if (V.choice('oldf', [true, false])) old.set('/t/f', fs.put('/t/f', fs.file([200])));
            if (V.choice('oldg', [true, false])) old.set('/t/d/g', fs.put('/t/d/g', fs.file([201, 1, 2])));
            old.set('/t/extra', fs.put('/t/extra', fs.file([202])));
        }
    }
    const olds = new Map([...old].map(([p, n]) => [p, n.data.slice()]));
    const before = snapshot('/s').filter(([p]) => !(to + '/').startsWith('/s/') || !p.startsWith(to));
    const src = fs.node('/s');
    const was = src && src.type === 'file' ? src.data.slice() : null;
    const rest = snapshot('/w');
    const r = await V.settle(pkg.copy(from, to, options));
    V.observe([r.status]);
    V.check(fs.node('/s') === src && (was === null || sameData(src.data, was)), 'the source stays');
    if (k === 'folder') unchanged(before, '/s', t === 'inside' ? to : undefined);
    if (!relative && t !== 'inside') unchanged(k === 'file' && forcibly !== false ? rest.filter(([p]) => p !== via) : rest, '/w', k === 'file' && (forcibly !== false || via === '/w/y') ? via : undefined);
    for (const [p, n] of old) {
        V.check(fs.node(p) !== undefined, 'nothing in the target vanishes');
        if (forcibly === false || p === '/t/extra') {
            V.cover('kept');
            V.check(fs.node(p) === n && sameData(n.data, olds.get(p)), 'existing files stay as they are unless forced');
        }
    }
    if (k === 'missing' || k === 'fifo') {
        V.check(r.status === 'rejected', 'nothing to copy');
        V.cover('refused');
        return;
    }
    if (t === 'inside' && k === 'folder') {
        V.cover('refused');
        V.check(r.status === 'rejected' && fs.node(to) === undefined, 'a folder is not copied into itself');
        return;
    }
    if (r.status === 'rejected') {
        V.cover('refused');
        V.check(failed || (t === 'file' && k !== 'file') || (t === 'folder' && k !== 'folder') || (t === 'link'), 'copied unless something prevents it');
        if (t === 'file' && k !== 'file') V.check(fs.node('/t').type === 'file' && fs.node('/t').data[0] === 8, 'a file in the way stays');
        return;
    }
    const kept = p => forcibly === false && old.has(p);
    const compare = (a, b, pa, pb) => {
        if (a.type === 'link') {
            V.cover('link');
            const x = leads(pa);
            const y = leads(pb);
            V.check(b && b.type === 'link' && x.node === y.node && (x.node || x.error || (x.parent === y.parent && x.name === y.name)), 'links are copied as links to the same place');
            return;
        }
        V.check(b && b.type === a.type, 'the same kinds');
        if (a.type === 'file') {
            if (!kept(pb) && !(forcibly === false && t === 'file' && k === 'file')) V.check(sameData(a.data, b.data), 'the same contents');
            return;
        }
        V.cover('copied');
        for (const [n, x] of a.entries) compare(x, b.entries.get(n), pa + '/' + n, pb + '/' + n);
        for (const n of b.entries.keys()) V.check(a.entries.has(n) || pb + '/' + n === '/t/extra' || old.has(pb + '/' + n) || n === 'd', 'nothing else in the copy');
    };
    const dest = relative ? '/w/out/t' : to;
    if (t === 'link' && k === 'file') {
        const y = leads('/t').node;
        V.check(y && ((forcibly === false && via === '/w/x') || sameData(src.data, y.data)), 'the same contents');
        return;
    }
    compare(src, fs.node(dest), '/s', dest);
};
