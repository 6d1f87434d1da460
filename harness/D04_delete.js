'use strict';
const { FS } = require('./lib/vfs');
exports.bounds = ['folders of any of: a file, a folder with a file, an empty folder, links to files and folders elsewhere, to nothing and to the folder itself, hidden names', 'paths of every kind, through links, relative, missing', 'any one (thorough two) of the operations may fail'];
exports.outside = ['devices, sockets and pipes', 'shortcuts of Windows'];
exports.stubs = ['fs: a file system in memory'];
const NAMES = ['f', 'd/g', 'e', 'lf', 'ld', 'dang', 'loop', '.hidden', ' blank ', '.lock', 'node_modules/.git/config'];
exports.cases = tier => ['', 'faults'].flatMap(f => [
    { name: 'clearDir ' + f, params: { what: 'clear', faults: f ? (tier === 'quick' ? 1 : 2) : 0 } },
    { name: 'deleteOne ' + f, params: { what: 'one', faults: f ? (tier === 'quick' ? 1 : 2) : 0 } }
]);
exports.mustReach = () => ['cleared', 'deleted', 'refused', 'failed'];
exports.run = async (V, { what, faults }) => {
    let left = faults;
    let count = 0;
    let failed = false;
    const fs = new FS({
        fault() {
            if (left === 0 || count > 20 || !V.truth(V.bool('fault' + count++))) return null;
            left--;
            failed = true;
            V.cover('failed');
            return 'EPERM';
        }
    });
    const mods = fs.modules();
    V.stubs.fs = mods.fs;
    V.stubs['fs/promises'] = mods.promises;
    V.stubs.path = fs.path();
    const { clearDir, deleteOne } = V.load('fs');
    fs.cwd = '/w';
    fs.put('/keep/a', fs.file([1]));
    fs.put('/keep/sub/b', fs.file([2]));
    fs.put('/w/near', fs.file([3]));
    const make = (at, yes) => {
        fs.put(at, fs.dir());
        if (yes('f')) fs.put(at + '/f', fs.file([4]));
        if (yes('d/g')) fs.put(at + '/d/g', fs.file([5]));
        if (yes('e')) fs.put(at + '/e', fs.dir());
        if (yes('lf')) fs.put(at + '/lf', fs.link('/keep/a'));
        if (yes('ld')) fs.put(at + '/ld', fs.link('/keep/sub'));
        if (yes('dang')) fs.put(at + '/dang', fs.link('nothing'));
        if (yes('loop')) fs.put(at + '/loop', fs.link('.'));
        for (const n of NAMES.slice(8)) if (yes(n)) fs.put(at + '/' + n, fs.file([7]));
        if (yes('.hidden')) fs.put(at + '/.hidden', fs.file([6]));
    };
    const rest = but => fs.list().filter(([p]) => p !== but && !p.startsWith(but + '/'));
    const same = (a, b) => a.length === b.length && a.every(([p, k, c], i) => p === b[i][0] && k === b[i][1] && (Array.isArray(c) ? c.join() === b[i][2].join() : c === b[i][2]));
    if (what === 'clear') {
        const odd = !faults && V.truth(V.bool('odd'));
        make('/w/t', n => (faults ? ['d/g', 'ld', 'dang'].includes(n) : NAMES.indexOf(n) < 8 ? V.truth(V.bool('has' + NAMES.indexOf(n))) : odd));
        fs.put('/w/way', fs.link('t'));
        const p = V.choice('path', ['/w/t', 't', '/w/t/', './t/../t', 'way', '/w/none', '/w/near', '/w/t/f']);
        const before = rest('/w/t');
        const inside = fs.list('/w/t');
        const r = await V.settle(clearDir(p));
        V.observe([r.status]);
        V.check(same(before, rest('/w/t')), 'nothing else is touched');
        V.check(fs.node('/w/t') && fs.node('/w/t').type === 'dir', 'the folder itself stays');
        if (['/w/none', '/w/near', '/w/t/f'].includes(p)) {
            V.cover('refused');
            V.check(r.status === 'rejected' && same(inside, fs.list('/w/t')), 'only folders can be cleared');
            return;
        }
        if (failed) {
            if (r.status === 'fulfilled') V.check(fs.list('/w/t').length === 0, 'cleared if it says so');
            return;
        }
        V.cover('cleared');
        V.check(r.status === 'fulfilled' && fs.list('/w/t').length === 0, 'the folder is empty');
        return;
    }
    make('/w/t', n => (faults ? ['d/g', 'ld'].includes(n) : true));
    const p = V.choice('path', ['t/f', '/w/t/d', 't/e', 't/lf', 't/ld', 't/dang', 't/loop', '/w/t/ blank ', 't/.lock', '/w/t', 't', 't/none', 't/f/x', './t/../t/d', '/w/t/ld/b', 't/.hidden']);
    const gone = { '/w/t/ blank ': '/w/t/ blank ', 't/.lock': '/w/t/.lock', 't/f': '/w/t/f', '/w/t/d': '/w/t/d', 't/e': '/w/t/e', 't/lf': '/w/t/lf', 't/ld': '/w/t/ld', 't/dang': '/w/t/dang', 't/loop': '/w/t/loop', '/w/t': '/w/t', t: '/w/t', './t/../t/d': '/w/t/d', '/w/t/ld/b': '/keep/sub/b', 't/.hidden': '/w/t/.hidden' }[p];
    const there = gone !== undefined && fs.node(gone) !== undefined;
    const all = fs.list();
    const before = rest(gone);
    const r = await V.settle(deleteOne(p));
    V.observe([r.status]);
    if (!there) {
        V.cover('refused');
        V.check(r.status === 'rejected' && same(all, fs.list()), 'what is not there cannot be deleted');
        return;
    }
    V.check(same(before, rest(gone)), 'nothing else is touched');
    if (!failed) V.check(r.status === 'fulfilled', 'everything can be deleted');
    if (r.status === 'fulfilled') {
        V.cover('deleted');
        V.check(fs.node(gone) === undefined, 'it is gone');
    }
};
