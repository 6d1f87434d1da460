'use strict';
const { FS, BytesBuffer } = require('./lib/vfs');
const Q = [0, 1, 2, 511, 512, 513, 1024, 1025];
exports.bounds = ['files of 1536, 2048, 2049 and 5000 bytes, six of them any bytes', 'files of 0, 1, 2, 511, 512, 513, 1024 and 1025 bytes, the first, 512th, 513th and last of them any bytes, the others zero', 'any of the first 3 reads may return fewer bytes than asked for', 'any one or two of the operations may fail', 'missing files, directories and links'];
exports.outside = ['differences at other places than those'];
exports.stubs = ['fs: a file system in memory', 'Buffer: a list of symbolic bytes'];
exports.cases = () => [
    ...Q.flatMap(a => Q.map(b => ({ name: `${a} and ${b}`, params: { a, b } }))),
    ...[[1536, 1536], [1536, 1537], [2049, 2049], [2049, 2048], [5000, 5000]].map(([a, b]) => ({ name: `long ${a} and ${b}`, params: { a, b } })),
    ...[[1, 1], [2, 2], [513, 513], [1024, 1024], [2, 1], [513, 512]].map(([a, b]) => ({ name: `short reads of ${a} and ${b}`, params: { a, b, short: true } })),
    ...[[0, 0], [1, 1], [513, 513], [0, 600]].map(([a, b]) => ({ name: `faults with ${a} and ${b}`, params: { a, b, faults: true } })),
    { name: 'kinds', params: { kinds: true } }
];
exports.mustReach = () => ['equal', 'different', 'failed', 'short'];
exports.run = async (V, { a, b, short, faults, kinds }) => {
    let left = 2;
    let count = 0;
    let failed = false;
    let readFailed = false;
    const fs = new FS({
        fault(op) {
            if (!faults || left === 0 || count > 8) return null;
            if (!V.truth(V.bool('fault' + count++))) return null;
            left--;
            failed = true;
            if (op !== 'close') readFailed = true;
            V.cover('failed');
            return 'EIO';
        }
    });
    let shorts = 0;
    if (short)
        fs.short = n => {
            if (shorts > 2) return n;
            V.cover('short');
            return [n, 1, n - 1][V.choice('short' + shorts++, [0, 1, 2])];
        };
    const mods = fs.modules();
    V.stubs.fs = mods.fs;
    V.stubs['fs/promises'] = mods.promises;
    V.env.Buffer = BytesBuffer;
    const { diffFile } = V.load('fs');
    const make = (w, n) => {
        const data = new Array(n).fill(0);
        for (const i of new Set([0, 511, 512, ...(n > 1025 ? [1024, 1535, 1536] : []), n - 1])) if (i >= 0 && i < n) data[i] = V.int(w + (i === n - 1 ? 'end' : i), 0, 255);
        return data;
    };
    if (kinds) {
        fs.put('/f', fs.file([1]));
        fs.put('/d/x', fs.file([1]));
        fs.put('/l', fs.link('/f'));
        fs.put('/m', fs.link('/nowhere'));
        const paths = ['/f', '/d', '/l', '/m', '/none', '/d/x', '/f/x'];
        const p = V.choice('p', paths);
        const q = V.choice('q', paths);
        const r = await V.settle(diffFile(p, q));
        const ok = x => ['/f', '/l', '/d/x'].includes(x);
        V.cover('equal');
        if (ok(p) && ok(q)) V.check(r.status === 'fulfilled' && r.value === true, 'equal contents');
        else V.check((r.status === 'fulfilled' && r.value === false) || (r.status === 'rejected' && (p === '/d' || q === '/d')), 'what cannot be read is not equal');
        V.check(fs.fds.size === 0, 'what was opened is closed');
        V.check(fs.log.length === 0, 'nothing is changed');
        return;
    }
    const x = make('x', a);
    const y = make('y', b);
    fs.put('/x', fs.file(x));
    fs.put('/y', fs.file(y));
    const r = await V.settle(diffFile('/x', '/y'));
    V.observe([r.status, r.value]);
    const same = V.truth(V.and(a === b, ...x.map((v, i) => (i < b ? V.eq(v, y[i]) : false))));
    V.cover(same ? 'equal' : 'different');
    if (!failed) V.check(r.status === 'fulfilled' && r.value === same, 'equal exactly when all bytes are');
    else V.check(r.status === 'rejected' || r.value === false || (same && !readFailed), 'never equal after a failure');
    V.check(fs.fds.size === 0, 'what was opened is closed');
    V.check(fs.log.length === 0, 'nothing is changed');
};
