'use strict';
const { FS, encode } = require('./lib/vfs');
exports.bounds = ['files of up to 3 (thorough 5) bytes of any value, texts of up to 3 (thorough 4) characters of any value', 'any cut of a file into pieces', 'every start and end up to beyond the end of the file, numbers that are none', 'any one (thorough two) of the operations may fail, of the file or within the stream', 'root and ordinary users, files and folders that may not be read, written or entered'];
exports.outside = ['other encodings than UTF-8 and Latin-1', 'errors of a stream after its end'];
exports.stubs = ['fs: a file system in memory', 'readline.createInterface: lines of the data of a stream, with and without passing on its errors (older and newer versions of Node)'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 3 : 5); n++) {
        out.push({ name: 'read' + n, params: { what: 'read', n, faults: 0 } });
        out.push({ name: 'lines' + n, params: { what: 'lines', n, faults: 0 } });
        out.push({ name: 'fragment' + n, params: { what: 'fragment', n, faults: 0 } });
    }
    for (let n = 0; n <= (q ? 2 : 4); n++) out.push({ name: 'write' + n, params: { what: 'write', n, faults: 0 } });
    for (const what of ['read', 'lines', 'fragment', 'write']) out.push({ name: what + ' with faults', params: { what, n: 2, faults: q ? 1 : 2 } });
    for (const what of ['marks', 'objects', 'mkdir', 'places', 'users', 'arguments']) out.push({ name: what, params: { what, n: 0, faults: 0 } });
    return out;
};
exports.mustReach = () => ['read', 'written', 'lines', 'fragment', 'first', 'failed', 'refused', 'cut'];
exports.run = async (V, { what, n, faults }) => {
    let left = faults;
    let count = 0;
    let failed = false;
    const fs = new FS({
        root: what !== 'users',
        fault() {
            if (left === 0 || count > 6 || !V.truth(V.bool('fault' + count++))) return null;
            left--;
            failed = true;
            V.cover('failed');
            return 'EIO';
        }
    });
    fs.forward = what === 'lines' ? V.choice('node', [true, false]) : true;
    let cuts = 0;
    if (what === 'lines' || what === 'fragment')
        fs.short = k => {
            if (cuts > 3) return k;
            V.cover('cut');
            return V.choice('cut' + cuts++ + 'of' + k, Array.from({ length: k }, (_, i) => k - i));
        };
    const mods = fs.modules();
    V.stubs.fs = mods.fs;
    V.stubs['fs/promises'] = mods.promises;
    V.stubs.path = fs.path();
    V.stubs.readline = fs.readline();
    const pkg = V.load('fs');
    fs.cwd = '/t';
    fs.put('/t/d', fs.dir());
    const same = (a, b) => V.and(a.length === b.length, ...a.map((x, i) => V.eq(x, b[i])));
    const clean = () => {
        V.check(fs.uncaught === undefined, 'no error goes uncaught');
        V.check(fs.fds.size === 0, 'nothing stays open');
    };
    // the text of bytes, decoded apart from the code under test
    const ranges = what === 'lines' || what === 'fragment' ? [[9, 14], [0x40, 0x42]] : [[0, 0x7f]];
    const bytes = [];
    for (let i = 0; i < n && what !== 'write'; i++) {
        const c = V.int('b' + i, 0, 127);
        V.assume(V.or(false, ...ranges.map(([a, b]) => V.and(c >= a, c <= b))));
        bytes.push(c);
    }
    const text = bytes.map(c => String.fromCharCode(c)).join('');
    if (what === 'marks') {
        // byte order marks within a file belong to its text
        const t = V.choice('t', ['\ufeffa\ufeffb\ufeff', 'x\ufeff\r\n\ufeffy', 'é中\ud83d\ude00\ufeff']);
        fs.put('/t/f', fs.file(encode(t)));
        let k = 0;
        fs.short = n => (k > 2 ? n : V.choice('cut' + k++, [n, 1, 2, 5].map(c => Math.min(c, n))));
        const all = await V.settle(pkg.readFragment('f', { start: 0, end: 99 }));
        V.observe(all.value);
        V.check(all.value === t || all.value === t.replace(/^\ufeff/, ''), 'the whole text, however it is cut');
        const own = t.length ? encode(t)[0] : 0;
        const from = own < 0x80 ? 1 : own < 0xe0 ? 2 : 3;
        const some = await V.settle(pkg.readFragment('f', { start: from, end: 99 }));
        V.check(some.value === t.slice(1) || some.value === t.slice(1).replace(/^\ufeff/, ''), 'from a place on');
        V.cover('fragment');
        clean();
        return;
    }
    if (what === 'read') {
        fs.put('/t/f', fs.file(bytes));
        const enc = faults ? undefined : V.choice('encoding', [undefined, 'utf8', 'latin1']);
        const r = await V.settle(pkg.readFile('f', enc && { encoding: enc }));
        if (failed) V.check(r.status === 'rejected', 'no text without the file');
        else {
            V.cover('read');
            V.check(r.status === 'fulfilled', 'read');
            V.check(V.eq(r.value, text), 'all of the file');
        }
        V.check(same(fs.node('/t/f').data, bytes), 'the file stays as it is');
        clean();
    } else if (what === 'lines') {
        fs.put('/t/f', fs.file(bytes));
        const got = [];
        const own = V.choice('own', [0, 1, 2]);
        const f = l => {
            got.push(l);
        };
        const r = await V.settle(own === 0 ? pkg.readlineStream('f') : own === 1 ? pkg.readlineStream('f', f) : pkg.readlineStream('f', 'utf8', f));
        clean();
        if (failed) {
            V.check(r.status === 'rejected', 'no lines of a part of a file');
            return;
        }
        V.check(r.status === 'fulfilled', 'read');
        const want = [];
        let from = 0;
        for (let i = 0; i < n; i++) {
            if (V.truth(V.and(V.not(V.eq(bytes[i], 10)), V.not(V.eq(bytes[i], 13))))) continue;
            want.push(text.slice(from, i));
            if (i + 1 < n && V.truth(V.and(V.eq(bytes[i], 13), V.eq(bytes[i + 1], 10)))) i++;
            from = i + 1;
        }
        if (from < n) want.push(text.slice(from));
        V.cover('lines');
        if (own) V.check(r.value === true, 'true at the end');
        else V.check(Array.isArray(r.value), 'a list');
        V.check(same(own ? got : r.value, want), 'every line once, in their order');
    } else if (what === 'fragment') {
        fs.put('/t/f', fs.file(bytes));
        const first = V.choice('firstLine', [undefined, true]);
        const start = V.choice('start', [undefined, 0, 1, 2, 4]);
        const end = V.choice('end', [undefined, 0, 1, 2, 7]);
        const r = await V.settle(pkg.readFragment('f', { start, end, firstLine: first }));
        clean();
        if (!end) {
            V.check(r.status === 'fulfilled' && r.value === undefined, 'nothing without an end');
            return;
        }
        if ((start || 0) > end) {
            V.cover('refused');
            V.check(r.status === 'rejected', 'no fragment ends before it starts');
            return;
        }
        let want = text.slice(start || 0, end + 1);
        let cut = false;
        if (first) {
            for (let i = 0; i < want.length && !cut; i++) {
                cut = V.truth(V.or(V.eq(want.charCodeAt(i), 10), V.eq(want.charCodeAt(i), 13)));
                if (cut) want = want.slice(0, i);
            }
            V.cover('first');
        }
        if (failed && r.status === 'rejected') return;
        // what fails after the end of the first line does not matter
        if (failed && !first) V.check(false, 'no part of a fragment');
        if (failed && first) V.check(cut, 'no part of a line');
        V.cover('fragment');
        V.check(r.status === 'fulfilled', 'read');
        V.check(V.eq(r.value, want), first ? 'the first line' : 'from start to end');
    } else if (what === 'write') {
        const s = V.str('s', n);
        const old = V.choice('old', [null, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]]);
        const at = V.choice('at', ['/t/f', '/t/n/f']);
        if (old) fs.put(at, fs.file(old));
        const r = await V.settle(pkg.writeFile(at, s));
        if (failed) V.check(r.status === 'rejected', 'a failure is told');
        else {
            V.cover('written');
            V.check(r.status === 'fulfilled' && r.value === undefined, 'written');
            V.check(same(fs.node(at).data, encode(s)), 'all of the text and nothing else');
        }
        clean();
    } else if (what === 'objects') {
        const x = V.int('x', -3, 12);
        const t = V.str('t', 1, [[0x20, 0x21], [0x23, 0x5b], [0x5d, 0x7e]]);
        const kind = V.choice('kind', ['{}', '[]', 'o', 'a', 'n', 'none', 'cycle', 'bytes', 'text', 'flag']);
        const v = { '{}': {}, '[]': [], o: { a: x, b: [t, null, true] }, a: [x, t], n: [[], {}], none: { toJSON: () => 5 } }[kind];
        if (kind === 'cycle') {
            const c = { x };
            c.c = c;
            fs.put('/t/o', fs.file([65]));
            const r = await V.settle(pkg.writeFile('/t/o', c));
            V.check(r.status === 'rejected' && same(fs.node('/t/o').data, [65]), 'what cannot be JSON does not touch the file');
            return;
        }
        if (kind === 'bytes') {
            const r = await V.settle(pkg.writeFile('/t/o', new Uint8Array([1, 255, 0])));
            V.check(r.status === 'fulfilled' && same(fs.node('/t/o').data, [1, 255, 0]), 'bytes as they are');
            return;
        }
        if (kind === 'text') {
            const r = await V.settle(pkg.writeFile('/t/o', ['a', 'b'], { isFormat: false }));
            V.check(r.status === 'fulfilled' && same(fs.node('/t/o').data, [97, 98]), 'no JSON unless wanted');
            return;
        }
        if (kind === 'flag') {
            fs.put('/t/o', fs.file([65]));
            const r = await V.settle(pkg.writeFile('/t/o', t, { flag: 'a' }));
            V.check(r.status === 'fulfilled' && same(fs.node('/t/o').data, [65, ...encode(t)]), 'append');
            const no = await V.settle(pkg.writeFile('/t/o', t, { flag: 'wx' }));
            V.check(no.status === 'rejected' && same(fs.node('/t/o').data, [65, ...encode(t)]), 'only when there is none');
            return;
        }
        const r = await V.settle(pkg.writeFile('/t/o', v));
        V.check(r.status === 'fulfilled', 'written');
        const num = String(x);
        const want = { '{}': '{}', '[]': '[]', o: '{"a":' + num + ',"b":["' + t + '",null,true]}', a: '[' + num + ',"' + t + '"]', n: '[[],{}]', none: '5' }[kind];
        V.check(same(fs.node('/t/o').data, encode(want)), 'as JSON');
    } else if (what === 'places' || what === 'mkdir') {
        // missing folders, folders and files in the way
        fs.put('/t/x', fs.file([7]));
        fs.put('/t/l', fs.link('x'));
        fs.put('/t/dang', fs.link('gone/away'));
        const p = V.choice('p', ['a/b/f', 'f', 'd', 'x/y', 'l', 'x', 'dang', 'd/f', './d/../f', 'd/', '']);
        const file = { 'a/b/f': 1, f: 1, l: 1, x: 1, 'd/f': 1, './d/../f': 1 }[p];
        if (what === 'mkdir') {
            const rec = V.choice('recursive', [undefined, true, false]);
            const before = JSON.stringify(fs.list('/t'));
            const r = await V.settle(pkg.mkdir(p, rec === undefined ? undefined : { recursive: rec }));
            const ok = rec === false ? ['f', 'd/f', './d/../f'].includes(p) : ['a/b/f', 'f', 'd', 'd/f', './d/../f', 'd/'].includes(p);
            V.check(r.status === (ok ? 'fulfilled' : 'rejected'), 'made or told: ' + p);
            if (ok) V.check(fs.node('/t/' + p).type === 'dir' && (fs.node('/t/' + p).mode & 0o777) === 0o755, 'a folder all can enter');
            else if (p !== '') V.check(JSON.stringify(fs.list('/t')) === before, 'nothing changes: ' + p);
            V.cover('refused');
            return;
        }
        const make = V.choice('isMkdir', [undefined, true, false]);
        const before = JSON.stringify(fs.list('/t'));
        const r = await V.settle(pkg.writeFile(p, 'A', make === undefined ? undefined : { isMkdir: make }));
        const ok = file && !(make === false && p === 'a/b/f');
        V.check(r.status === (ok ? 'fulfilled' : 'rejected'), 'written or told: ' + p);
        if (ok) {
            V.check(same(fs.node('/t/' + (p === 'l' ? 'x' : p)).data, [65]), 'written');
            V.check(fs.node('/t/' + (p === 'l' ? 'x' : 'd')).type !== 'link', 'nothing else');
        } else V.check(JSON.stringify(fs.list('/t')) === before, 'nothing changes: ' + p);
        for (const f of ['readFile', 'readlineStream']) V.check((await V.settle(pkg[f](p))).status === (ok || p === 'x' || p === 'l' ? 'fulfilled' : 'rejected'), f + ' ' + p);
        clean();
    } else if (what === 'users') {
        // a file that may only be read can be read by lines
        fs.put('/t/ro', fs.file([65, 10], 0o444));
        fs.put('/t/wo', fs.file([65, 10], 0o222));
        const r = await V.settle(pkg.readlineStream('ro'));
        V.check(r.status === 'fulfilled' && r.value.length === 1 && r.value[0] === 'A', 'reading needs no right to write');
        V.check((await V.settle(pkg.readlineStream('wo'))).status === 'rejected', 'no lines of what may not be read');
        V.check((await V.settle(pkg.readFragment('wo', { end: 3 }))).status === 'rejected', 'no fragment of what may not be read');
        const g = await V.settle(pkg.readFragment('ro', { end: 3 }));
        V.check(g.status === 'fulfilled' && g.value === 'A\n', 'a fragment needs no right to write');
        const w = await V.settle(pkg.writeFile('ro', 'B'));
        V.check(w.status === 'rejected' && same(fs.node('/t/ro').data, [65, 10]), 'what may not be written');
        const m = await V.settle(pkg.writeFile('/t/p/q/f', 'B'));
        V.check(m.status === 'fulfilled' && same(fs.node('/t/p/q/f').data, [66]), 'own folders can be entered');
        clean();
    } else {
        fs.put('/t/f', fs.file([65]));
        for (const x of [-1, 1.5, NaN, Infinity, '1', null, true, [], 2 ** 53]) {
            for (const o of [{ start: x, end: 3 }, { end: x }]) {
                const r = V.attempt(() => pkg.readFragment('f', o));
                const no = !r.ok || (await V.settle(r.value)).status === 'rejected';
                V.check(no, 'whole numbers only');
            }
        }
        V.check((await V.settle(pkg.readFile('none'))).status === 'rejected', 'no file');
        V.check((await V.settle(pkg.readFragment('none', { end: 2 }))).status === 'rejected', 'no file');
        V.check((await V.settle(pkg.readlineStream('d'))).status === 'rejected', 'no folder');
        V.cover('refused');
        clean();
    }
};
