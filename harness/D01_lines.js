'use strict';
const { Bytes, BytesBuffer } = require('./lib/vfs');
exports.bounds = ['every text of 0..4 (thorough 6) units, one more without the ends of lines of programs', 'every sequence of 0..3 bytes as UTF-8 and 0..4 (thorough 4 and 5) bytes as Latin-1 or UTF-16', 'with and without callback, in either place'];
exports.outside = ['other encodings'];
exports.stubs = ['Buffer: a list of symbolic bytes with a decoder of its own (checked against the real one)'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (const f of ['readline', 'readlineFromCode']) {
        for (let n = 0; n <= (q ? 4 : 6) + (f === 'readline'); n++) out.push({ name: `${f} text${n}`, params: { f, n, what: 'text' } });
        for (const e of ['utf8', 'latin1', 'utf16le']) for (let n = 0; n <= (q ? (e === 'utf8' ? 3 : 4) : e === 'utf8' ? 4 : 5); n++) if (e !== 'utf16le' || n % 2 === 0) out.push({ name: `${f} ${e}${n}`, params: { f, n, what: 'bytes', e } });
        out.push({ name: `${f} callback`, params: { f, n: 3, what: 'callback' } }, { name: `${f} kinds`, params: { f, n: 0, what: 'kinds' } });
    }
    for (let n = 0; n <= 3; n++) out.push({ name: 'BOM' + n, params: { f: 'stripBOM', n } });
    return out;
};
exports.mustReach = () => ['crlf', 'cr', 'lf', 'other', 'bom'];
exports.run = (V, { f, n, what, e }) => {
    if (what === 'bytes') V.env.Buffer = BytesBuffer;
    const fs = V.load('fs');
    if (f === 'stripBOM') {
        const s = V.str('b', n);
        const r = fs.stripBOM(s);
        if (n && V.truth(V.eq(s.charCodeAt(0), 0xfeff))) {
            V.cover('bom');
            V.check(V.eq(r, s.slice(1)), 'the mark is taken away once');
        } else V.check(V.eq(r, s), 'all else stays');
        return;
    }
    const ends = f === 'readline' ? [] : [0x2028, 0x2029, 0x85];
    // the lines of a text
    const lines = s => {
        const out = [];
        let from = 0;
        for (let i = 0; i < s.length; i++) {
            const c = s.charCodeAt(i);
            const cr = V.truth(V.eq(c, 13));
            if (!cr && !V.truth(V.eq(c, 10)) && !V.truth(V.or(false, ...ends.map(x => V.eq(c, x))))) continue;
            out.push(s.slice(from, i));
            if (cr && i + 1 < s.length && V.truth(V.eq(s.charCodeAt(i + 1), 10))) {
                V.cover('crlf');
                i++;
            } else V.cover(cr ? 'cr' : V.truth(V.eq(c, 10)) ? 'lf' : 'other');
            from = i + 1;
        }
        out.push(s.slice(from));
        return out;
    };
    const same = (got, want, how) => {
        V.check(Array.isArray(got) && got.length === want.length, 'as many lines ' + how);
        V.check(V.and(true, ...want.map((l, i) => V.eq(got[i], l))), 'the lines ' + how);
    };
    const read = fs[f];
    if (what === 'kinds') {
        for (const x of [undefined, null, 5, ['a'], {}, new Uint8Array(1)]) {
            const r = V.attempt(() => read(x));
            V.check(!r.ok && r.error instanceof TypeError, 'nothing but text and buffers');
        }
        const real = read(Buffer.from('a\r\nä\n'));
        V.check(V.eq(real.join('|'), 'a|ä|'), 'real buffers');
        for (const e of ['latin1', 'ascii', 'ucs2', 'utf16le', 'utf-8', 'UTF8', 'binary', 'ucs-2']) V.check(V.eq(read(Buffer.from('a\nbc\r\n'.repeat(20), e), e).join('|'), 'a|bc|'.repeat(20)), 'real buffers in ' + e);
        return;
    }
    if (what === 'bytes') {
        const b = Bytes.make(V.array(n, i => V.int('b' + i, 0, 255)));
        same(read(b, e), lines(b.toString(e)), 'of bytes');
        if (e === 'utf8') same(read(b), lines(b.toString('utf8')), 'of bytes, as UTF-8 unless told otherwise');
        return;
    }
    const s = V.str('s', n);
    const want = lines(s);
    if (what === 'text') {
        same(read(s), want, 'of the text');
        return;
    }
    for (const place of [0, 1, 2]) {
        const got = [];
        const done = [];
        const cb = (l, d) => {
            got.push(l);
            done.push(d);
        };
        const r = V.attempt(() => (place === 0 ? read(s, cb) : place === 1 ? read(s, 'utf8', cb) : read(s, undefined, cb)));
        V.check(r.ok, 'no failure');
        same(got, want, 'for the callback');
        V.check(done.every((d, i) => d === (i === done.length - 1)), 'the last line, and no other, is marked as the end');
    }
};
