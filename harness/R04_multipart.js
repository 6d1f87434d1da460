'use strict';
const CH = [[0, 0], [9, 13], [32, 126], [0xe9, 0xe9], [0x4e2d, 0x4e2d]];
exports.bounds = ['names of 0..2 and values of 0..2 (thorough 3) arbitrary printable or line-break characters next to a second field; files of up to 2 arbitrary bytes; boundaries of 1..72 characters; nine shapes of nested objects, each leaf a number -9..99'];
exports.outside = ['values that contain the boundary', 'lone surrogates', 'instances of classes inside objects'];
exports.stubs = ['TextEncoder, Uint8Array and Buffer.concat keep texts as texts and bytes as lists (symbolic cases)', 'http.request records what is sent'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= 2; n++) out.push({ name: 'name' + n, params: { what: 'name', n } });
    for (let n = 0; n <= (q ? 2 : 3); n++) out.push({ name: 'value' + n, params: { what: 'value', n } });
    for (const what of ['file', 'boundary', 'random', 'object', 'sent']) out.push({ name: what, params: { what } });
    return out;
};
exports.mustReach = () => ['text', 'file', 'escaped', 'refused', 'taken', 'nested', 'sent', 'random'];
exports.run = async (V, { what, n }) => {
    const sent = [];
    V.stubs.http = {
        request: config => {
            const req = { on: () => req, destroy() {}, end: body => sent.push({ config, body }) };
            return req;
        }
    };
    V.stubs.https = V.stubs.http;
    const pieces = what !== 'sent';
    if (pieces) {
        V.stubs.util = { TextEncoder: class { encode(t) { return { text: t }; } } };
        V.env.Uint8Array = function (x) { return x; };
        V.env.Buffer = { concat: list => list, from: Buffer.from, isBuffer: Buffer.isBuffer };
    }
    const { formDataToBuffer, objectToFormData } = V.load('request/src/request/formData');
    const form = list => ({ [Symbol.toStringTag]: 'FormData', entries: () => list[Symbol.iterator](), append: (k, v) => list.push([k, v]) });
    // what a server reads: the parts between the boundaries
    const join = list => {
        const out = [];
        for (const p of list) {
            if (p && 'text' in Object(p)) {
                if (out.length && typeof out[out.length - 1] !== 'object') out[out.length - 1] += p.text;
                else out.push(p.text);
            } else out.push(p);
        }
        return out;
    };
    const crlf = t => {
        let out = '';
        for (let i = 0; i < t.length; i++) {
            const c = t[i];
            if (V.truth(V.eq(c, '\r'))) {
                if (i + 1 < t.length && V.truth(V.eq(t[i + 1], '\n'))) i++;
                out += '\r\n';
            } else if (V.truth(V.eq(c, '\n'))) out += '\r\n';
            else out += c;
        }
        return out;
    };
    const quoted = t => {
        let out = '';
        for (const c of t.split('')) {
            if (V.truth(V.eq(c, '\r'))) out += '%0D';
            else if (V.truth(V.eq(c, '\n'))) out += '%0A';
            else if (V.truth(V.eq(c, '"'))) out += '%22';
            else {
                out += c;
                continue;
            }
            V.cover('escaped');
        }
        return out;
    };
    const run = async (list, options) => {
        let headers = null;
        const r = await V.settle(formDataToBuffer(form(list), h => (headers = h), options));
        return { r, headers };
    };
    if (what === 'name' || what === 'value') {
        const name = what === 'name' ? V.str('name', n, CH) : 'a';
        const value = what === 'value' ? V.str('value', n, CH) : 'x';
        const { r, headers } = await run([[name, value], ['b', 'y']], { boundary: 'BB' });
        V.cover('text');
        V.check(r.status === 'fulfilled' && headers['content-type'] === 'multipart/form-data; boundary=BB', 'the boundary is announced');
        const body = join(r.value);
        V.observe(body);
        V.check(body.length === 1 && V.truth(V.eq(body[0], '--BB\r\nContent-Disposition: form-data; name="' + quoted(name) + '"\r\n\r\n' + crlf(value) + '\r\n--BB\r\nContent-Disposition: form-data; name="b"\r\n\r\ny\r\n--BB--\r\n\r\n')) || V.eq(body[0], '--BB\r\nContent-Disposition: form-data; name="' + quoted(name) + '"\r\n\r\n' + crlf(value) + '\r\n--BB\r\nContent-Disposition: form-data; name="b"\r\n\r\ny\r\n--BB--\r\n'), 'every field once, in order, with its name and value');
        return;
    }
    if (what === 'file') {
        const bytes = [];
        for (let i = V.size('len', 0, 2); i > 0; i--) bytes.push(V.int('byte' + i, 0, 255));
        const name = V.str('file', V.size('flen', 1, 2), CH);
        const type = V.choice('type', ['', 'text/plain']);
        const { r } = await run([['f', { name, type, arrayBuffer: async () => bytes }], ['b', 'y']], { boundary: 'BB' });
        V.cover('file');
        const body = join(r.value);
        const at = body.indexOf(bytes);
        V.check(body.length === 3 && at === 1, 'the bytes of the file as they are');
        V.check(V.eq(body[0], '--BB\r\nContent-Disposition: form-data; name="f"; filename="' + quoted(name) + '"\r\nContent-Type: ' + (type || 'application/octet-stream') + '\r\n\r\n'), 'behind its name, file name and type');
        V.check(body[2].startsWith('\r\n--BB\r\nContent-Disposition: form-data; name="b"\r\n\r\ny\r\n--BB--\r\n'), 'followed by the other fields');
        return;
    }
    if (what === 'boundary') {
        const len = V.size('blen', 0, 72);
        const { r } = await run([['a', 'x']], { boundary: 'b'.repeat(len) });
        V.cover(r.status === 'rejected' ? 'refused' : 'taken');
        V.check((r.status === 'fulfilled') === (len >= 1 && len <= 70), 'boundaries have 1..70 characters');
        const bad = V.choice('bad', [null, {}, 'x', [], new Map()]);
        const s = await V.settle(formDataToBuffer(bad));
        V.check(s.status === 'rejected' && s.reason instanceof TypeError, 'only forms are taken');
        return;
    }
    if (what === 'random') {
        V.cover('random');
        const size = V.size('size', 0, 3);
        const { r, headers } = await run([['a', 'x']], { tag: 't', size });
        const b = headers['content-type'].slice('multipart/form-data; boundary='.length);
        V.check(b.length === 2 + size, 'the size of the boundary');
        const ok = c => V.or(V.and(c >= 'a', c <= 'z'), V.and(c >= 'A', c <= 'Z'), V.and(c >= '0', c <= '9'), V.eq(c, '-'), V.eq(c, '_'));
        V.check(V.and(V.eq(b.slice(0, 2), 't-'), ...b.slice(2).split('').map(ok)), 'of letters, digits, - and _');
        V.check(V.eq(join(r.value)[0].slice(0, 2 + b.length), '--' + b), 'and it separates the fields');
        return;
    }
    if (what === 'object') {
        const i = V.int('i', -9, 99);
        const prefix = V.choice('prefix', [undefined, '', 'p']);
        const shapes = [
            [{ a: i, b: 'x' }, [['a', i], ['b', 'x']]],
            [{ a: { b: i, c: { d: 'x' } } }, [['a.b', i], ['a.c.d', 'x']]],
            [{ a: {} }, []],
            [{}, []],
            [{ a: null, b: undefined, c: false }, [['a', null], ['b', undefined], ['c', false]]],
            [[i, { k: 'x' }], [['[0]', i], ['[1].k', 'x']]],
            [{ a: [i, 'x'] }, [['a[0]', i], ['a[1]', 'x']]],
            [{ a: [{ k: i }, [1]] }, [['a[0].k', i], ['a[1][0]', 1]]],
            [{ 'x y': { '': i } }, [['x y.', i]]]
        ];
        const k = V.choice('shape', shapes.map((_, j) => j));
        let [value, want] = shapes[k];
        if (prefix && k === 7) return;
        if (prefix && (k === 5 || k === 6)) want = want.map(([key, v]) => [key.replace(/^a?\[/, prefix + '['), v]);
        V.cover('nested');
        const list = [];
        const f = form(list);
        const r = objectToFormData(value, { formData: f, ...(prefix === undefined ? {} : { arrayKeyPrefix: prefix }) });
        V.check(r === f, 'the fields go to the given form');
        V.observe(list);
        V.check(list.length === want.length && V.truth(V.eq(list, want)), 'every leaf once, under its path');
        return;
    }
    // the whole way, with the real classes
    V.env.random = () => 0.5;
    const { request } = V.load('request');
    const kind = V.choice('kind', ['form', 'form+type', 'object', 'array']);
    const f = new FormData();
    f.append('a', 'x"y');
    const file = new File([], 'n.bin');
    file.arrayBuffer = async () => new Uint8Array([1, 255]).buffer; // without real reading
    f.append('f', file);
    const body = { form: f, 'form+type': f, object: { a: 'x"y', o: { b: 1 } }, array: { a: [1, 2] } }[kind];
    let done = null;
    request('http://a.com/', { method: 'POST', body, ...(kind === 'form' ? {} : { headers: { 'Content-Type': 'multipart/form-data' } }) }).catch(e => (done = e));
    await V.drain();
    V.check(sent.length === 1, 'the form is sent');
    V.cover('sent');
    const { config, body: b } = sent[0];
    const m = /^multipart\/form-data; boundary=([-\w]{1,70})$/.exec(config.headers['content-type']);
    V.check(m && config.headers['content-length'] === b.length, 'with its boundary and length');
    const parts = b.toString('latin1').split('--' + m[1]).slice(1, -1).map(p => p.replace(/^\r\n/, '').replace(/\r\n$/, ''));
    const want = {
        form: [['name="a"', 'x"y'], ['name="f"; filename="n.bin"\r\nContent-Type: application/octet-stream', '\u0001\u00ff']],
        object: [['name="a"', 'x"y'], ['name="o.b"', '1']],
        array: [['name="a[0]"', '1'], ['name="a[1]"', '2']]
    };
    want['form+type'] = want.form;
    V.check(JSON.stringify(parts) === JSON.stringify(want[kind].map(([h, v]) => `Content-Disposition: form-data; ${h}\r\n\r\n${v}`)), 'and every field once');
};
