'use strict';
exports.bounds = ['lists of 0..3 hosts, as a list or one alone', 'answers of up to 3 addresses of 1..2 units, with and without an end, and none', 'every status from 100 to 599', 'failures of any one request', 'eleven forms of the script with the own address, eight of them broken or hostile'];
exports.outside = ['the encoding of the script'];
exports.stubs = ['http.request and https.request answer as told', 'Buffer.concat and TextDecoder give the text of the answer', 'Function records'];
exports.cases = tier => [
    ...[0, 1, 2, 3].map(k => ({ name: 'hosts' + k, params: { what: 'dns', k } })),
    { name: 'one', params: { what: 'dns', k: 1, alone: true } },
    { name: 'own', params: { what: 'own' } }
];
exports.mustReach = () => ['found', 'not found', 'status', 'failed', 'own', 'hostile', 'nothing'];
exports.run = async (V, { what, k, alone }) => {
    const sent = [];
    let answers = [];
    const emitter = () => {
        const on = {};
        const me = {
            on(n, f) {
                (on[n] = on[n] || []).push(f);
                return me;
            },
            once: (n, f) => me.on(n, f),
            removeListener: () => me,
            off: () => me,
            fire: (n, ...a) => (on[n] || []).slice().forEach(f => f(...a))
        };
        return me;
    };
    const server = secure => ({
        request(o, cb) {
            const { status, body, fails } = answers[sent.length] || {};
            sent.push({ secure, o });
            const req = emitter();
            req.destroy = () => (req.destroyed = true);
            req.write = () => {};
            req.end = () =>
                Promise.resolve().then(() => {
                    if (fails) return req.fire('error', new Error('ECONNRESET'));
                    const res = Object.assign(emitter(), { statusCode: status, statusMessage: 'M', headers: {} });
                    cb(res);
                    res.fire('data', { text: body });
                    res.fire('end');
                });
            return req;
        }
    });
    V.stubs.http = server(false);
    V.stubs.https = server(true);
    const text = l => {
        const all = l.map(x => x.text).join('');
        return { text: all, length: all.length, toString: () => all };
    };
    const OwnBuffer = { concat: l => text(l), isBuffer: x => false, from: x => ({ text: String(x), length: String(x).length }), byteLength: x => x.length };
    V.env.Buffer = OwnBuffer;
    V.stubs.buffer = { Buffer: OwnBuffer };
    const ran = [];
    V.env.Function = new Proxy(V.env.Function || Function, {
        construct(t, a) {
            ran.push(a);
            return () => ({ cip: '6.6.6.6' });
        }
    });
    V.stubs.util = { ...require('util'), TextDecoder: class { decode(b) { return b.text; } } };
    const pkg = V.load('request');
    if (what === 'dns') {
        const NAMES = ['A.com', 'b.org', 'c&D=.Net'];
        const hosts = NAMES.slice(0, k);
        const want = [];
        let failAt = -1;
        answers = hosts.map((h, i) => {
            const fails = V.truth(V.bool('fails' + i));
            if (fails && failAt < 0) failAt = i;
            const m = V.size('count' + i, 0, k > 2 ? 1 : 3);
            const l = [];
            for (let j = 0; j < m; j++) l.push(V.strUpTo(`a${i}_${j}`, 1, k > 1 ? 1 : 2, [[0x2c, 0x2c], [0x2e, 0x2e], [0x30, 0x3a], [0x61, 0x66]]));
            const status = V.int('status' + i, 100, 599);
            V.assume(V.not(V.or(V.eq(status, 301), V.eq(status, 302), V.eq(status, 303), V.eq(status, 307), V.eq(status, 308))));
            want.push({ l, status });
            return { fails, status, body: l.join(';') + (m && V.truth(V.bool('end' + i)) ? ';' : '') };
        });
        const p = await V.settle(pkg.queryDNS(alone ? hosts[0] : hosts));
        if (failAt >= 0) {
            V.cover('failed');
            V.check(p.status === 'rejected', 'a failure is told');
            V.check(sent.length === failAt + 1, 'and nothing else is asked');
            return;
        }
        V.check(p.status === 'fulfilled', 'an answer');
        const keys = Object.keys(p.value);
        V.check(keys.length === k && hosts.every((h, i) => keys[i] === h), 'every host once');
        if (k === 0) V.cover('nothing');
        hosts.forEach((h, i) => {
            const ok = V.truth(V.eq(want[i].status, 200));
            const l = ok ? want[i].l : [];
            V.cover(!ok ? 'status' : l.length ? 'found' : 'not found');
            const r = p.value[h];
            V.check(r.length === l.length && l.every((x, j) => V.truth(V.eq(r[j], x))), 'its addresses');
        });
        V.check(sent.length === k && sent.every((s, i) => !s.secure && s.o.hostname === '119.29.29.29' && s.o.path === '/d?dn=' + encodeURIComponent(hosts[i])), 'every host is asked about');
        return;
    }
    const good = '{"cip": "1.2.3.4", "cid": "110000", "cname": "X"}';
    const [body, fine, city = 'X'] = V.choice('body', [
        ['var returnCitySN = ' + good + ';', true],
        ['var returnCitySN = ' + good, true],
        ['var returnCitySN = ' + good.replace('"X"', '"a}; {b"') + ';\r\n', true, 'a}; {b'],
        ['var returnCitySN = ' + good + '; steal();', false],
        ['var returnCitySN = {"cip": steal()};', false],
        ['var returnCitySN = {}; steal(); ({});', false],
        ['steal(); var returnCitySN = ' + good + ';', false],
        ['var returnCitySN = {"cip": "1.2.3.4"', false],
        ['', false],
        ['<html>', false],
        ['var returnCitySN = {cip: (() => steal())()};', false]
    ]);
    const status = V.int('status', 100, 599);
    V.assume(V.not(V.or(V.eq(status, 301), V.eq(status, 302), V.eq(status, 303), V.eq(status, 307), V.eq(status, 308))));
    answers = [{ status, body, fails: V.truth(V.bool('fails')) }];
    const p = await V.settle(pkg.publicIP());
    V.check(ran.length === 0, 'no code of others is run');
    const ok = !answers[0].fails && fine && V.truth(V.eq(status, 200));
    V.check((p.status === 'fulfilled') === ok, 'an answer exactly when there is one');
    if (ok) V.check(p.value.ip === '1.2.3.4' && p.value.city.id === '110000' && p.value.city.name === city, 'the address');
    V.cover(ok ? 'own' : 'hostile');
    V.check(sent.length === 1 && sent[0].o.hostname === 'pv.sohu.com' && sent[0].secure, 'one request');
};
