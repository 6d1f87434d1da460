'use strict';
exports.bounds = ['schedules of up to 4 (thorough 5) events out of: response, chunk, end, response error, request error, timeout; any first byte of a deflated body, status codes 100..599'];
exports.outside = ['the decompression itself (zlib)', 'events in between the microtasks of one event', 'several encodings at once', 'handlers that throw'];
exports.stubs = ['http.request hands the scheduled events to the listeners, nothing after the request was destroyed by its owner except errors', 'zlib and stream record which decoder the response goes through'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 4 : 5); n++) out.push({ name: 'events' + n, params: { what: 'events', n } });
    out.push({ name: 'coding', params: { what: 'coding' } }, { name: 'deflate', params: { what: 'deflate' } }, { name: 'delay', params: { what: 'delay' } });
    return out;
};
exports.mustReach = () => ['result', 'stopped', 'timeout', 'failed', 'broken', 'open', 'late', 'decoded', 'plain', 'header', 'delayed'];
const emitter = () => {
    const on = {};
    return {
        on(k, f) {
            (on[k] = on[k] || []).push(f);
            return this;
        },
        once(k, f) {
            return this.on(k, f);
        },
        removeListener() {},
        fire(k, ...a) {
            for (const f of on[k] || []) f(...a);
            return !!on[k];
        }
    };
};
exports.run = async (V, { what, n }) => {
    let req = null;
    let respond;
    let created = 0;
    let destroyed = 0;
    V.stubs.http = {
        request: (config, cb) => {
            created++;
            req = emitter();
            req.destroyed = false;
            req.destroy = () => {
                destroyed++;
                req.destroyed = true;
            };
            req.end = () => {};
            respond = cb;
            return req;
        }
    };
    V.stubs.https = { request: () => { throw new Error('https'); } };
    let piped = null;
    const constants = require('zlib').constants;
    V.stubs.zlib = { constants, createUnzip: o => Object.assign(emitter(), { kind: 'unzip', o }), createBrotliDecompress: o => Object.assign(emitter(), { kind: 'brotli', o }) };
    class Transform {
        constructor() {
            this.kind = 'transform';
            this.out = [];
        }
        push(x) {
            this.out.push(x);
        }
    }
    V.stubs.stream = {
        Transform,
        finished: () => () => {},
        pipeline: streams => {
            piped = streams;
            return streams[streams.length - 1];
        }
    };
    const { request } = V.load('request');
    const status = V.int('status', 100, 599);
    const response = headers => Object.assign(emitter(), { headers, statusCode: status, statusMessage: 'M' });
    const until = async p => {
        // 'waiting' as long as nothing is decided
        let r = { status: 'pending' };
        p.then(value => (r = { status: 'ok', value }), reason => (r = { status: 'no', reason }));
        await V.drain();
        return () => r;
    };

    if (what === 'events') {
        const stopHeader = V.choice('stopHeader', [false, true]);
        const stopData = V.choice('stopData', [0, 1, 2]);
        const seen = [];
        const config = { hostname: 'a.com', path: '/', https: false, maxRedirects: V.choice('redirects', [0, 3]) };
        const res = response({});
        const state = await until(
            request(config, {
                header: (r, c) => {
                    V.check(r === res && c.hostname === 'a.com', 'the header handler gets response and options');
                    seen.push('header');
                    return stopHeader ? true : undefined;
                },
                data: (chunk, r) => {
                    V.check(r === res, 'the data handler gets the response');
                    seen.push(chunk);
                    return stopData && seen.filter(x => x !== 'header').length === stopData ? true : undefined;
                }
            })
        );
        V.check(created === 1 && state().status === 'pending', 'one request is sent');
        let want = null;
        const wantSeen = [];
        let got = false;
        const chunks = [];
        const fault = new Error('fault');
        for (let i = 0; i < n; i++) {
            const e = V.choice('e' + i, ['response', 'chunk', 'end', 'resError', 'reqError', 'timeout']);
            const over = want !== null;
            if (over) V.cover('late');
            if (e === 'response') {
                if (got) return;
                got = true;
                respond(res);
                if (!over) {
                    wantSeen.push('header');
                    if (stopHeader) {
                        want = 'stop';
                        V.cover('header');
                    }
                }
            } else if (e === 'chunk' || e === 'end') {
                if (!got || over) return; // nothing is read from a destroyed request
                const b = Buffer.from([i, 7]);
                if (e === 'chunk') {
                    res.fire('data', b);
                    wantSeen.push(b);
                    if (stopData && wantSeen.length - 1 === stopData) {
                        want = 'stop';
                        V.cover('stopped');
                    } else chunks.push(b);
                } else {
                    res.fire('end');
                    want = 'end';
                }
            } else if (e === 'resError') {
                if (!got || !res.fire('error', fault)) return;
                if (!over) want = 'broken';
            } else if (e === 'reqError') {
                req.destroyed = true; // as Node does
                req.fire('error', fault);
                if (!over) want = 'failed';
            } else {
                req.fire('timeout');
                if (!over) want = 'timeout';
            }
            await V.drain();
            if (want) V.check(state().status === (want === 'end' || want === 'stop' ? 'ok' : 'no'), 'the first decisive event settles the request');
        }
        const s = state();
        V.check(seen.length === wantSeen.length && seen.every((x, i) => x === wantSeen[i]), 'the handlers see the response and every chunk in order, until the end');
        if (!want) {
            V.cover('open');
            V.check(s.status === 'pending' && destroyed === 0, 'undecided as long as nothing decisive happens');
            return;
        }
        V.observe(want);
        if (want === 'failed' || want === 'timeout') {
            V.cover(want);
            V.check(s.status === 'no' && s.reason instanceof Error && s.reason.cause.request === req && (want === 'timeout' ? destroyed > 0 : s.reason.cause.error === fault), 'a failed request rejects with the reason, a late one is destroyed');
            return;
        }
        V.cover(want === 'broken' ? 'broken' : 'result');
        const r = want === 'broken' ? s.reason : s.value;
        V.check(destroyed > 0, 'the request is destroyed');
        V.check(r !== null && typeof r === 'object' && typeof r.then !== 'function' && Buffer.isBuffer(r.data) && r.data.equals(Buffer.concat(chunks)), 'the data are the chunks read until then');
        V.check(V.and(V.is(r.status, status), r.statusText === 'M', r.request === req, r.response === res, r.config.hostname === 'a.com', r.error === (want === 'broken' ? fault : null)), 'status, response, options and error');
        return;
    }
    if (what === 'delay') {
        const d = V.int('delay', 0, 5000);
        const t0 = V.env.clock.now;
        const state = await until(request({ hostname: 'a.com', path: '/', https: false, delay: d }));
        if (V.truth(d > 0)) {
            V.cover('delayed');
            V.check(created === 0, 'nothing is sent before the delay is over');
        }
        while (!created && V.fireNext()) await V.drain();
        V.check(V.and(created === 1, V.env.clock.now - t0 >= d), 'sent after the delay');
        V.check(state().status === 'pending', 'waiting for the answer');
        return;
    }
    const state = await until(request({ hostname: 'a.com', path: '/', https: false }));
    if (what === 'coding') {
        const enc = V.choice('enc', [undefined, '', 'identity', 'gzip', 'GZip', 'x-gzip', 'compress', 'x-compress', 'deflate', 'Deflate', 'br', 'BR', 'unknown']);
        const res = response(enc === undefined ? {} : { 'content-encoding': enc, x: '1' });
        V.assume(V.or(status < 300, status >= 400));
        respond(res);
        const way = { gzip: ['unzip'], 'x-gzip': ['unzip'], compress: ['unzip'], 'x-compress': ['unzip'], deflate: ['transform', 'unzip'], br: ['brotli'] }[String(enc).toLowerCase()];
        V.observe(piped && piped.map(x => x.kind));
        if (!way) {
            V.cover('plain');
            V.check(piped === null, 'read as it comes');
            res.fire('data', Buffer.from('p'));
            res.fire('end');
            await V.drain();
            V.check(state().status === 'ok' && state().value.data.toString() === 'p', 'the body as it comes');
            return;
        }
        V.cover('decoded');
        V.check(piped && piped[0] === res && piped.slice(1).map(x => x.kind).join() === way.join(), 'through the decoder of the encoding');
        const last = piped[piped.length - 1];
        res.fire('data', Buffer.from('coded'));
        last.fire('data', Buffer.from('pl'));
        last.fire('data', Buffer.from('ain'));
        V.check(!('content-encoding' in res.headers), 'the header of the encoding is removed');
        last.fire('end');
        await V.drain();
        V.check(state().status === 'ok' && state().value.data.toString() === 'plain', 'the decoded body');
        return;
    }
    // a deflated body without the zlib header gets one in front of its first byte
    respond(response({ 'content-encoding': 'deflate' }));
    const t = piped[1];
    const sizes = V.choice('sizes', [[1], [0, 2], [2, 1], [0, 0, 1, 1]]);
    const first = V.int('first', 0, 255);
    let k = 0;
    let calls = 0;
    const all = [];
    for (const size of sizes) {
        const chunk = [];
        for (let i = 0; i < size; i++) chunk.push(k++ === 0 ? first : 0x10 + k);
        all.push(...chunk);
        t._transform(chunk, 'buffer', () => calls++);
    }
    V.check(calls === sizes.length, 'every chunk is taken once');
    const out = t.out.reduce((a, c) => a.concat(Array.from(c)), []);
    const want = (V.truth(V.eq(first, 0x78)) ? [] : [0x78, 0x9c]).concat(all);
    V.check(out.length === want.length && V.truth(V.eq(out, want)), 'the header is added exactly when it is missing');
};
