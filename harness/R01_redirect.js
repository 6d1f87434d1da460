'use strict';
const FIRST = {
    url: ['http://a.com/p/q?z=1', {}],
    port: ['http://a.com:8080/p/', {}],
    secure: [undefined, { hostname: 'a.com', path: '/p/q' }],
    plain: [undefined, { hostname: 'a.com', path: '/p/q', https: false, port: 81 }]
};
const PLACES = ['/b?x=1', 'c', '?q=2', '//other.com/d', 'https://other.com:444/e?y=2', 'http://a.com/f', 'http://a.com:8080/f', 'https://A.com/g', 'https://a.com.evil.net/', 'http://[bad', 'http://x.a.com/h', 'http://u2:p2@a.com/i', 'http://u2:p2@other.com/i', '/b;x=%20y#top'];
exports.bounds = ['four first requests; every status 299..309 with fourteen places (relative, other scheme, port, host, sub-domain, user in the address, invalid); chains of up to 2 (thorough 3) redirects; up to 3 allowed ones; methods, bodies and headers in three spellings'];
exports.outside = ['the method after 303 for requests with a body', 'IPv6 hosts', 'the network'];
exports.stubs = ['http.request and https.request record what is sent and answer as the harness says'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (const first of Object.keys(FIRST)) {
        for (let i = 0; i < PLACES.length; i++) out.push({ name: `${first}-place${i}`, params: { first, steps: [PLACES[i]] } });
        out.push({ name: first + '-chain', params: { first, steps: ['*', '*'] } });
        if (!q) out.push({ name: first + '-long', params: { first, steps: ['*', '*', '*'] } });
    }
    return out;
};
exports.mustReach = () => ['followed', 'limit', 'stripped', 'kept', 'turned', 'invalid', 'no redirect'];
exports.run = async (V, { first, steps }) => {
    const sent = [];
    const answers = [];
    const make = https => (config, cb) => {
        const i = sent.length;
        sent.push({ https, config, headers: { ...config.headers }, body: undefined, destroyed: false });
        const req = {
            destroyed: false,
            on() { return req; },
            destroy() { req.destroyed = true; },
            end(body) {
                sent[i].body = body;
                V.env.setTimeout(() => {
                    const on = {};
                    const res = { statusCode: answers[i].status, headers: answers[i].place === undefined ? {} : { location: answers[i].place }, on(k, f) { on[k] = f; return res; } };
                    cb(res);
                    V.env.setTimeout(() => on.end && on.end(), 1);
                }, 1);
            }
        };
        return req;
    };
    V.stubs.http = { request: make(false) };
    V.stubs.https = { request: make(true) };
    const { request } = V.load('request');
    const one = steps.length === 1;
    const [url, o] = FIRST[first];
    const headers = V.choice('headers', one ? [undefined, { Cookie: 'c=1', AUTHORIZATION: 'Bearer t', 'X-Own': 'x' }, { cookie: 'c=1', Host: 'a.com', authorization: 't' }] : [{ Cookie: 'c=1', authorization: 't' }]);
    const method = V.choice('method', one ? [undefined, 'post', 'PUT'] : ['POST']);
    const options = { ...o };
    if (headers) options.headers = { ...headers };
    if (method) {
        options.method = method;
        options.body = 'a=b';
    }
    const auth = one ? V.choice('auth', [undefined, 'u:p']) : 'u:p';
    if (auth) options.auth = auth;
    const limit = V.choice('limit', [undefined, 0, 1, 2]);
    if (limit !== undefined) options.maxRedirects = limit;
    const before = JSON.stringify(options);
    for (let i = 0; i < steps.length; i++) answers.push({ status: one ? V.int('status', 299, 309) : V.choice('s' + i, [301, 307]), place: steps[i] === '*' ? V.choice('place' + i, PLACES.slice(0, 8).filter(p => one || p !== PLACES[2])) : steps[i] });
    answers.push({ status: 200 });
    if (one && method) V.assume(V.not(V.eq(answers[0].status, 303)));
    const seen = [];
    const handlers = { header(res) { seen.push(res.statusCode); } };
    const r = await V.settle(url ? request(url, options, handlers) : request(options, handlers));
    V.observe([r.status, sent.length]);
    V.check(JSON.stringify(options) === before, 'the given options stay as they are');
    // reference
    let at = new URL(url || `${o.https === false ? 'http' : 'https'}://${o.hostname}${o.port ? ':' + o.port : ''}${o.path}`);
    let verb = (method || 'GET').toUpperCase();
    let body = method ? 'a=b' : undefined;
    let secrets = true;
    let left = limit === undefined ? 21 : limit;
    let ownHost = headers && headers.Host;
    let invalid = false;
    let k = 0;
    for (; ; k++) {
        const s = sent[k];
        V.check(s !== undefined, 'the request is sent');
        V.check(s.https === (at.protocol === 'https:'), 'with the right protocol');
        V.check(s.config.hostname === at.hostname && (s.config.port ? +s.config.port : undefined) === (at.port ? +at.port : undefined) && s.config.path === at.pathname + at.search, 'to the right place');
        V.check(s.config.method === verb, 'with the right method');
        V.check(body === undefined ? s.body === undefined && !('content-length' in s.headers) : String(s.body) === body && s.headers['content-length'] === body.length, 'with the right body');
        V.check(s.headers.host === (ownHost || at.host), 'naming the right host');
        if (headers) {
            V.check(s.headers.cookie === (secrets ? 'c=1' : undefined) && ('authorization' in s.headers) === secrets, 'secrets go to their own host and to no other');
            V.check(s.headers['x-own'] === headers['X-Own'], 'other headers are kept');
        }
        V.check(s.config.auth === ((secrets && auth) || (at.username ? at.username + ':' + at.password : undefined)), 'secrets go to their own host and to no other');
        const a = answers[k];
        if (a.place === undefined || !V.truth(V.and(a.status >= 300, a.status <= 399))) {
            if (a.place !== undefined) V.cover('no redirect');
            break;
        }
        if (left === 0) {
            V.cover('limit');
            break;
        }
        left--;
        V.cover('followed');
        let next;
        try {
            next = new URL(a.place, at);
        } catch {
            invalid = true;
            break;
        }
        if (next.hostname !== at.hostname) {
            secrets = false;
            ownHost = undefined;
            V.cover('stripped');
        } else V.cover('kept');
        if (verb === 'POST' && V.truth(V.or(V.eq(a.status, 301), V.eq(a.status, 302)))) {
            verb = 'GET';
            body = undefined;
            V.cover('turned');
        }
        at = next;
    }
    V.check(sent.length === k + 1, 'no further request is sent');
    if (invalid) {
        V.cover('invalid');
        V.check(r.status === 'rejected' && r.reason instanceof Error && seen.length === 0, 'an invalid place is a failure');
        return;
    }
    V.check(r.status === 'fulfilled' && V.truth(V.eq(r.value.status, answers[k].status)), 'the last answer is the result');
    V.check(seen.length === 1 && V.truth(V.eq(seen[0], answers[k].status)), 'the handlers see the last answer');
};
