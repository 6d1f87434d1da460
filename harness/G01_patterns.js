'use strict';
exports.bounds = ['every text of 0..3 (thorough 4) units', 'patterns without and with flags g, y, i, m, u and all pairs of them, with groups, empty matches, look-ahead, anchors and alternatives', 'any last index up to the length of the text and one beyond'];
exports.outside = ['flags d, s and v together with others', 'callbacks that change the pattern'];
exports.stubs = [];
const SOURCES = ['a', 'a*', '', '(a)|b', '(?:)|a', 'a(?=b)', '^', '$', '\\b', '(?<x>[ab])', '[^a]', 'a|', '(a)(b)?', '.', '\\uD83D'];
const FLAGS = ['', 'g', 'y', 'gy', 'gi', 'gm', 'gu', 'gyu', 'u', 'gs'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    SOURCES.forEach((s, i) => {
        for (const f of FLAGS) if (!q || i % 5 === FLAGS.indexOf(f) % 5 || ['', 'g', 'gu'].includes(f)) out.push({ name: `all /${s}/${f}`, params: { what: 'execAll', s, f, n: q ? 2 : 3 } });
    });
    for (const s of ['a*', 'a', '.', '(a)(b)?']) for (const f of ['g', 'gu']) out.push({ name: `long /${s}/${f}`, params: { what: 'execAll', s, f, n: q ? 3 : 4 } });
    for (const what of ['test', 'map', 'keys', 'next']) out.push({ name: what, params: { what, n: q ? 2 : 3 } });
    return out;
};
exports.mustReach = () => ['found', 'empty', 'none', 'tested', 'replaced', 'refused'];
exports.run = (V, { what, s, f, n }) => {
    const pkg = V.load('regexp');
    const alphabet = [[0x0a, 0x0a], [0x41, 0x42], [0x61, 0x62], [0xd83d, 0xd83d], [0xde00, 0xde00]];
    const same = (a, b) => (a === undefined || b === undefined ? a === b : V.truth(V.eq(a, b)));
    if (what === 'execAll') {
        const len = V.size('len', 0, n);
        const t = V.str('t' + len, len, f.includes('u') || s === '.' || s === '\\uD83D' ? alphabet : [[0, 0xffff]]);
        const re = new RegExp(s, f);
        const other = new RegExp(s, f);
        const last = V.size('last' + len, 0, len + 1);
        if (f.includes('g') || f.includes('y')) {
            re.lastIndex = last;
            other.lastIndex = last;
        }
        // every match as the standard finds them one after another
        const want = [];
        let guard = 0;
        for (;;) {
            const m = other.exec(t);
            if (!m) break;
            want.push(m);
            if (!f.includes('g')) break;
            if (m[0].length === 0) {
                V.cover('empty');
                const c = f.includes('u') && other.lastIndex + 1 < t.length ? V.and(t.charCodeAt(other.lastIndex) >= 0xd800, t.charCodeAt(other.lastIndex) < 0xdc00, t.charCodeAt(other.lastIndex + 1) >= 0xdc00, t.charCodeAt(other.lastIndex + 1) < 0xe000) : false;
                other.lastIndex += V.truth(c) ? 2 : 1;
            }
            if (guard++ > 2 * n + 4) throw new Error('oracle does not end');
        }
        const seen = [];
        const boxes = pkg.execAll(re, t, m => {
            seen.push(m);
            return { m };
        });
        V.check(Array.isArray(boxes) && boxes.length === seen.length && boxes.every((b, i) => b && b.m === seen[i]), 'what the callback makes of every match');
        const r = seen;
        V.cover(want.length ? 'found' : 'none');
        V.check(Array.isArray(r) && r.length === want.length, 'every match once');
        r.forEach((m, i) => {
            V.check(m.index === want[i].index && m.length === want[i].length, 'at the same place');
            for (let k = 0; k < m.length; k++) V.check(same(m[k], want[i][k]), 'the same groups');
            V.check(pkg.matchNextIndex(m) === want[i].index + want[i][0].length, 'the next place is behind the match');
        });
        if (f.includes('g')) V.check(re.lastIndex === 0, 'ready to be used again');
        return;
    }
    const len = V.size('len', 0, n);
    const t = V.str('t' + len, len);
    if (what === 'keys') {
        const re = () => /(?<x>a)|b/g;
        const all = [];
        for (let i = 0; i < len; i++) {
            if (V.truth(V.eq(t[i], 'a'))) all.push([i, 'a', 'a']);
            else if (V.truth(V.eq(t[i], 'b'))) all.push([i, 'b', undefined]);
        }
        const get = k => pkg.execAll(re(), t, k);
        const check = (k, f) => {
            const r = get(k);
            V.check(r.length === all.length && r.every((x, i) => same(x, f(all[i]))), 'one property of every match: ' + k);
        };
        check(0, m => m[1]);
        check('0', m => m[1]);
        check(1, m => m[2]);
        check('index', m => m[0]);
        check('input', () => t);
        check('length', () => 2);
        check(2, () => undefined);
        check(99, () => undefined);
        V.check(get('groups').every((g, i) => same(g.x, all[i][2])), 'groups');
        for (const k of [100, -1, 1.5, 'xxx', 'lastIndex', '']) {
            const r = V.attempt(() => get(k));
            V.check(!r.ok && r.error instanceof TypeError, 'no other properties');
            V.cover('refused');
        }
        const all2 = pkg.execAll(re(), t);
        V.check(all2.length === all.length && all2.every((m, i) => m.index === all[i][0]), 'all properties by default');
        return;
    }
    if (what === 'test') {
        const kinds = [[/a/, c => V.eq(c, 'a')], [/b/g, c => V.eq(c, 'b')], [/^(?:a|c)/y, c => V.or(V.eq(c, 'a'), V.eq(c, 'c')), true], [/(?:)/g, null], [/[^a]/gm, c => V.not(V.eq(c, 'a'))]];
        const pick = V.choice('pick', [[], [0], [1], [2], [3], [4], [0, 1], [1, 4], [3, 2], [0, 1, 4]]);
        const list = pick.map(i => new RegExp(kinds[i][0].source, kinds[i][0].flags));
        const hit = pick.map(i => {
            const [, is, start] = kinds[i];
            if (!is) return true;
            let any = false;
            for (let k = 0; k < (start ? Math.min(len, 1) : len); k++) any = V.or(any, is(t[k]));
            return any;
        });
        V.cover('tested');
        for (let round = 0; round < 3; round++) {
            const every = V.attempt(() => pkg.testEvery(list, t));
            const some = V.attempt(() => pkg.testSome(list, t));
            if (len === 0 && !pick.length) {
                V.check(!every.ok && !some.ok && every.error instanceof TypeError && some.error instanceof TypeError, 'something to test');
                continue;
            }
            V.check(every.ok && some.ok, 'an answer');
            V.check(V.iff(every.value, V.and(len > 0, ...hit)), 'every pattern, again ' + round);
            V.check(V.iff(some.value, V.and(len > 0, V.or(false, ...hit))), 'some pattern, again ' + round);
        }
        return;
    }
    if (what === 'map') {
        // one after another, each on what the ones before left
        const w = V.choice('with', ['x', '', 'b', '[$&]', '$$', 'ab']);
        const list = [/a/g, /b/];
        const r = pkg.mapReplace(list, t, w);
        const put = (s, c, all) => {
            let out = '';
            let done = false;
            for (let i = 0; i < s.length; i++) {
                if (V.truth(V.eq(s[i], c)) && (all || !done)) {
                    done = true;
                    out += { 'x': 'x', '': '', b: 'b', '[$&]': '[' + c + ']', '$$': '$', ab: 'ab' }[w];
                } else out += s[i];
            }
            return out;
        };
        V.check(V.eq(r, put(put(t, 'a', true), 'b', false)), 'each pattern in order');
        V.check(V.eq(pkg.mapReplace([], t, w), t), 'no pattern, no change');
        const seen = [];
        const r2 = pkg.mapReplace([/a/g], t, (m, i, whole) => {
            seen.push(i);
            V.check(V.eq(m, 'a'), 'the match');
            V.check(V.eq(whole, t), 'the text');
            return 'y';
        });
        let want = '';
        const at = [];
        for (let i = 0; i < len; i++) {
            const is = V.truth(V.eq(t[i], 'a'));
            if (is) at.push(i);
            want += is ? 'y' : t[i];
        }
        V.check(V.eq(r2, want) && seen.join() === at.join(), 'a function is asked for every match');
        V.cover('replaced');
        return;
    }
    const m = Object.assign([t], { index: V.int('i', 0, 2 ** 30) });
    V.check(pkg.matchNextIndex(m) === m.index + len, 'behind the match');
};
