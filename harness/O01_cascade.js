'use strict';
// characters of property names; quotes, "]" and line breaks excluded
const NAME = [[36, 36], [45, 46], [48, 49], [63, 63], [91, 91], [95, 95], [97, 98], [0xe9, 0xe9], [0x4e00, 0x4e01], [0x3002, 0x3002], [0xd83d, 0xd83d], [0xde00, 0xde00]];
const TEXT = [[97, 98], [46, 46], [91, 91], [93, 93], [48, 48], [39, 39], [32, 32]];
exports.bounds = [
    'round trip: 1..3 keys, each any array index up to 4294967294 or any name of 1..2 characters (thorough 3) over letters, digits, $, _, -, ?, ., [, non-ASCII letters and punctuation, surrogates',
    'reading: every text of 0..4 characters (thorough 6) over letters, digit, point, brackets, quote and blank; paths of 1..3 segments in every documented notation with blanks and dependencies, 0 included',
    'access: every path of 1..3 keys from 12 sample keys over objects whose leaf is any integer, present or missing at any depth'
];
exports.outside = ['names with quotes, "]", backslashes, line breaks or surrounding blanks in the round trip', 'inherited names as dependencies'];
exports.cases = tier => {
    const out = [];
    const q = tier === 'quick';
    for (const shape of ['n', 'i', 'nn', 'ni', 'in', 'ii', 'nin', 'nnn', 'iin']) for (const dot of [false, true]) {
        const w = shape.length === 1 ? (q ? 2 : 3) : shape.length === 2 && !q ? 2 : 1;
        if (shape.length < 3 || !dot) out.push({ name: `trip-${shape}${dot ? '-dot' : ''}`, params: { what: 'trip', shape, dot, w } });
    }
    for (let n = 0; n <= (q ? 4 : 6); n++) out.push({ name: 'text' + n, params: { what: 'text', n } });
    for (let n = 1; n <= (q ? 2 : 3); n++) out.push({ name: 'notation' + n, params: { what: 'notation', n } });
    for (const k of ['empty', 'fail', 'dep', 'code']) out.push({ name: k, params: { what: k } });
    for (let n = 1; n <= (q ? 2 : 3); n++) out.push({ name: 'access' + n, params: { what: 'access', n } });
    return out;
};
const KEYS = ['a', '$b', 'c-d', "it's", 'x.y', '名', '名字', 0, 7, 'a b', '-', '1a'];
exports.run = (V, { what, shape, dot, w, n }) => {
    const from = V.load('object/src/cascade/fromCascadeKeys');
    const to = V.load('object/src/cascade/toCascadeKeys');
    if (what === 'trip') {
        const keys = [...shape].map((c, i) => {
            if (c === 'i') return V.int('i' + i, 0, 4294967294);
            const s = V.strUpTo('n' + i, 1, w, NAME);
            return s;
        });
        const given = keys.slice();
        const s = dot ? from(given, { startDot: true }) : from(given);
        V.observe(s);
        V.check(given.length === keys.length && V.eq(given, keys), 'the list of keys is left alone');
        const back = to(s);
        V.observe(back);
        V.check(back.length === keys.length, 'every key is written');
        V.check(V.eq(back, keys), 'a written path reads back as the same keys');
        return;
    }
    if (what === 'text') {
        const s = V.str('s', n, TEXT);
        const dep = { a: 5, b: 'x' };
        const r = V.attempt(() => to(s, dep));
        V.observe(r.ok ? r.value : 'refused');
        // reference
        const want = [];
        let bad = false;
        let cur = '';
        const is = (c, x) => V.truth(c === x);
        const trimEnd = t => {
            while (t.length && is(t.charAt(t.length - 1), ' ')) t = t.slice(0, -1);
            return t;
        };
        const trim = t => {
            while (t.length && is(t.charAt(0), ' ')) t = t.slice(1);
            return trimEnd(t);
        };
        const flush = () => {
            cur = trimEnd(cur);
            if (cur) want.push(cur);
            cur = '';
        };
        for (let i = 0; i < n && !bad; i++) {
            const c = s.charAt(i);
            if (is(c, '.')) flush();
            else if (is(c, ']')) bad = true;
            else if (is(c, '[')) {
                let j = i + 1;
                while (j < n && !is(s.charAt(j), ']')) j++;
                if (j === n) bad = true;
                else {
                    flush();
                    let k = trim(s.slice(i + 1, j));
                    i = j;
                    if (!k) bad = true;
                    else if (k.length > 2 && is(k.charAt(0), "'") && is(k.charAt(k.length - 1), "'") && ![...k.slice(1, -1)].some(x => is(x, "'"))) {
                        k = trim(k.slice(1, -1));
                        if (k) want.push(k);
                        else bad = true;
                    } else if ([...k].every(x => is(x, '0'))) want.push(0);
                    else if (is(k, 'a')) want.push(5);
                    else if (is(k, 'b')) want.push('x');
                    else if (!([...k].every(x => V.truth(V.or(x === '0', x === '.'))) && is(Number(k), 0))) bad = true;
                    else want.push(0);
                }
            } else cur += c;
        }
        if (!bad) flush();
        V.check(r.ok === !bad, 'refused exactly for unpaired brackets, empty names and unknown dependencies');
        if (r.ok) V.check(V.eq(r.value, want), 'the keys in order');
        return;
    }
    if (what === 'notation') {
        const dep = { d: V.int('dep', 0, 9), e: V.str('dept', 1, [[97, 98]]) };
        let s = '';
        const want = [];
        for (let i = 0; i < n; i++) {
            const kind = V.choice('kind' + i, ['name', 'index', 'single', 'double', 'dep', 'dept']);
            const d = kind === 'name' ? (i ? '.' : V.choice('lead', ['', '.'])) : V.choice('dot' + i, ['', '.']);
            const pad = kind === 'name' ? '' : V.choice('pad' + i, ['', ' ']);
            let inner;
            if (kind === 'name' || kind === 'single' || kind === 'double') {
                const t = V.str('t' + kind + i, kind === 'name' ? 2 : 1, kind === 'name' ? [[36, 36], [48, 48], [65, 66], [95, 95], [97, 98], [0x4e00, 0x4e01]] : [[36, 36], [46, 46], [48, 49], [91, 91], [97, 98]]);
                const q = kind === 'single' ? "'" : kind === 'double' ? '"' : '';
                inner = q + t + q;
                want.push(t);
            } else if (kind === 'index') {
                const x = V.int('x' + i, 0, 4294967294);
                inner = `${x}`;
                want.push(x);
            } else {
                inner = kind === 'dep' ? 'd' : 'e';
                want.push(kind === 'dep' ? dep.d : dep.e);
            }
            s += d + (kind === 'name' ? inner : '[' + pad + inner + pad + ']');
        }
        const r = to(s, dep);
        V.observe(r);
        V.check(V.eq(r, want), 'every notation yields its key');
        return;
    }
    if (what === 'empty') {
        // what is left of a quoted name without its quotes and blanks
        const q = V.choice('q', ['"', "'"]);
        const t = V.strUpTo('t', 1, 2, [[32, 32], [97, 97]]);
        const blank = V.truth(V.or(V.eq(t, ' '), V.eq(t, '  ')));
        const r = V.attempt(() => to(`b[${q}${t}${q}]`));
        V.observe(r.ok ? r.value : 'refused');
        V.check(r.ok === !blank, 'blank names are refused');
        if (r.ok) V.check(V.eq(r.value, ['b', t.trim()]), 'blanks around a name do not count');
        for (const bad of ['', null, undefined, 1, {}]) {
            V.check(!V.attempt(() => V.load('object').cascade({ a: 1 }, bad)).ok, 'there is nothing to follow without a path');
        }
        V.check(from([]) === '' && from([], { startDot: true }) === '', 'no keys, no path');
        const opt = from(['a', 'b', 0], { optional: true });
        V.check(opt === 'a?.b?.[0]' || opt === 'a?.b[0]', 'optional access is written on request');
        return;
    }
    const cascade = V.load('object/src/cascade/cascade');
    if (what === 'fail') {
        const err = new Error('getter');
        const o = { a: { get b() { throw err; }, c: V.int('c', 0, 9) } };
        const k = V.choice('k', ['b', 'c']);
        const r = V.attempt(() => cascade(o, 'a.' + k));
        const asked = V.attempt(() => cascade(o, 'a.' + k, undefined, true));
        const quiet = V.attempt(() => cascade(o, 'a.' + k, undefined, false));
        V.observe(r.ok);
        if (k === 'c') V.check(r.ok && V.is(r.value, o.a.c) && V.is(quiet.value, o.a.c), 'the value at the path');
        else {
            V.check(!r.ok && r.error === err && !asked.ok && asked.error === err, 'failures are passed on');
            V.check(quiet.ok && quiet.value === undefined, 'failures are answered with undefined when asked for');
        }
        return;
    }
    if (what === 'code') {
        // names that could end the text they are written into
        const k = V.concrete(V.strUpTo('k', 1, 4, [[10, 10], [34, 34], [39, 39], [92, 92], [97, 97]]));
        const leaf = V.int('leaf', 0, 9);
        const bare = /^'[^']+'$|^"[^"]+"$/.test(k) ? k.slice(1, -1) : k;
        const s = from([k, 'z'], { startDot: true });
        V.observe(s);
        const r = V.attempt(() => new Function('o', 'return o' + s)({ [k]: { z: leaf }, [bare]: { z: leaf } }));
        V.check(r.ok && V.is(r.value, leaf), 'the written path reads the value of the key');
        return;
    }
    if (what === 'dep') {
        const i = V.size('i', 0, 2);
        const l = V.array(3, j => V.int('l' + j, 0, 9));
        const r = cascade({ a: l, b: { x1: l } }, V.choice('p', ['a[i]', 'b[k][i]', '["a"][ i ]']), { i, k: 'x1' });
        V.observe(r);
        V.check(V.is(r, l[i]), 'names in brackets stand for the given values');
        return;
    }
    const keys = V.array(n, i => V.choice('k' + i, KEYS));
    const depth = V.size('depth', 1, n); // keys that exist
    const leaf = V.int('leaf', 0, 9);
    let o = leaf;
    for (let i = depth - 1; i >= 0; i--) o = i === depth - 1 && depth < n ? {} : { [keys[i]]: o };
    const path = from(keys);
    const r = V.attempt(() => cascade(o, path));
    const quiet = V.attempt(() => cascade(o, path, undefined, false));
    V.observe(r.ok ? r.value : 'refused');
    V.check(quiet.ok, 'failures are answered with undefined when asked for');
    if (depth === n) {
        V.check(r.ok && V.is(r.value, leaf), 'the value at the path');
        V.check(V.is(quiet.value, leaf), 'the value at the path, quietly');
    } else {
        V.check(!r.ok || r.value === undefined, 'a missing path has no value');
        V.check(quiet.value === undefined, 'a missing path has no value, quietly');
    }
};
