'use strict';
// predicates about texts that name variables, lists in disguise, descriptors and prototypes
const RESERVED = 'break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with'.split(' ');
const ranges = re => {
    const out = [];
    for (let c = 0; c < 0x10000; c++) {
        if ((c >= 0xd800 && c < 0xe000) || !re.test(String.fromCharCode(c))) continue;
        if (out.length && out[out.length - 1][1] === c - 1) out[out.length - 1][1] = c;
        else out.push([c, c]);
    }
    return out;
};
exports.bounds = ['names: every text of up to 4 units without surrogates (thorough 7), escapes \\uXXXX and \\u{X} with arbitrary units inside, all reserved words by comparison', 'objects like lists: lengths of any number, up to 3 of the keys 0, 1, 2, 01, x', 'descriptors: all combinations of the six attributes absent or with up to five kinds of values, with and without another key', 'prototypes: 7 shapes; keys: every text of up to 2 units'];
exports.outside = ['characters beyond the basic plane in names', 'reserved words of strict code only'];
exports.stubs = ['Date: keeps its number when a date can have it, else NaN; fractions are not cut', 'Function constructor: throws exactly for reserved words, also when written with escapes, for what is no name, and not for declarations with more than a name'];
exports.cases = tier => [
    ...Array.from({ length: tier === 'quick' ? 5 : 8 }, (_, n) => ({ name: 'name of ' + n, params: { what: 'name', n } })),
    { name: 'word', params: { what: 'word' } },
    { name: 'escape', params: { what: 'escape' } },
    ...[undefined, 0, 1, 2].flatMap(level => [undefined, true, false].map(sparse => ({ name: 'like a list ' + level + ' ' + sparse, params: { what: 'like', level, sparse } }))),
    ...['-', 'none', 1].flatMap(value => [undefined, true, false].map(allow => ({ name: 'descriptor ' + value + ' ' + allow, params: { what: 'descriptor', value, allow } }))),
    { name: 'prototypes', params: { what: 'prototypes' } },
    { name: 'keys', params: { what: 'keys' } },
    { name: 'dates', params: { what: 'dates' } }
];
exports.mustReach = () => ['name', 'no name', 'reserved', 'like', 'unlike', 'descriptor', 'no descriptor', 'date', 'no date'];
exports.run = (V, { what, n, level, sparse, value: given, allow }) => {
    const START = /[\p{ID_Start}$_]/u;
    const PART = /[\p{ID_Continue}$\u200c\u200d]/u;
    const decode = s => s.replace(/\\u(?:([\da-fA-F]{4})|\{([\da-fA-F]+)\})/g, (m, a, b) => String.fromCodePoint(parseInt(a || b, 16)));
    V.env.Function = function (...args) {
        const body = args[args.length - 1];
        const name = decode(body.slice(4, -1));
        if (RESERVED.includes(name)) throw new SyntaxError('reserved');
        if (!/^[\p{ID_Start}$_][^\\]*[\s=,;\/]/u.test(body.slice(4, -1)) && !/^[\p{ID_Start}$_][\p{ID_Continue}$\u200c\u200d]*$/u.test(name)) throw new SyntaxError('escape');
        return () => undefined;
    };
    V.env.Function.prototype = Function.prototype;
    // milliseconds of a date: not a number beyond the range
    class Stamp {
        constructor(x) {
            const v = x instanceof Stamp ? x.v : x;
            this.v = V.truth(V.and(v >= -8.64e15, v <= 8.64e15)) ? v : NaN;
        }
        valueOf() {
            return this.v;
        }
        getTime() {
            return this.v;
        }
        [Symbol.toPrimitive]() {
            return this.v;
        }
        get [Symbol.toStringTag]() {
            return 'Date';
        }
    }
    if (what === 'dates') V.env.Date = Stamp;
    const t = V.load('types');
    const inside = (c, re) => V.truth(re.test(c));
    if (what === 'name') {
        const s = V.str('s', n, [[0, 0xd7ff], [0xe000, 0xffff]]);
        const r = V.truth(t.isVarName(s));
        let want = n > 0 && inside(s[0], START);
        for (let i = 1; want && i < n; i++) want = inside(s[i], PART);
        if (want) for (const w of RESERVED) if (w.length === n && V.truth(V.eq(s, w))) want = false;
        V.cover(want ? 'name' : 'no name');
        // an escape needs six characters at least
        if (n < 5 || !V.truth(s.includes('\\'))) V.check(r === want, 'names of variables: exactly the identifiers that are not reserved');
        else V.check(true, 'see the case escape');
        return;
    }
    if (what === 'word') {
        const w = V.choice('word', [...RESERVED, 'let', 'static', 'yield', 'of', 'async', 'undefined', 'instanceofs', 'classs']);
        const d = V.choice('edit', ['none', 'one']);
        let s = w;
        if (d === 'one') {
            const i = V.size('at' + w.length, 0, w.length - 1);
            s = w.slice(0, i) + V.str('u', 1, [[0, 0xd7ff], [0xe000, 0xffff]]) + w.slice(i + 1);
            const c = s[i];
            const ok = i ? inside(c, PART) : inside(c, START);
            const reserved = V.truth(V.or(false, ...RESERVED.map(x => V.eq(s, x))));
            if (reserved) V.cover('reserved');
            V.check(V.truth(t.isVarName(s)) === (ok && !reserved), 'a reserved word with one character changed');
            return;
        }
        V.check(t.isVarName(s) === !RESERVED.includes(w), 'words that are reserved');
        V.check(t.isVarName(Object(s)) === !RESERVED.includes(w), 'boxed or not');
        for (const x of [s + ' ', s + ';', s + '=1', s + ',b', ' ' + s, s + '\n', '']) V.check(!t.isVarName(x), 'statements are no names');
        return;
    }
    if (what === 'escape') {
        const form = V.choice('form', ['four', 'braces']);
        const before = V.choice('before', ['', 'a', 'do'.slice(0, 1)]);
        const hex = (form === 'four' ? '00' : '') + V.str('h', 2, [[0x2f, 0x31], [0x36, 0x37], [0x41, 0x41], [0x66, 0x67]]);
        const s = before + '\\u' + (form === 'four' ? hex : '{' + hex + '}');
        const digits = V.truth(/^[\da-fA-F]+$/.test(hex));
        const r = V.truth(t.isVarName(s));
        let want = digits;
        if (digits) {
            const code = parseInt(V.concrete(hex), 16);
            const name = before + String.fromCharCode(code);
            want = new RegExp(START.source + '(' + PART.source + ')*$', 'u').test(name) && (before ? PART : START).test(String.fromCharCode(code)) && !RESERVED.includes(name);
        }
        V.check(r === want, 'an escape stands for its character');
        return;
    }
    if (what === 'like') {
        const keys = ['0', '1', '2', '01', 'x'].filter(k => V.choice('has_' + k, [false, true]));
        V.assume(keys.length <= 3);
        const x = V.fp('len');
        const value = { length: x };
        for (const k of keys) value[k] = 1;
        const idx = keys.filter(k => /^(0|[1-9]\d*)$/.test(k));
        const dense = idx.every((k, i) => keys.includes(String(i)));
        const rough = V.and(Number.isInteger(x), x >= 0, x < 2 ** 32);
        const want = !level ? rough : V.and(rough, V.eq(x, idx.length), sparse !== false || dense, level === 1 || keys.length === idx.length);
        const r = t.isArrayLike(value, level, sparse);
        V.cover(V.truth(want) ? 'like' : 'unlike');
        V.check(V.iff(r, want), 'like a list: the length fits, and the keys as far as asked for');
        return;
    }
    if (what === 'descriptor') {
        const f = () => 1;
        const kinds = { value: [given === 'none' ? undefined : given], get: ['-', f, undefined, 1], set: ['-', f, undefined, 1], writable: ['-', true, false, 1, undefined], enumerable: ['-', true, 1], configurable: ['-', false, undefined] };
        const d = {};
        for (const k of Object.keys(kinds)) {
            const v = V.choice(k, kinds[k]);
            if (v !== '-') d[k] = v;
        }
        const extra = V.choice('extra', [false, true]);
        if (extra) d.other = 1;
        const r = t.isPropertyDescriptor(d, allow);
        const usable = V.attempt(() => Object.defineProperty({}, 'x', d)).ok;
        const flags = ['writable', 'enumerable', 'configurable'].every(k => !(k in d) || typeof d[k] === 'boolean');
        const some = 'value' in d || d.get === f || d.set === f;
        V.cover(r ? 'descriptor' : 'no descriptor');
        V.check(r === (usable && flags && some && (allow !== false || !extra)), 'a descriptor: it defines a property and its flags are booleans');
        return;
    }
    if (what === 'prototypes') {
        class A {}
        class B extends A {}
        const make = V.choice('shape', [() => ({}), () => Object.create(null), () => new A(), () => new B(), () => Object.create({}), () => Object.create(Object.create(null)), () => Object.setPrototypeOf([], null)]);
        const o = make();
        const own = V.choice('constructor', ['-', Object, A, undefined]);
        if (own !== '-') o.constructor = own;
        const mark = V.choice('mark', ['-', Symbol.toStringTag, Symbol.iterator]);
        if (mark !== '-') o[mark] = undefined;
        const filled = V.choice('filled', ['-', 'shown', 'hidden', 'symbol']);
        if (filled === 'shown') o.a = 1;
        if (filled === 'hidden') Object.defineProperty(o, 'a', { value: 1 });
        if (filled === 'symbol') o[Symbol('s')] = 1;
        const list = Array.isArray(o);
        const proto = Object.getPrototypeOf(o);
        const plain = !list && proto === Object.prototype && (own === '-' || own === Object);
        V.check(t.isObject(o) === !list, 'an object');
        V.check(t.isPlainObject(o) === plain, 'plain: made by Object and nobody else');
        V.check(t.isPureObject(o) === (!list && proto === null && (own === '-' || own === undefined) && mark === '-'), 'pure: without prototype and traits of one');
        const shown = (own !== '-' ? 1 : 0) + (filled === 'shown' ? 1 : 0);
        const counts = [shown, shown + (filled === 'hidden' ? 1 : 0), (mark !== '-' ? 1 : 0) + (filled === 'symbol' ? 1 : 0)];
        counts.push(counts[1] + counts[2]);
        for (const level of [undefined, 0, 1, 2, 3]) {
            V.check(t.isObjectFilled(o, level) === (!list && counts[level || 0] > 0), 'filled: some key of the kind asked for');
            V.check(t.isPlainObjectFilled(o, level) === (plain && counts[level || 0] > 0), 'the same for plain objects');
        }
        for (const p of [A.prototype, B.prototype, Object.prototype, Array.prototype, o]) {
            let chain = false;
            for (let q = Object.getPrototypeOf(o); q !== null; q = Object.getPrototypeOf(q)) chain = chain || q === p;
            V.check(t.isPrototypeOf(p, o) === chain, 'a prototype of it, near or far');
        }
        V.check(t.isPrototype(A.prototype) && t.isPrototype(B.prototype) && !t.isPrototype(new A()), 'prototypes know their constructor');
        for (const v of [null, undefined]) V.check(!t.isPrototypeOf(v, o) && !t.isPrototypeOf(A, v), 'nothing has no descendants');
        return;
    }
    if (what === 'keys') {
        const key = V.strUpTo('key', 0, 2);
        const v = V.choice('holder', ['own', 'inherited', 'hidden', 'list', 'text', 'undefined', 'null', 'number', 'pure']);
        const o = v === 'own' ? { ab: undefined, c: 1 } : v === 'inherited' ? Object.create({ ab: 1 }) : v === 'hidden' ? Object.defineProperty({}, 'ab', { value: 1 }) : v === 'list' ? [1, , 3] : v === 'text' ? 'xy' : v === 'undefined' ? undefined : v === 'null' ? null : v === 'number' ? 5 : Object.assign(Object.create(null), { ab: 1 });
        const ownKeys = { own: ['ab', 'c'], inherited: [], hidden: ['ab'], list: ['0', '2'], text: ['0', '1'], pure: ['ab'] }[v] || [];
        const anyKeys = ['text', 'undefined', 'null', 'number'].includes(v) ? [] : [...ownKeys, ...(v === 'inherited' ? ['ab'] : []), ...(v === 'list' ? ['at'] : [])];
        V.check(V.iff(t.hasOwnProperty(o, key), V.or(false, ...ownKeys.map(k => V.eq(key, k)))), 'own: a key of the value itself');
        V.check(V.iff(t.isProperty(o, key), V.or(false, ...anyKeys.map(k => V.eq(key, k)))), 'a property: a key of the value or of its prototypes');
        V.check(t.hasOwnProperty(o, 'length') === ['list', 'text'].includes(v), 'length');
        return;
    }
    const x = V.fp('x');
    const valid = V.and(x >= -8.64e15, x <= 8.64e15);
    V.cover(V.truth(valid) ? 'date' : 'no date');
    V.check(V.iff(t.isDateValid(x), valid), 'a date: a number of milliseconds that a date can have');
    V.check(V.iff(t.isDateValid(new Stamp(x)), valid), 'a valid one');
    V.check(t.isDate(new Stamp(x)), 'a date even if it is none');
};
