'use strict';
// the text of a value, evaluated, is an equal value
exports.bounds = ['values up to 2 levels (thorough 3): lists with holes, objects with or without prototype and with peculiar or symbolic keys, maps, sets, dates, boxed values, patterns, errors, buffers, typed arrays, promises', 'leaves: every text of up to 2 units (thorough 3), integers -9999..9999, booleans, -0, NaN, infinities, fractions', 'arrays of up to 60 places with up to 2 present', 'cycles to any value above'];
exports.outside = ['the text of functions', 'instances of own classes and values with an own way to text', 'files, events and buffers, which the documentation excludes'];
const OUTER = ['list', 'holes', 'sparse', 'object', 'pure', 'keyed', 'map', 'set', 'arguments', 'resolved', 'aggregate'];
const INNER = [...OUTER, 'date', 'pattern', 'boxed', 'bytes', 'floats', 'bigs', 'buffer', 'address', 'error', 'symbol', 'leaf', 'double', 'above'];
exports.cases = tier => [
    ...OUTER.flatMap(a => INNER.filter(b => a !== 'resolved' || b !== 'resolved').map(b => ({ name: a + ' of ' + b, params: { a, b, deep: tier !== 'quick' && OUTER.includes(b), n: tier === 'quick' ? 1 : 2 } }))),
    { name: 'texts', params: { a: 'texts', n: tier === 'quick' ? 2 : 3 } },
    { name: 'own text', params: { a: 'own' } },
    { name: 'promises', params: { a: 'promises', n: 1 } },
    { name: 'prototypes', params: { a: 'prototypes' } },
    { name: 'failures', params: { a: 'failures' } }
];
exports.mustReach = () => ['cycle', 'leaf', 'hole', 'rejected', 'pending', 'own'];
// what an expression of literals, calls and new means
class Marker { constructor(name, value) { this.name = name; this.value = value; } }
const CIRCULAR = new Marker('circular');
const PENDING = new Marker('pending');
const evaluate = (V, text) => {
    let i = 0;
    const fail = m => V.check(false, 'the text is no expression: ' + m);
    const at = s => text.slice(i, i + s.length) === s;
    const skip = s => {
        if (!at(s)) { fail(s + ' expected'); throw new Error('no expression'); }
        i += s.length;
    };
    const literal = () => {
        let j = i + 1;
        while (j < text.length && text[j] !== '"') j += text[j] === '\\' ? 2 : 1;
        const s = JSON.parse(text.slice(i, j + 1));
        i = j + 1;
        return s;
    };
    const list = end => {
        const items = [];
        while (i < text.length && !at(end)) {
            if (at(',')) { i++; items.length++; continue; }
            items[items.length] = expression();
            if (!at(end)) {
                skip(',');
                while (at(' ')) i++;
            }
        }
        skip(end);
        return items;
    };
    const apply = (path, args, made) => {
        switch (path) {
            case 'Map': return new Map(...args);
            case 'Set': return new Set(...args);
            case 'Date': return new Date(...args);
            case 'URL': return new URL(...args);
            case 'URLSearchParams': return new URLSearchParams(...args);
            case 'AggregateError': {
                const e = new AggregateError([], V.concrete(args[1]));
                for (const x of args[0]) e.errors.push(x);
                return e;
            }
            case 'Array': return Array(...args);
            case 'Number': case 'String': case 'Boolean': return made ? Object(args[0]) : fail('not an object');
            case 'Object': return Object(args[0]);
            case 'Object.create': return Object.create(args[0]);
            case 'Object.assign': return Object.assign(...args);
            case 'Promise.resolve': return new Marker('fulfilled', args[0]);
            case 'Promise.reject': return new Marker('rejected', args[0]);
            case 'Symbol.for': return Symbol.for(args[0]);
            case 'Symbol': return new Marker('symbol', args[0]);
            case 'Buffer.from': return Buffer.from(...args);
        }
        const C = globalThis[path.replace(/\.from$/, '')];
        if (/Error$/.test(path) && made) return new C(...args);
        if (/^(Int|Uint|Float|Big).*Array\.from$/.test(path) && !made) return C.from(...args);
        return fail('unknown ' + path);
    };
    const expression = () => {
        if (at('"')) return literal();
        if (at('[Circular]')) { i += 10; return CIRCULAR; }
        if (at('[')) { i++; return list(']'); }
        if (at('{')) {
            i++;
            const o = {};
            while (!at('}')) {
                if (at('[')) {
                    i++;
                    const k = expression();
                    skip(']:');
                    const v = expression();
                    Object.defineProperty(o, k, { value: v, writable: true, enumerable: true, configurable: true });
                } else {
                    let k;
                    if (at('"')) k = literal();
                    else {
                        k = text.slice(i, text.indexOf(':', i));
                        if (!/^\d+$/.test(k)) fail('a key of ' + k);
                        i += k.length;
                    }
                    skip(':');
                    const v = expression();
                    if (k === '__proto__') Object.setPrototypeOf(o, v);
                    else o[k] = v;
                }
                if (!at('}')) skip(',');
            }
            skip('}');
            return o;
        }
        if (at('/')) {
            let j = i + 1;
            for (let inside = false; inside || text[j] !== '/'; j++) {
                if (text[j] === '\\') j++;
                else if (text[j] === '[') inside = true;
                else if (text[j] === ']') inside = false;
            }
            const source = text.slice(i + 1, j++);
            let flags = '';
            while (j < text.length && /[a-z]/.test(text[j])) flags += text[j++];
            i = j;
            return new RegExp(source, flags);
        }
        let made = false;
        if (at('new ')) { made = true; i += 4; }
        let j = i;
        while (j < text.length && /[A-Za-z0-9_.+-]/.test(text[j])) j++;
        const word = text.slice(i, j);
        i = j;
        if (at('(')) {
            if (at('(() => { /* ')) {
                const state = at('(() => { /* pending') ? 'pending' : 'unknown';
                skip('(() => { /* ' + state + ' */ })');
                return PENDING;
            }
            i++;
            return apply(word, list(')'), made);
        }
        if (made) fail('new without arguments');
        const words = { null: null, undefined, true: true, false: false, NaN, Infinity, '-Infinity': -Infinity };
        if (Object.prototype.hasOwnProperty.call(words, word)) return words[word];
        if (word.slice(0, 7) === 'Symbol.') return Symbol[word.slice(7)];
        if (word[word.length - 1] === 'n') return BigInt(word.slice(0, -1));
        if (!/^-?\d/.test(word)) fail('unknown ' + word);
        return Number(word);
    };
    const value = expression();
    V.check(i === text.length, 'nothing after the expression');
    return value;
};
exports.run = async (V, { a, b, deep, n }) => {
    const { stringify, asyncStringify, toStringMethod, asyncToStringMethod } = V.module('util/src/stringify');
    const alike = (x, y) => V.or(V.and(V.is(x, y), typeof x !== 'number' || x !== 0 || V.is(1 / x, 1 / y)), V.and(V.not(V.is(x, x)), V.not(V.is(y, y))));
    let above;
    const same = (x, y, up = []) => {
        if (typeof x === 'symbol') {
            if (Symbol.keyFor(x) !== undefined || x === Symbol.iterator) V.check(x === y, 'the same symbol');
            else V.check(y instanceof Marker && y.name === 'symbol' && y.value === x.description, 'a symbol of the same description');
            return;
        }
        if (typeof x !== 'object' || x === null) {
            V.check(typeof y === typeof x && alike(x, y), 'the same value');
            return;
        }
        if (up.includes(x)) {
            V.check(y === CIRCULAR, 'what contains itself is shown as circular');
            return;
        }
        up = [...up, x];
        if (Object.prototype.toString.call(x) === '[object Arguments]') {
            same([...x], y, up);
            return;
        }
        if (x instanceof Promise) {
            const [state, value] = states.get(x);
            V.check(y instanceof Marker && y.name === state, 'the state of a promise');
            if (state === 'fulfilled' || state === 'rejected') same(value, y.value, up);
            return;
        }
        V.check(typeof y === 'object' && y !== null && !(y instanceof Marker), 'an object');
        V.check(Object.getPrototypeOf(x) === Object.getPrototypeOf(y), 'with the same prototype');
        if (x instanceof Error) {
            V.check(V.is(x.message, y.message), 'the same message');
            if (x instanceof AggregateError) {
                V.check(x.errors.length === y.errors.length, 'as many errors');
                x.errors.forEach((e, i) => same(e, y.errors[i], up));
            }
            return;
        }
        const keys = Reflect.ownKeys(x);
        if (!(x instanceof RegExp) && !ArrayBuffer.isView(x)) {
            V.check(keys.length === Reflect.ownKeys(y).length, 'as many keys');
            for (const k of keys) {
                V.check(Object.prototype.hasOwnProperty.call(y, k), 'the same keys');
                if (typeof k === 'string' && x instanceof String) continue;
                same(x[k], y[k], up);
            }
        }
        if (Array.isArray(x)) V.check(x.length === y.length, 'as long');
        if (x instanceof Map) {
            const p = [...x];
            const q = [...y];
            V.check(p.length === q.length, 'as many entries');
            p.forEach(([k, v], i) => {
                same(k, q[i][0], up);
                same(v, q[i][1], up);
            });
        }
        if (x instanceof Set) {
            const p = [...x];
            const q = [...y];
            V.check(p.length === q.length, 'as many members');
            p.forEach((v, i) => same(v, q[i], up));
        }
        if (x instanceof Date || x instanceof Number || x instanceof String || x instanceof Boolean) V.check(alike(x.valueOf(), y.valueOf()), 'the same content');
        if (x instanceof BigInt) V.check(x.valueOf() === y.valueOf(), 'the same big integer');
        if (x instanceof RegExp) V.check(x.source === y.source && x.flags === y.flags, 'the same pattern');
        if (x instanceof URL || x instanceof URLSearchParams) V.check(x.toString() === y.toString(), 'the same address');
        if (ArrayBuffer.isView(x)) {
            V.check(x.length === y.length, 'as many places');
            for (let i = 0; i < x.length; i++) V.check(typeof x[i] === 'bigint' ? x[i] === y[i] : alike(x[i], y[i]), 'the same places');
        }
    };
    const states = new Map();
    // the shapes of lists vary beside one inner value, the inner values in one shape of list
    const fixed = b !== undefined && !['leaf', 'above'].includes(b);
    const plain = fixed && !['list', 'object', 'map', 'keyed', 'set'].includes(b);
    let count = 0;
    const leaf = () => {
        V.cover('leaf');
        const i = count++;
        if (i > 0 || plain) return 'q';
        const k = V.choice('leaf' + i, ['text', 'integer', 'big', 'none']);
        return k === 'text' ? V.str('s' + i, n) : k === 'integer' ? V.int('n' + i, -9, 9) : k === 'big' ? BigInt(V.choice('b' + i, [0, -7])) : [undefined, null, true][V.choice('none' + i, [0, 1, 2])];
    };
    const double = () => [-0, 0, NaN, Infinity, -Infinity, 1e21, -1.5e-7, 0.1, 2 ** 53][V.choice('double' + count++, [0, 1, 2, 3, 4, 5, 6, 7, 8])];
    let ids = 0;
    const filled = (kind, up, rest, flat) => {
        const part = () => rest(up);
        const id = ids++;
        switch (kind) {
            case 'list': case 'holes': {
                const o = [];
                up = [...up, o];
                if (kind === 'holes') V.cover('hole');
                o[kind === 'list' ? 0 : V.choice('start' + id, fixed && !flat ? [1] : [1, 2])] = part();
                if (!flat) o.push(leaf());
                if (kind === 'holes') o.length += V.choice('end' + id, fixed && !flat ? [1] : [0, 1, 2]);
                return o;
            }
            case 'sparse': {
                const o = [];
                up = [...up, o];
                o.length = V.choice('length' + id, fixed && !flat ? [50] : [49, 50, 60]);
                o[V.choice('place' + id, fixed && !flat ? [49] : [0, 20, o.length - 1])] = part();
                if (!flat) o[21] = leaf();
                return o;
            }
            case 'object': case 'pure': {
                const o = kind === 'object' ? {} : Object.create(null);
                up = [...up, o];
                o.a = part();
                if (!flat) o['b'] = leaf();
                return o;
            }
            case 'keyed': {
                if (!flat) count++;
                const o = V.choice('bare' + id, flat || !deep ? [false] : [false, true]) ? Object.create(null) : {};
                up = [...up, o];
                const k = ['__proto__', '', '1', 'a"\\', 'constructor', Symbol.for('"k"'), Symbol.iterator, 'length', 'toJSON'][V.choice('key' + id, fixed && !flat ? [0] : [0, 1, 2, 3, 4, 5, 6, 7, 8])];
                Object.defineProperty(o, k, { value: part(), writable: true, enumerable: true, configurable: true });
                if (!flat) o.z = leaf();
                return o;
            }
            case 'map': {
                const o = new Map();
                up = [...up, o];
                if (!flat) o.set('k', leaf());
                const p = part();
                if (p !== null && typeof p === 'object') o.set(p, 1);
                o.set(2, p);
                return o;
            }
            case 'set': {
                const o = new Set();
                up = [...up, o];
                if (!flat) o.add('x');
                const p = part();
                o.add(p !== null && typeof p === 'object' ? p : [p]);
                return o;
            }
            case 'arguments': return (function () { return arguments; })(part(), 1);
            case 'resolved': {
                const v = part();
                const p = Promise.resolve(v);
                states.set(p, ['fulfilled', v]);
                return p;
            }
            case 'aggregate': {
                const o = V.choice('am' + id, [0, 1]) ? new AggregateError([new TypeError('x'), new Error('')], '"m') : new AggregateError([]);
                up = [...up, o];
                o.errors.push(part());
                return o;
            };
            case 'date': return new Date([0, -1, 8.64e15, NaN, 1600000000123][V.choice('time' + id, [0, 1, 2, 3, 4])]);
            case 'pattern': return [/a\/b+[/"]/gi, /\n/u, new RegExp('', 's'), new RegExp('/\n')][V.choice('regexp' + id, [0, 1, 2, 3])];
            case 'boxed': return [Object(-0), Object(7), Object('a"b'), Object(''), Object(false), Object(5n), Object(NaN)][V.choice('box' + id, [0, 1, 2, 3, 4, 5, 6])];
            case 'bytes': return [Uint8Array.of(1, 255), Int16Array.of(-5), new Uint32Array(2), Uint8ClampedArray.of()][V.choice('view' + id, [0, 1, 2, 3])];
            case 'floats': return [Float64Array.of(0.5, -0, NaN), Float32Array.of(-0, 1.5)][V.choice('view' + id, [0, 1])];
            case 'bigs': return [BigInt64Array.of(-5n), BigUint64Array.of(5n, 0n)][V.choice('view' + id, [0, 1])];
            case 'buffer': return Buffer.from('ab');
            case 'address': return [new URL('http://a/b?c="d"'), new URLSearchParams('a=b%20&c')][V.choice('url' + id, [0, 1])];
            case 'error': count++; return new ([Error, TypeError, RangeError, SyntaxError, URIError, EvalError, ReferenceError][V.choice('class' + id, [0, 1, 2, 3, 4, 5, 6])])(V.strUpTo('m' + id, 0, n));
            case 'symbol': return [Symbol.for('x"'), Symbol.for(''), Symbol.iterator, Symbol('d"'), Symbol(), Symbol('Symbol.iterator'), Symbol('')][V.choice('sym' + id, [0, 1, 2, 3, 4, 5, 6])];
            case 'leaf': return leaf();
            case 'double': return double();
            case 'above': V.cover('cycle'); return up[0];
        }
    };
    if (a === 'texts') {
        const kind = V.choice('kind', ['text', 'integer', 'big', 'other', 'double']);
        const v = kind === 'text' ? V.strUpTo('t', 0, n) : kind === 'integer' ? V.int('i', -9999, 9999) : kind === 'big' ? BigInt(V.choice('bigs', [0, 5, -12, 1e15])) : kind === 'double' ? double() : [V.bool('bool'), undefined, null][V.choice('any', [0, 1, 2])];
        same(v, evaluate(V, stringify(v)));
        V.cover('leaf');
        return;
    }
    if (a === 'own') {
        // an own way to text wins over all others
        V.cover('own');
        const s = V.str('o', 1);
        const make = () => [{}, [1], new Map(), () => 5, new Date(0), Object.create(null), class { static q = 1; }][V.choice('on', [0, 1, 2, 3, 4, 5, 6])];
        const o = make();
        const how = V.choice('how', ['sync', 'async', 'both', 'throws', 'rejects', 'no function']);
        if (how === 'sync' || how === 'both' || how === 'rejects') o[toStringMethod] = () => s;
        if (how === 'async' || how === 'both') o[asyncToStringMethod] = async () => 'later ' + s;
        if (how === 'rejects') o[asyncToStringMethod] = async () => { throw new Error('no'); };
        if (how === 'throws') Object.defineProperty(o, toStringMethod, { value: () => { throw new Error('no'); }, enumerable: false });
        if (how === 'no function') Object.defineProperty(o, toStringMethod, { value: 5, enumerable: false });
        const sync = V.attempt(() => stringify([o]));
        V.check(sync.ok, 'a text');
        const later = await V.settle(asyncStringify([o]));
        V.check(later.status === 'fulfilled', 'a text in the end');
        if (how === 'sync' || how === 'both' || how === 'rejects') V.check(V.is(sync.value, '[' + s + ']'), 'the own text');
        if (how === 'sync' || how === 'rejects') V.check(V.is(later.value, '[' + s + ']'), 'the own text');
        if (how === 'async' || how === 'both') V.check(V.is(later.value, '[later ' + s + ']'), 'the own text, once known');
        if (how === 'throws' || how === 'no function') V.check(V.is(sync.value, later.value) && !V.truth(V.is(sync.value, '[' + s + ']')), 'the usual text');
        return;
    }
    if (a === 'promises') {
        const kind = V.choice('state', ['fulfilled', 'rejected', 'pending', 'soon', 'nested', 'twice']);
        const value = leaf();
        let p;
        if (kind === 'fulfilled' || kind === 'twice') p = Promise.resolve(value);
        if (kind === 'rejected') { V.cover('rejected'); p = Promise.reject(value); }
        if (kind === 'pending') { V.cover('pending'); p = new Promise(() => {}); }
        if (kind === 'soon') p = Promise.resolve().then(() => {}).then(() => value);
        if (kind === 'nested') { p = Promise.resolve({ inner: Promise.resolve(value) }); }
        if (kind !== 'nested') states.set(p, [kind === 'twice' || kind === 'soon' ? 'fulfilled' : kind, value]);
        else {
            const inner = await p;
            states.set(inner.inner, ['fulfilled', value]);
            states.set(p, ['fulfilled', inner]);
        }
        p.catch(() => {});
        const where = V.choice('where', ['alone', 'list', 'map']);
        const root = where === 'alone' ? p : where === 'list' ? (kind === 'twice' ? [p, p, 1] : [p, 1]) : new Map([['p', p]]);
        const done = asyncStringify(root);
        let settled = false;
        done.then(() => { settled = true; }, () => { settled = true; });
        await V.drain();
        for (let i = 0; i < 9 && !settled; i++) {
            V.fireNext();
            await V.drain();
        }
        V.check(settled, 'an answer even if a promise never settles');
        same(root, evaluate(V, await done));
        V.check(stringify(root).includes('/* unknown */'), 'without waiting the state is unknown');
        return;
    }
    if (a === 'prototypes') {
        const c = ['Array', 'Map', 'Date', 'RegExp', 'Promise', 'Object'][V.choice('class', [0, 1, 2, 3, 4, 5])];
        V.check(stringify([globalThis[c].prototype]) === '[' + c + '.prototype]', 'prototypes by their name');
        V.cover('leaf');
        return;
    }
    if (a === 'failures') {
        // failures reach the caller or its handler
        const err = new Error('no text');
        const o = { toString() { throw err; } };
        const where = V.choice('where', [0, 1, 2]);
        const root = [o, [1, o], { a: o }][where];
        const bare = V.attempt(() => stringify(root));
        V.check(!bare.ok && bare.error === err, 'the failure reaches the caller');
        const late = await V.settle(asyncStringify(root));
        V.check(late.status === 'rejected' && late.reason === err, 'the failure rejects');
        const seen = [];
        const s = V.str('alt', 1);
        const handled = V.attempt(() => stringify(root, { errorHandler: e => { seen.push(e); return s; } }));
        V.check(handled.ok && V.truth(V.is(handled.value, [s, '[1,' + s + ']', '{"a":' + s + '}'][where])) && seen.length === 1 && seen[0] === err, 'the handler decides');
        V.cover('leaf');
        return;
    }
    const build = up => filled(b, up, up2 => (deep ? filled(V.choice('third', INNER.filter(k => !OUTER.includes(k))), up2, null, true) : V.choice('inner', ['leaf', 'top']) === 'leaf' ? leaf() : up2[0]), true);
    const root = filled(a, [], build, false);
    // inside promises only the waiting form sees the content
    const waits = states.size > 0;
    const text = waits ? await asyncStringify(root) : stringify(root);
    same(root, evaluate(V, text));
    if (!waits) V.check(V.is(await asyncStringify(root), text), 'the same text from the waiting form');
};
