'use strict';
// the predicates of kinds: by tag, by typeof, and lists of them
const TAGS = {
    isMap: 'Map', isSet: 'Set', isWeakMap: 'WeakMap', isWeakSet: 'WeakSet', isWeakRef: 'WeakRef', isPromise: 'Promise', isDate: 'Date', isRegExp: 'RegExp',
    isArrayBuffer: 'ArrayBuffer', isSharedArrayBuffer: 'SharedArrayBuffer', isDataView: 'DataView', isBigInt64Array: 'BigInt64Array', isBigUint64Array: 'BigUint64Array',
    isFloat32Array: 'Float32Array', isFloat64Array: 'Float64Array', isInt8Array: 'Int8Array', isInt16Array: 'Int16Array', isInt32Array: 'Int32Array', isUint8Array: 'Uint8Array',
    isUint16Array: 'Uint16Array', isUint32Array: 'Uint32Array', isUint8ClampedArray: 'Uint8ClampedArray', isURL: 'URL', isURLSearchParams: 'URLSearchParams',
    isArguments: 'Arguments', isSyncGenerator: 'Generator', isAsyncGenerator: 'AsyncGenerator', isSyncGeneratorFunction: 'GeneratorFunction', isAsyncGeneratorFunction: 'AsyncGeneratorFunction',
    isBlob: 'Blob', isFile: 'File', isFileList: 'FileList', isFileReader: 'FileReader', isObject: 'Object', isNodeList: 'NodeList', isTextNode: 'Text', isDocument: 'HTMLDocument', isWindow: 'Window', isDOMException: 'DOMException',
    isNumberObject: 'Number', isStringObject: 'String', isBooleanObject: 'Boolean', isBigIntObject: 'BigInt', isSymbolObject: 'Symbol', isAnyError: 'Error'
};
const TYPED = ['Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array'];
// real values: maker => the predicates that hold
const KINDS = {
    undefined: [() => undefined, 'isUndefined isNullOrUndefined isFalsy isPrimitive'],
    null: [() => null, 'isNull isNullOrUndefined isFalsy isPrimitive'],
    true: [() => true, 'isTrue isBoolean isBooleanPrimitive isTruthy isPrimitive'],
    false: [() => false, 'isFalse isBoolean isBooleanPrimitive isFalsy isPrimitive'],
    'boxed false': [() => Object(false), 'isBoolean isBooleanObject isTruthy isTypeofObject'],
    zero: [() => 0, 'isNumber isNumberPrimitive isZero isFalsy isPrimitive isPropertyKey'],
    'not a number': [() => NaN, 'isNaN isFalsy isPrimitive isPropertyKey'],
    'boxed number': [() => Object(5), 'isNumber isNumberObject isTruthy isTypeofObject isPropertyKey'],
    'empty text': [() => '', 'isString isStringPrimitive isFalsy isPrimitive isPropertyKey isLengthy isSyncIterable isIterable'],
    text: [() => 'ab', 'isString isStringPrimitive isStringFilled isStringTrim isTruthy isPrimitive isPropertyKey isLengthy isLengthyFilled isSyncIterable isIterable'],
    blank: [() => ' ', 'isString isStringPrimitive isStringFilled isChar isTruthy isPrimitive isPropertyKey isLengthy isLengthyFilled isSyncIterable isIterable'],
    'boxed text': [() => Object('a'), 'isString isStringObject isStringFilled isStringTrim isChar isTruthy isTypeofObject isPropertyKey isLengthy isLengthyFilled isArrayLike isArrayLikeFilled isSyncIterable isIterable'],
    symbol: [() => Symbol('s'), 'isSymbol isSymbolPrimitive isTruthy isPrimitive isPropertyKey'],
    'boxed symbol': [() => Object(Symbol('s')), 'isSymbol isSymbolObject isTruthy isTypeofObject isPropertyKey'],
    'zero bigint': [() => 0n, 'isBigInt isBigIntPrimitive isFalsy isPrimitive'],
    bigint: [() => 7n, 'isBigInt isBigIntPrimitive isBigIntFilled isTruthy isPrimitive'],
    'negative bigint': [() => -7n, 'isBigInt isBigIntPrimitive isTruthy isPrimitive'],
    'boxed bigint': [() => Object(7n), 'isBigInt isBigIntObject isBigIntFilled isTruthy isTypeofObject'],
    object: [() => ({}), 'isObject isPlainObject isTypeofObject isTruthy'],
    'filled object': [() => ({ a: 1 }), 'isObject isObjectFilled isPlainObject isPlainObjectFilled isTypeofObject isTruthy'],
    'object without prototype': [() => Object.create(null), 'isObject isPureObject isTypeofObject isTruthy'],
    instance: [() => new (class A {})(), 'isObject isTypeofObject isTruthy'],
    'instance with constructor Object': [() => Object.assign(Object.create({ a: 1 }), { constructor: Object }), 'isObject isObjectFilled isTypeofObject isTruthy'],
    list: [() => [], 'isArray isLengthy isTypeofObject isTruthy isSyncIterable isIterable'],
    'filled list': [() => [{}], 'isArray isArrayFilled isObjectArray isTypeofObjectArray isTruthyArray isLengthy isLengthyFilled isTypeofObject isTruthy isSyncIterable isIterable'],
    'list with hole': [() => Object.assign(Array(2), { 1: [] }), 'isArray isArrayFilled isArraySparse isTypeofObjectArray isTruthyArray isArrayTwoDimensional isLengthy isLengthyFilled isTypeofObject isTruthy isSyncIterable isIterable'],
    'list of lists': [() => [[], [1]], 'isArray isArrayFilled isArrayTwoDimensional isTypeofObjectArray isTruthyArray isLengthy isLengthyFilled isTypeofObject isTruthy isSyncIterable isIterable'],
    map: [() => new Map(), 'isMap isSizey isTypeofObject isTruthy isSyncIterable isIterable'],
    'filled map': [() => new Map([[1, 2]]), 'isMap isMapFilled isSizey isSizeyFilled isTypeofObject isTruthy isSyncIterable isIterable'],
    set: [() => new Set(), 'isSet isSizey isTypeofObject isTruthy isSyncIterable isIterable'],
    'filled set': [() => new Set([1]), 'isSet isSetFilled isSizey isSizeyFilled isTypeofObject isTruthy isSyncIterable isIterable'],
    'weak map': [() => new WeakMap(), 'isWeakMap isTypeofObject isTruthy'],
    'weak set': [() => new WeakSet(), 'isWeakSet isTypeofObject isTruthy'],
    date: [() => new Date(0), 'isDate isTypeofObject isTruthy'],
    pattern: [() => /a/, 'isRegExp isTypeofObject isTruthy'],
    promise: [() => Promise.resolve(1), 'isPromise isPromiseLike isTypeofObject isTruthy'],
    thenable: [() => ({ then() {} }), 'isObject isObjectFilled isPlainObject isPlainObjectFilled isPromiseLike isTypeofObject isTruthy'],
    'function': [() => function () {}, 'isFunction isSyncFunction isTruthy isLengthy'],
    'function with parameter': [() => function (a) { return a; }, 'isFunction isSyncFunction isFunctionFilled isSyncFunctionFilled isTruthy isLengthy isLengthyFilled'],
    'async function': [() => async function () {}, 'isFunction isAsyncFunction isTruthy isLengthy'],
    'async arrow': [() => async a => a, 'isFunction isFunctionFilled isAsyncFunction isAsyncFunctionFilled isTruthy isLengthy isLengthyFilled'],
    'generator function': [() => function* () {}, 'isFunction isSyncFunction isSyncGeneratorFunction isGeneratorFunction isTruthy isLengthy'],
    'async generator function': [() => async function* () {}, 'isFunction isAsyncFunction isAsyncGeneratorFunction isGeneratorFunction isTruthy isLengthy'],
    generator: [() => (function* () {})(), 'isSyncGenerator isGenerator isIterator isSyncIterable isIterable isTypeofObject isTruthy'],
    'async generator': [() => (async function* () {})(), 'isAsyncGenerator isGenerator isIterator isAsyncIterable isIterable isTypeofObject isTruthy'],
    'class': [() => class A {}, 'isFunction isSyncFunction isClass isTruthy isLengthy'],
    'nameless class': [() => class {}, 'isFunction isSyncFunction isClass isTruthy isLengthy'],
    'native function': [() => Math.sin, 'isFunction isSyncFunction isFunctionFilled isSyncFunctionFilled isNativeFunction isTruthy isLengthy isLengthyFilled'],
    'bound function': [() => function () {}.bind(null), 'isFunction isSyncFunction isFunctionBound isTruthy isLengthy'],
    error: [() => new Error('x'), 'isError isAnyError isErrorLike isTypeofObject isTruthy'],
    'type error': [() => new TypeError('x'), 'isTypeError isAnyError isErrorLike isTypeofObject isTruthy'],
    'range error': [() => new RangeError('x'), 'isRangeError isAnyError isErrorLike isTypeofObject isTruthy'],
    'syntax error': [() => new SyntaxError('x'), 'isSyntaxError isAnyError isErrorLike isTypeofObject isTruthy'],
    'reference error': [() => new ReferenceError('x'), 'isReferenceError isAnyError isErrorLike isTypeofObject isTruthy'],
    'eval error': [() => new EvalError('x'), 'isEvalError isAnyError isErrorLike isTypeofObject isTruthy'],
    'uri error': [() => new URIError('x'), 'isURIError isAnyError isErrorLike isTypeofObject isTruthy'],
    'aggregate error': [() => new AggregateError([], 'x'), 'isAggregateError isAnyError isErrorLike isTypeofObject isTruthy'],
    bytes: [() => new Uint8Array(0), 'isUint8Array isTypedArray isArrayBufferView isLengthy isArrayLike isSyncIterable isIterable isTypeofObject isTruthy'],
    buffer: [() => Buffer.from('a'), 'isBuffer isBufferFilled isLengthy isLengthyFilled isArrayLike isArrayLikeFilled isSyncIterable isIterable isTypeofObject isTruthy'],
    view: [() => new DataView(new ArrayBuffer(1)), 'isDataView isArrayBufferView isTypeofObject isTruthy'],
    'array buffer': [() => new ArrayBuffer(1), 'isArrayBuffer isTypeofObject isTruthy'],
    parameters: [() => (function () { return arguments; })(1), 'isArguments isArrayLike isArrayLikeFilled isLengthy isLengthyFilled isSyncIterable isIterable isTypeofObject isTruthy'],
    'like a list': [() => ({ length: 1, 0: 'a' }), 'isObject isObjectFilled isPlainObject isPlainObjectFilled isArrayLike isArrayLikeFilled isLengthy isLengthyFilled isTypeofObject isTruthy'],
    address: [() => new URL('http://a/'), 'isURL isTypeofObject isTruthy'],
    'address parameters': [() => new URLSearchParams(), 'isURLSearchParams isSizey isSyncIterable isIterable isTypeofObject isTruthy'],
    form: [() => new FormData(), 'isFormData isSyncIterable isIterable isTypeofObject isTruthy'],
    prototype: [() => Object.prototype, 'isObject isPrototype isTypeofObject isTruthy'],
    // the rest say no to everything above that they are not
    global: [() => globalThis, 'isTypeofObject isTruthy']
};
const ALL = [...new Set([...Object.keys(TAGS), 'isTypedArray', 'isArrayBufferView', ...Object.values(KINDS).flatMap(([, l]) => l.split(' ').filter(Boolean))])];
const LISTS = { isBooleanArray: 'isBoolean', isStringArray: 'isString', isSymbolArray: 'isSymbol', isBigIntArray: 'isBigInt', isObjectArray: 'isObject', isFunctionArray: 'isFunction', isNullArray: 'isNull', isUndefinedArray: 'isUndefined', isNullOrUndefinedArray: 'isNullOrUndefined', isTypeofObjectArray: 'isTypeofObject', isFalsyArray: 'isFalsy', isTruthyArray: 'isTruthy', isBufferArray: 'isBuffer', isArrayTwoDimensional: 'isArray' };
exports.bounds = ['tags: every text of the length of the tag, one shorter and one longer, for each of the 45 predicates by tag', '67 kinds of values, each with every predicate', 'lists: up to 3 values (thorough 4) out of 14 kinds, for each of the 14 predicates of lists', 'sizes: every number of entries up to 2', 'symbolic texts up to 2 units, numbers and booleans as values and as sizes'];
exports.outside = ['the text that getTag gives for tags with a closing bracket', 'values of browsers other than by tag', 'revoked proxies and getters that throw'];
exports.cases = tier => [
    ...Object.keys(TAGS).map(k => ({ name: 'tag ' + k, params: { what: 'tag', k } })),
    { name: 'typed arrays', params: { what: 'typed' } },
    { name: 'kinds', params: { what: 'kinds' } },
    ...Object.keys(LISTS).map(k => ({ name: 'list ' + k, params: { what: 'list', k, max: tier === 'quick' ? 2 : 3 } })),
    { name: 'text', params: { what: 'text' } },
    { name: 'sizes', params: { what: 'sizes' } }
];
exports.mustReach = () => ['that tag', 'another tag', 'kinds', 'list', 'no list', 'typed', 'filled', 'no size'];
exports.run = (V, { what, k, max }) => {
    const t = V.load('types');
    if (what === 'tag') {
        const tag = TAGS[k];
        const more = V.choice('more', [0, -1, 1]);
        const s = V.str('tag' + (tag.length + more), tag.length + more);
        const want = V.eq(s, tag);
        const base = V.choice('base', ['object', 'prototype', 'function']);
        const o = base === 'object' ? { [Symbol.toStringTag]: s } : base === 'prototype' ? Object.create({ get [Symbol.toStringTag]() { return s; } }) : Object.assign(() => 1, { [Symbol.toStringTag]: s });
        const objectOnly = /^is(Number|String|Boolean|BigInt|Symbol)Object$/.test(k);
        const r = t[k](o);
        V.check(typeof r === 'boolean', 'says yes or no');
        V.check(V.iff(r, base === 'function' && objectOnly ? false : want), k + ': exactly the values with this tag');
        V.check(V.iff(t[k](o), r), 'and again the same');
        V.cover(V.truth(want) ? 'that tag' : 'another tag');
        const closing = s.includes(']');
        V.check(V.or(closing, V.eq(t.getTag(o), s)), 'the tag itself');
        V.check(V.eq(t.getTag(o, false), '[object ' + s + ']'), 'and in full');
        return;
    }
    if (what === 'typed') {
        const n = V.choice('n', [...new Set(TYPED.map(s => s.length))]);
        const s = V.str('tag' + n, n);
        V.cover('typed');
        const o = { [Symbol.toStringTag]: s };
        V.check(V.iff(t.isTypedArray(o), V.or(false, ...TYPED.map(x => V.eq(s, x)))), 'typed arrays are the eleven of the language');
        V.check(V.iff(t.isArrayBufferView(o), V.or(V.eq(s, 'DataView'), ...TYPED.map(x => V.eq(s, x)))), 'views are typed arrays and data views');
        return;
    }
    if (what === 'kinds') {
        const name = V.choice('kind', Object.keys(KINDS));
        const [make, holds] = KINDS[name];
        const yes = new Set(holds.split(' '));
        const v = make();
        V.cover('kinds');
        for (const p of ALL) {
            if (name === 'global' && !yes.has(p) && p !== 'isArray') continue;
            const r = V.attempt(() => t[p](v));
            V.check(r.ok && r.value === yes.has(p), name + ': ' + p + (yes.has(p) ? '' : ' not'));
        }
        return;
    }
    if (what === 'list') {
        const one = ['undefined', 'null', 'false', 'zero', 'text', 'boxed text', 'symbol', 'bigint', 'object', 'list', 'function', 'buffer', 'boxed false', 'hole'];
        const n = V.size('n', 0, max);
        const list = [];
        const names = [];
        for (let i = 0; i < n; i++) {
            const c = V.choice('c' + i, one);
            names.push(c);
            if (c === 'hole') list.length++;
            else list.push(KINDS[c][0]());
        }
        // holes have no value to judge: every skips them
        const want = n > 0 && names.every(c => c === 'hole' || KINDS[c][1].split(' ').includes(LISTS[k]));
        const r = V.attempt(() => t[k](list));
        V.cover(r.value ? 'list' : 'no list');
        V.check(r.ok && r.value === want, k + ': a list with values of this kind only');
        V.check(t.isArrayFilled(list) === n > 0, 'filled: something is in it');
        V.check(t.isArraySparse(list) === names.includes('hole'), 'sparse: with a hole');
        const like = { length: n, ...list };
        V.check(t[k](like) === false, 'only real lists');
        return;
    }
    if (what === 'text') {
        const s = V.strUpTo('s', 0, 3);
        const n = V.choice('length', [undefined, 0, 1, 2]);
        V.check(V.iff(t.isStringFilled(s), s.length > 0), 'a filled text');
        V.check(V.iff(t.isChar(s), s.length === 1), 'one character');
        const core = s.trim();
        V.check(V.iff(t.isStringTrim(s, n), core.length > (n || 0)), 'a text with more than blanks');
        V.check(t.isString(s) && t.isStringPrimitive(s) && !t.isStringObject(s), 'a text');
        V.check(t.isPrimitive(s) && t.isPropertyKey(s) && !t.isTypeofObject(s) && !t.isObject(s), 'a primitive');
        V.check(V.iff(t.isFalsy(s), s.length === 0) && V.iff(t.isTruthy(s), s.length > 0), 'falsy only when empty');
        V.check(V.iff(t.isLengthyFilled(s), s.length > 0) && t.isLengthy(s), 'has a length');
        const b = V.bool('b');
        V.check(V.and(V.iff(t.isTrue(b), b), V.iff(t.isFalse(b), V.not(b)), t.isBoolean(b), t.isBooleanPrimitive(b), V.not(t.isBooleanObject(b)), V.iff(t.isFalsy(b), V.not(b)), V.iff(t.isTruthy(b), b)), 'booleans');
        return;
    }
    const x = V.fp('x');
    const size = V.and(Number.isInteger(x), x >= 0, x < 2 ** 53);
    V.cover(V.truth(size) ? 'filled' : 'no size');
    V.check(V.iff(t.isSizey({ size: x }), size), 'a size is a safe integer');
    V.check(V.iff(t.isSizeyFilled({ size: x }), V.and(size, x > 0)), 'filled: above zero');
    V.check(V.iff(t.isLengthy({ length: x }), size), 'a length too');
    V.check(V.iff(t.isLengthyFilled({ length: x }), V.and(size, x > 0)), 'filled: above zero');
    V.check(V.iff(t.isArrayLike({ length: x }), V.and(Number.isInteger(x), x >= 0, x < 2 ** 32)), 'like a list: a length that lists can have');
    V.check(V.iff(t.isArrayLikeFilled({ length: x }), V.and(Number.isInteger(x), x > 0, x < 2 ** 32)), 'and filled');
    for (const bad of ['1', null, undefined, {}, 1n]) V.check(!t.isSizey({ size: bad }) && !t.isLengthy({ length: bad }) && !t.isArrayLike({ length: bad }), 'nothing else');
};
exports.KINDS = KINDS;
