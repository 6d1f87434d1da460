'use strict';
// an assertion throws a TypeError exactly when its predicate says no
const { KINDS } = require('./T02_kinds.js');
const SPECIAL = { assertOwnProperty: 'hasOwnProperty', assertTagEqual: 'getTagEqual', assertTypeofEqual: 'typeofEqual' };
const ENVS = ['assertDeno', 'assertNodejs', 'assertWebWorker', 'assertBrowser'];
const VARIADIC = ['assertEqual', 'assertNotEqual', 'assertEvery', 'assertSome'];
const NUMBERS = ['assertFinite', 'assertNaN', 'assertNumber', 'assertNumberArray', 'assertNumberObject', 'assertNumberPrimitive'];
exports.bounds = ['every exported assertion with 70 kinds of values', 'every double for the assertions about numbers, with their option absent, false and true', 'every text of up to 2 units for the assertions about texts and keys', 'up to 2 compared values or conditions'];
exports.outside = ['what the predicates themselves say (T01, T02, T03)', 'isEvent, isFormData, isHTMLElement and streams of other platforms'];
exports.cases = tier => [
    { name: 'kinds', params: { what: 'kinds' } },
    { name: 'numbers', params: { what: 'numbers' } },
    { name: 'number options', params: { what: 'options' } },
    { name: 'texts', params: { what: 'texts' } },
    { name: 'arguments', params: { what: 'arguments' } },
    { name: 'compare', params: { what: 'compare' } },
    { name: 'conditions', params: { what: 'conditions' } }
];
exports.mustReach = () => ['passes', 'throws'];
exports.run = (V, { what }) => {
    const t = V.load('types');
    const a = V.load('asserts');
    const same = (name, args, want) => {
        const r = V.attempt(() => a[name](...args));
        V.cover(r.ok ? 'passes' : 'throws');
        V.check(V.iff(r.ok, want), name + ' passes exactly what its predicate accepts');
        if (!r.ok) V.check(r.error instanceof TypeError, 'otherwise a TypeError');
        else V.check(r.value === undefined, 'and gives nothing');
    };
    const pred = name => t[SPECIAL[name] || name.replace('assert', 'is')];
    if (what === 'kinds') {
        const kind = V.choice('kind', Object.keys(KINDS));
        const v = KINDS[kind][0]();
        let n = 0;
        for (const name of Object.keys(a)) {
            if (!name.startsWith('assert') || SPECIAL[name] || ENVS.includes(name) || VARIADIC.includes(name)) continue;
            const p = pred(name);
            if (typeof p !== 'function') continue;
            n++;
            const want = V.attempt(() => p(v));
            if (want.ok) same(name, [v, 'name'], want.value);
        }
        V.check(n > 100, 'the assertions are there');
        return;
    }
    if (what === 'numbers') {
        const x = V.fp('x');
        for (const name of NUMBERS.concat(['assertNumberFilled', 'assertNumberNegative', 'assertNumberPositive', 'assertNumberSafe', 'assertInfinity', 'assertInfinityNegative', 'assertInfinityPositive', 'assertZero', 'assertInt', 'assertUint', 'assertIntSafe', 'assertUintSafe', 'assertUint8', 'assertInt8', 'assertFloat', 'assertIntEven', 'assertIntOdd', 'assertTimeoutMs', 'assertFalsy', 'assertTruthy', 'assertArrayIndex', 'assertLeapYear']))
            if (a[name] && name !== 'assertLeapYear') same(name, [x, 'name'], V.truth(pred(name)(x)));
        return;
    }
    if (what === 'options') {
        const x = V.fp('x');
        const o = V.choice('option', [undefined, false, true]);
        for (const name of NUMBERS) same(name, name === 'assertNumberArray' ? [[x], 'name', o] : [x, 'name', o], V.truth(pred(name)(name === 'assertNumberArray' ? [x] : x, o)));
        for (const v of [Object(NaN), '1', 'x', null]) for (const name of NUMBERS) same(name, [v, 'name', o], pred(name)(v, o));
        const options = { implicit: o, allowNaN: V.choice('nan', [false, true]), allowInfinity: V.choice('infinity', [false, true]) };
        same('assertNumberValid', [x, 'name', options], V.truth(t.isNumberValid(x, options)));
        for (const v of ['1', '', 'x', null, true, undefined]) same('assertNumberValid', [v, 'name', options], t.isNumberValid(v, options));
        return;
    }
    if (what === 'texts') {
        const s = V.strUpTo('s', 0, 2);
        const n = V.choice('length', [undefined, 0, 1]);
        same('assertStringTrim', [s, 'name', n], V.truth(t.isStringTrim(s, n)));
        for (const name of ['assertString', 'assertStringFilled', 'assertChar', 'assertStringPrimitive', 'assertStringObject', 'assertFalsy', 'assertTruthy', 'assertPropertyKey', 'assertPrimitive', 'assertLengthyFilled'])
            same(name, [s, 'name'], V.truth(pred(name)(s)));
        const o = V.choice('holder', [{ ab: 1 }, Object.create({ ab: 1 }), 'xy', null]);
        same('assertOwnProperty', [o, 'name', s], V.truth(t.hasOwnProperty(o, s)));
        same('assertProperty', [o, 'name', s], V.truth(t.isProperty(o, s)));
        same('assertTagEqual', [{ [Symbol.toStringTag]: 'ab' }, 'name', s], V.truth(V.eq(s, 'ab')));
        same('assertTypeofEqual', [1, 'name', s], false);
        const e = new RangeError('m');
        same('assertSameError', [e, 'name', 'RangeError', s], V.truth(V.eq(s, 'm')));
        same('assertSameError', [new RangeError(s), 'name', 'RangeError', 'ab'], V.truth(V.eq(s, 'ab')));
        return;
    }
    if (what === 'arguments') {
        const level = V.choice('level', [undefined, 0, 1, 2, 3]);
        const objects = [{}, { a: 1 }, Object.defineProperty({}, 'a', { value: 1 }), { [Symbol('s')]: 1 }, Object.create(null), Object.assign(Object.create({}), { a: 1 })];
        for (const o of objects) for (const name of ['assertObjectFilled', 'assertPlainObjectFilled']) same(name, [o, 'name', level], pred(name)(o, level));
        if (level !== 3) for (const o of [{ length: 1 }, { length: 1, 0: 1 }, { length: 1, 0: 1, x: 1 }, { length: 1, 1: 1 }]) same('assertArrayLike', [o, 'name', level], t.isArrayLike(o, level));
        for (const extra of [undefined, true, false]) for (const d of [{ value: 1 }, { value: 1, x: 1 }, { get: () => 1, x: 1 }, {}]) same('assertPropertyDescriptor', [d, 'name', extra], t.isPropertyDescriptor(d, extra));
        class A {}
        for (const [o, v] of [[A.prototype, new A()], [A.prototype, {}], [Object.prototype, new A()], [null, {}]]) same('assertPrototypeOf', [o, 'name', v], t.isPrototypeOf(o, v));
        for (const [v, s] of [[1, 'number'], [1, 'string'], [null, 'object'], [undefined, 'undefined']]) same('assertTypeofEqual', [v, 'name', s], typeof v === s);
        const dom = { [Symbol.toStringTag]: 'DOMException', name: 'AbortError' };
        for (const n of [undefined, '', 'AbortError', 'Other']) same('assertDOMException', [dom, 'name', n], !n || n === 'AbortError');
        for (const yes of [true, false]) {
            const ask = x => (V.check(x === dom, 'asks about the value'), yes);
            same('assertWindow', [dom, 'name', ask], yes);
            same('assertDocument', [dom, 'name', ask], yes);
        }
        for (const [n, m] of [['Error', 'x'], ['Error', 'y'], ['TypeError', 'x']]) same('assertSameError', [new Error('x'), 'name', n, m], n === 'Error' && m === 'x');
        for (const name of ENVS) same(name, [], V.truth(pred(name)()));
        return;
    }
    if (what === 'compare') {
        const x = [V.int('x0', -9, 9), NaN, '1', undefined][V.size('which', 0, 3)];
        const n = V.size('n', 0, 2);
        const more = [];
        for (let i = 0; i < n; i++) {
            const c = V.choice('other' + i, ['number', 'itself', 'text', 'NaN', 'missing']);
            more.push(c === 'number' ? V.int('k' + i, -9, 9) : c === 'itself' ? x : c === 'text' ? '1' : c === 'NaN' ? NaN : undefined);
        }
        same('assertEqual', [x, ...more], V.truth(t.isEqual(x, ...more)));
        same('assertNotEqual', [x, ...more], V.truth(t.isNotEqual(x, ...more)));
        return;
    }
    const n = V.size('n', 0, 2);
    const list = [];
    for (let i = 0; i < n; i++) list.push(V.int('v' + i, -2, 2));
    const k = V.size('conditions', 0, 2);
    const conditions = [];
    for (let i = 0; i < k; i++) {
        const m = V.int('m' + i, -2, 2);
        conditions.push(y => V.truth(y >= m));
    }
    const one = k === 1 ? conditions[0] : conditions;
    const v = n === 1 ? list[0] : list;
    same('assertEvery', [v, one], V.truth(t.isEvery(v, one)));
    same('assertSome', [v, one], V.truth(t.isSome(v, one)));
};
