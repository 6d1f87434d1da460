'use strict';
// what each number predicate says of a number x, in terms of its value only
const two = k => 2 ** k;
exports.bounds = ['every double (all 2^64 bit patterns up to the choice of NaN); lists of up to 2 of them (thorough 3), equality and conditions among up to 3; primes up to 600 (thorough 5000); years up to 99999; twenty values that are no numbers'];
exports.outside = ['rounding to half and single precision: the float predicates look at the range only, as documented', 'bigint values (T02)'];
exports.stubs = ['Math.sqrt: exact for squares, otherwise the middle of the two integers around the root (it is compared with integers only)'];
exports.cases = tier => {
    const q = tier === 'quick';
    return [
        { name: 'double', params: { what: 'double' } },
        { name: 'integers', params: { what: 'integers' } },
        { name: 'floats', params: { what: 'floats' } },
        { name: 'implicit', params: { what: 'implicit' } },
        ...[0, 1, 2].map(n => ({ name: 'list of ' + n, params: { what: 'lists', n } })),
        ...(q ? [] : [{ name: 'list of 3', params: { what: 'lists', n: 3 } }]),
        ...[1, 2, 3].map(n => ({ name: 'among ' + n, params: { what: 'among', n } })),
        { name: 'prime', params: { what: 'prime', top: q ? 600 : 5000 } },
        { name: 'leap', params: { what: 'leap' } },
        { name: 'others', params: { what: 'others' } }
    ];
};
exports.mustReach = () => ['nan', 'integer', 'fraction', 'infinite', 'prime', 'divisible', 'leap', 'no number'];
exports.run = (V, { what, top, n }) => {
    // a number between two integers compares like their middle with integers
    V.env.Math.sqrt = x => {
        if (V.truth(x < 0)) return NaN;
        let s = 0;
        while (V.truth((s + 1) * (s + 1) <= x)) s++;
        return V.truth(V.eq(s * s, x)) ? s : s + 0.5;
    };
    const t = V.load('types');
    const whole = x => Number.isInteger(x);
    const nan = x => V.not(V.or(x < 0, x >= 0));
    const fin = x => V.and(x > -Infinity, x < Infinity);
    const even = x => V.and(whole(x), V.eq(x % 2, 0));
    const INTS = {
        isInt: whole,
        isInt8: x => V.and(whole(x), x >= -two(7), x < two(7)),
        isInt16: x => V.and(whole(x), x >= -two(15), x < two(15)),
        isInt32: x => V.and(whole(x), x >= -two(31), x < two(31)),
        isUint: x => V.and(whole(x), x >= 0),
        isUint8: x => V.and(whole(x), x >= 0, x < two(8)),
        isUint16: x => V.and(whole(x), x >= 0, x < two(16)),
        isUint32: x => V.and(whole(x), x >= 0, x < two(32)),
        isUintFilled: x => V.and(whole(x), x > 0),
        isIntSafe: x => V.and(whole(x), x > -two(53), x < two(53)),
        isUintSafe: x => V.and(whole(x), x >= 0, x < two(53)),
        isUintSafeFilled: x => V.and(whole(x), x > 0, x < two(53)),
        isIntEven: even,
        isIntOdd: x => V.and(whole(x), V.not(even(x))),
        isTimeoutMs: x => V.and(whole(x), x >= 0, x < two(31))
    };
    const NUMS = {
        isNumber: x => V.not(nan(x)),
        isNumberPrimitive: x => V.not(nan(x)),
        isNumberObject: () => false,
        isNumberSafe: fin,
        isNumberFilled: x => V.and(fin(x), V.or(x < 0, x > 0)),
        isNumberNegative: x => V.and(fin(x), x < 0),
        isNumberPositive: x => V.and(fin(x), x > 0),
        isFinite: fin,
        isNaN: nan,
        isInfinity: x => V.not(V.or(fin(x), nan(x))),
        isInfinityNegative: x => V.and(V.not(fin(x)), x < 0),
        isInfinityPositive: x => V.and(V.not(fin(x)), x > 0),
        isZero: x => V.and(x >= 0, x <= 0),
        isFalsy: x => V.or(nan(x), V.and(x >= 0, x <= 0)),
        isTruthy: x => V.not(V.or(nan(x), V.and(x >= 0, x <= 0))),
        isPrimitive: () => true,
        isPropertyKey: () => true
    };
    const frac = x => V.and(fin(x), V.not(whole(x)));
    const abs = (x, top) => V.and(x >= -top, x <= top);
    const FLOATS = {
        isFloat: frac,
        isUFloat: x => V.and(frac(x), x > 0),
        isFloat16: x => V.and(frac(x), abs(x, (2 - two(-10)) * two(15))),
        isFloat32: x => V.and(frac(x), abs(x, (2 - two(-23)) * two(127))),
        isFloat64: frac,
        isFloat16SafeInt: x => V.and(whole(x), abs(x, two(11) - 1)),
        isFloat32SafeInt: x => V.and(whole(x), abs(x, two(24) - 1)),
        isFloat64SafeInt: x => V.and(whole(x), abs(x, two(53) - 1))
    };
    const table = (x, T) => {
        for (const k of Object.keys(T)) {
            const r = t[k](x);
            V.check(typeof r === 'boolean', k + ' says yes or no');
            V.check(V.iff(r, T[k](x)), k);
        }
    };
    if (what === 'double' || what === 'integers' || what === 'floats') {
        const x = V.fp('x');
        V.cover(V.truth(nan(x)) ? 'nan' : V.truth(V.not(fin(x))) ? 'infinite' : V.truth(whole(x)) ? 'integer' : 'fraction');
        table(x, what === 'double' ? NUMS : what === 'integers' ? INTS : FLOATS);
        if (what === 'integers') V.check(V.iff(t.isArrayIndex(x), V.and(whole(x), x >= 0, x < two(32))), 'isArrayIndex');
        return;
    }
    if (what === 'implicit') {
        const x = V.fp('x');
        const o = { implicit: V.choice('implicit', [undefined, true, false]), allowNaN: V.choice('allowNaN', [undefined, true, false]), allowInfinity: V.choice('allowInfinity', [undefined, true, false]) };
        const r = t.isNumberValid(x, o);
        V.check(V.iff(r, V.and(V.or(!!o.allowNaN, V.not(nan(x))), V.or(!!o.allowInfinity, fin(x), nan(x)))), 'isNumberValid with its options');
        for (const i of [true, false]) {
            V.check(V.iff(t.isFinite(x, i), fin(x)), 'isFinite');
            V.check(V.iff(t.isNaN(x, i), nan(x)), 'isNaN');
            V.check(V.iff(t.isNumber(x, i), V.or(i, V.not(nan(x)))), 'isNumber, NaN when allowed');
            V.check(V.iff(t.isNumberPrimitive(x, i), V.or(i, V.not(nan(x)))), 'isNumberPrimitive, NaN when allowed');
        }
        return;
    }
    if (what === 'lists') {
        const list = [];
        for (let i = 0; i < n; i++) list.push(V.fp('l' + i));
        const odd = V.choice('odd', ['none', 'text', 'hole', 'object']);
        if (odd === 'text') list.push('1');
        if (odd === 'hole') list.length++;
        if (odd === 'object') list.push(Object(NaN));
        const given = list.slice();
        for (const allow of [false, true]) {
            const r = t.isNumberArray(list, allow);
            const want = V.and(list.length > 0, odd !== 'text', odd !== 'object' || allow, ...list.slice(0, n).map(x => V.or(allow, V.not(nan(x)))));
            V.check(V.iff(r, want), 'a list of numbers has one at least and nothing else');
        }
        V.check(given.length === list.length, 'nothing changed');
        return;
    }
    if (what === 'among') {
        const list = [];
        for (let i = 0; i < n; i++) list.push(V.fp('l' + i));
        V.check(V.iff(t.isEvery(list.slice(0, n), t.isNumber), V.and(true, ...list.slice(0, n).map(x => V.not(nan(x))))), 'isEvery asks each condition for each value alone');
        V.check(V.iff(t.isSome(list.slice(0, n), t.isNumber), V.or(false, ...list.slice(0, n).map(x => V.not(nan(x))))), 'isSome likewise');
        V.check(V.iff(t.isEvery(list.slice(0, n), [t.isNumber, t.isInt]), V.and(true, ...list.slice(0, n).map(whole))), 'with several conditions');
        V.check(V.iff(t.isSome(list.slice(0, n), [t.isNumber, t.isInt]), V.or(false, ...list.slice(0, n).map(whole))), 'all of them for the same value');
        if (n) {
            const [x, ...more] = list.slice(0, n);
            const same = y => V.or(V.and(x <= y, x >= y), V.and(nan(x), nan(y)));
            V.check(V.iff(t.isEqual(x, ...more), V.and(more.length > 0, ...more.map(same))), 'isEqual: all others equal, NaN to NaN');
            V.check(V.iff(t.isNotEqual(x, ...more), V.and(more.length > 0, ...more.map(y => V.not(same(y))))), 'isNotEqual: all others differ');
        }
        return;
    }
    if (what === 'prime') {
        const x = V.int('p', -5, top);
        const r = V.truth(t.isPrimeNumber(x));
        V.cover(r ? 'prime' : 'divisible');
        const divides = [];
        for (let d = 2; d * d <= top; d++) divides.push(V.and(V.eq(x % d, 0), x > d));
        const composite = V.or(false, ...divides);
        V.check(V.iff(r, V.and(x >= 2, V.not(composite))), 'prime: without a divisor but 1 and itself');
        return;
    }
    if (what === 'leap') {
        const y = V.int('y', -10, 99999);
        const days = y => 365 * y + Math.floor(y / 4) - Math.floor(y / 100) + Math.floor(y / 400);
        const r = V.truth(t.isLeapYear(y));
        if (r) V.cover('leap');
        V.check(V.iff(r, V.and(y > 0, V.eq(days(y) - days(y - 1), 366))), 'a leap year has 366 days');
        const x = V.fp('x');
        V.assume(V.or(V.not(whole(x)), x < 1, x >= two(53)));
        V.check(V.not(t.isLeapYear(x)), 'only safe positive integers are years');
        return;
    }
    V.cover('no number');
    const list = [undefined, null, '', '1', 'x', true, false, Symbol('s'), {}, [], [1], () => 1, new Date(1), Object('1'), Object(1n), new Map(), Object.create(null), { valueOf: () => 1 }, { [Symbol.toPrimitive]() { throw new Error('x'); } }, /a/];
    const v = V.choice('v', list);
    for (const k of [...Object.keys(INTS), ...Object.keys(FLOATS), ...Object.keys(NUMS), 'isPrimeNumber', 'isLeapYear', 'isNumberArray']) {
        if (['isFalsy', 'isTruthy', 'isPrimitive', 'isPropertyKey'].includes(k)) continue;
        const r = V.attempt(() => t[k](v));
        V.check(r.ok && r.value === (k === 'isNumberArray' && Array.isArray(v) && v.length === 1), k + ' of a value that is no number');
    }
    for (const implicit of [true, false]) {
        const r = V.attempt(() => t.isNumberValid(v, { implicit }));
        const n = V.attempt(() => Number(v));
        const want = implicit ? v !== undefined && n.ok && n.value === n.value : ['1'].includes(String(typeof v === 'string' || v instanceof String ? v : ''));
        V.check(r.ok && r.value === want, 'isNumberValid: what can be converted');
    }
};
