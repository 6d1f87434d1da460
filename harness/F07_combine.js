'use strict';
exports.bounds = ['up to 3 functions and 3 arguments of any integer value; every way of splitting up to 4 arguments over calls, with empty calls; functions that return, throw, resolve or reject after any delay of 0..20 ms; aborts at any time of 0..20 ms'];
exports.stubs = ['virtual clock'];
const CHAIN = ['after', 'before', 'withAfter', 'withBefore', 'applyAfter', 'applyBefore'];
exports.cases = tier => {
    const out = [];
    for (const f of CHAIN) out.push({ name: f, params: { f } });
    for (let n = 0; n <= 4; n++) out.push({ name: 'compose' + n, params: { f: 'compose', n } }, { name: 'currying' + n, params: { f: 'currying', n } });
    for (const f of ['bind', 'toggle', 'singletonClass', 'select', 'deferred', 'cancelExec', 'ifThrow', 'noCatch', 'tryCatch', 'padding', 'executeToPromise', 'toPromise']) out.push({ name: f, params: { f, deep: tier !== 'quick' } });
    return out;
};
exports.run = async (V, { f, n, deep }) => {
    const lib = V.load('function');
    const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
    if (CHAIN.includes(f)) {
        const log = [];
        const x = V.array(V.size('nx', 0, 2), i => ({ x: i }));
        const y = V.array(V.size('ny', 0, 3), i => ({ y: i }));
        const bad = V.choice('bad', ['none', 'target', 'extra']);
        const err = new Error('planned');
        const ret = { target: {}, extra: {} };
        const mk = name => (...a) => {
            log.push([name, ...a]);
            if (bad === name) throw err;
            return ret[name];
        };
        const target = mk('target');
        const extra = mk('extra');
        const beforeTypes = f === 'withBefore' || f === 'applyBefore';
        const r = V.attempt(() => (beforeTypes ? lib[f](extra)(target, ...y) : lib[f](extra, ...x)(target, ...y)));
        // order of the two calls, their arguments and the result
        const first = /before/i.test(f) ? 'extra' : 'target';
        const second = first === 'extra' ? 'target' : 'extra';
        const argsOf = {
            after: { target: y, extra: x }, before: { target: y, extra: x }, withAfter: { target: y, extra: [ret.target, ...x] }, applyAfter: { target: y, extra: [ret.target, ...x] },
            withBefore: { extra: y, target: [ret.extra] }, applyBefore: { extra: y, target: [ret.extra] }
        }[f];
        const result = { after: 'target', before: 'target', withAfter: 'target', applyAfter: 'extra', withBefore: 'extra', applyBefore: 'target' }[f];
        V.observe([r.ok, log.length]);
        V.check(log.length === (bad === first ? 1 : 2), 'both functions run once, the second only after the first succeeded');
        V.check(same(log[0], [first, ...argsOf[first]]), 'the first function gets its arguments');
        if (log.length > 1) V.check(same(log[1], [second, ...argsOf[second]]), 'the second function gets its arguments');
        V.check(r.ok === (bad === 'none'), 'a failure of either function is passed on');
        V.check(r.ok ? r.value === ret[result] : r.error === err, 'the result is that of the documented function');
        return;
    }
    if (f === 'compose') {
        const k = V.array(n, i => V.int('k' + i, -9, 9));
        const x = V.int('x', -99, 99);
        const log = [];
        const r = lib.compose(...k.map((c, i) => v => {
            log.push(i);
            return i % 2 ? v * 3 - c : v + c;
        }))(x);
        const odd = V.choice('odd', [new Error('e'), undefined, null, [], NaN]);
        const passed = lib.compose(v => (V.check(v === 1, 'the first gets the argument'), odd), v => [v], v => [v, 2])(1);
        V.check(passed.length === 2 && Object.is(passed[0][0], odd) && passed[1] === 2, 'results of all kinds are passed on');
        let want = x;
        for (let i = 0; i < n; i++) want = i % 2 ? want * 3 - k[i] : want + k[i];
        V.observe(r);
        V.check(r === want, 'each function gets the result of the one before it');
        V.check(log.length === n && log.every((v, i) => v === i), 'functions run once, from left to right');
        return;
    }
    if (f === 'currying') {
        const calls = [];
        const sum = [() => 0, a => 0, (a, b) => 0, (a, b, c) => 0, (a, b, c, d) => 0][n];
        const res = {};
        const fn = [
            (...a) => (calls.push(a), res), (a, ...r) => (calls.push([a, ...r]), res), (a, b, ...r) => (calls.push([a, b, ...r]), res),
            (a, b, c, ...r) => (calls.push([a, b, c, ...r]), res), (a, b, c, d, ...r) => (calls.push([a, b, c, d, ...r]), res)][n];
        const all = [];
        let cur = lib.currying(fn);
        const again = cur;
        let steps = 0;
        for (;;) {
            const k = V.size('call' + steps++, steps === 1 || n === 0 ? 0 : steps > 3 ? 1 : 0, n > 2 ? 3 : 2);
            const args = V.array(k, i => V.int(`a${steps}_${i}`, 0, 9));
            all.push(...args);
            cur = cur(...args);
            if (all.length >= n) break;
            V.check(typeof cur === 'function' && calls.length === 0, 'the function waits for all its arguments');
        }
        V.observe(all.length);
        V.check(calls.length === 1 && cur === res, 'the function runs once, when the last argument is there');
        V.check(same(calls[0], all), 'the function gets every argument of every call in order');
        if (n > 0) {
            // partial applications are independent of each other
            const p = again(1);
            if (n > 1) {
                p(...V.array(n - 1, () => 2));
                p(...V.array(n - 1, () => 3));
                V.check(calls.length === 3 && calls[2][0] === 1 && calls[2].slice(1).every(v => v === 3), 'a partial application can be used again');
            }
        }
        return;
    }
    if (f === 'bind') {
        const ctx = { tag: 1 };
        const args = V.array(V.choice('n', [0, 1, 2, 3, 6]), i => (i === 4 ? undefined : V.int('a' + i, 0, 9)));
        let got;
        const act = (me, a) => {
            got = [me, a];
            return a.length;
        };
        const form = V.choice('form', [
            function (...a) { return act(this, a); },
            function (a, b) { return act(this, [...arguments]); },
            function (a, b, c, d) { return act(this, [...arguments]); }
        ]);
        const b = lib.bind(form, ctx);
        const r = b.call({ other: 1 }, ...args);
        V.check(got[0] === ctx && same(got[1], args) && r === args.length, 'the function always runs on its context with the call arguments');
        return;
    }
    if (f === 'toggle') {
        const kind = V.choice('kind', ['numbers', NaN, undefined, '', null]);
        const l = kind === 'numbers' ? V.int('l', 0, 3) : kind;
        const r = kind === 'numbers' ? V.int('r', 0, 3) : V.choice('r', [0, NaN, 'x', undefined]);
        const isSame = (a, b) => V.or(a === b, V.and(a !== a, b !== b));
        const t = lib.toggle(l, r);
        let right = false;
        V.check(isSame(t.value, l), 'the value starts as the default');
        for (let i = 0; i < (deep ? 6 : 4); i++) {
            const op = V.choice('op' + i, ['toggle', 'left', 'right']);
            if (op === 'toggle') {
                right = !right;
                V.check(isSame(t.toggle(), right ? r : l), 'toggling returns the new value');
            } else {
                right = op === 'right';
                V.check((right ? t.setRight() : t.setLeft()) === undefined, 'setting returns nothing');
            }
            V.check(isSame(t.value, right ? r : l), 'the value follows the operations');
        }
        return;
    }
    if (f === 'singletonClass') {
        const singletonClass = V.load('function/src/class/singletonClass');
        const made = [];
        class Base {
            constructor(v) {
                this.v = v;
                made.push(this);
            }
            get() {
                return this.v;
            }
        }
        const order = V.choice('order', ['before', 'after', 'never']);
        Base[Symbol.for('other')] = 1;
        const S = singletonClass(Base);
        class Sub extends S {}
        // a class of its own, made a singleton as well
        class Own extends Base {}
        const O = singletonClass(Own);
        const W = singletonClass(Sub);
        const first = order === 'before' ? [new O(77), new W(78)] : null;
        const v = V.array(4, i => V.int('v' + i, 0, 9));
        const subAt = V.size('sub', 0, 4);
        let one = null;
        for (let i = 0; i < 4; i++) {
            if (i === subAt) {
                const x = new Sub(v[i]);
                V.check(x !== one && x.v === v[i] && x instanceof Sub, 'subclasses make objects of their own');
                continue;
            }
            const x = new S(v[i]);
            if (!one) {
                one = x;
                V.check(x.get() === v[i] && x instanceof Base, 'the first instance is made from its arguments');
            } else V.check(x === one && x.get() === V.ite(subAt === 0, v[1], v[0]), 'every later instance is the first one, unchanged');
        }
        if (order === 'never') return;
        const a = new O(87);
        const b = new W(88);
        V.check(a instanceof Own && b instanceof Sub && a !== one && b !== one, 'classes derived from a singleton have singletons of their own');
        V.check(first ? a === first[0] && b === first[1] && a.v === 77 && b.v === 78 : a.v === 87 && b.v === 88 && new O(1) === a && new W(1) === b, 'and only one each');
        return;
    }
    if (f === 'deferred') {
        const d = lib.deferred();
        const v = {};
        const w = {};
        const how = V.choice('how', ['resolve', 'reject']);
        const later = V.choice('later', ['resolve', 'reject']);
        V.env.setTimeout(() => d[how](v), V.int('t', 1, 5));
        V.env.setTimeout(() => d[later](w), 6);
        const s = await V.settle(d.promise);
        V.check(s.status === (how === 'resolve' ? 'fulfilled' : 'rejected') && (s.value || s.reason) === v, 'the promise settles the first way it is told to');
        return;
    }
    // tasks in every form
    const count = V.choice('n', [0, 2, 6]);
    const args = count === 6 ? [{ arg: 0 }, undefined, null, [1], undefined, 0] : V.array(count, i => ({ arg: i }));
    const err = ['padding', 'ifThrow', 'noCatch', 'executeToPromise', 'toPromise'].includes(f) ? V.choice('err', [new Error('planned'), undefined, null, 0, 'text']) : new Error('planned');
    const mkTask = (name, kinds) => {
        const t = { kind: V.choice(name, kinds), calls: [], value: { name }, d: 0 };
        if (t.kind === 'late' || t.kind === 'fail') t.d = V.int(name + '_d', 1, 20);
        if (t.kind === 'falsy') t.value = V.choice(name + '_falsy', [0, '', false, null]);
        t.bad = t.kind === 'fail' || t.kind === 'throw' || t.kind === 'rejected';
        t.input = t.kind === 'value' || t.kind === 'falsy' ? t.value : t.kind === 'none' ? undefined : t.kind === 'promise' ? Promise.resolve(t.value) : t.kind === 'rejected' ? Promise.reject(err) : (...a) => {
            t.calls.push(a);
            if (t.kind === 'throw') throw err;
            if (t.kind === 'sync') return t.value;
            return new Promise((ok, no) => V.env.setTimeout(() => (t.kind === 'fail' ? no(err) : ok(t.value)), t.d));
        };
        if (t.kind === 'rejected') t.input.catch(() => {});
        t.isFn = typeof t.input === 'function';
        t.out = t.kind === 'none' ? undefined : t.value;
        return t;
    };
    const ran = (t, k, a = args) => t.calls.length === (t.isFn ? k : 0) && t.calls.every(c => same(c, a));
    const ALL = ['value', 'falsy', 'promise', 'rejected', 'sync', 'throw', 'late', 'fail'];
    if (f === 'select') {
        const cond = { form: V.choice('form', ['plain', 'promise', 'function', 'async']), want: V.choice('want', [true, false, 1, 0, '', null]) };
        const condCalls = [];
        const c = cond.form === 'plain' ? cond.want : cond.form === 'promise' ? Promise.resolve(cond.want) : (...a) => {
            condCalls.push(a);
            return cond.form === 'async' ? Promise.resolve(cond.want) : cond.want;
        };
        const doIf = mkTask('if', deep ? ALL : ['value', 'rejected', 'sync', 'throw']);
        const doElse = mkTask('else', deep ? ALL : ['value', 'promise', 'late', 'fail']);
        const s = await V.settle(lib.select(c, doIf.input, doElse.input, ...args));
        const [yes, no] = cond.want ? [doIf, doElse] : [doElse, doIf];
        V.observe(s.status);
        V.check(condCalls.every(a => same(a, args)) && condCalls.length === (cond.form === 'function' || cond.form === 'async' ? 1 : 0), 'the condition is evaluated once with the arguments');
        V.check(ran(yes, 1) && ran(no, 0), 'only the chosen branch runs, with the arguments');
        V.check(s.status === (yes.bad ? 'rejected' : 'fulfilled') && (yes.bad ? s.reason === err : s.value === yes.out), 'the outcome is that of the chosen branch');
        return;
    }
    if (f === 'cancelExec') {
        const t = mkTask('task', ['promise', 'sync', 'throw', 'late', 'fail']);
        const pay = mkTask('pay', ['value', 'falsy', 'none', 'promise', 'rejected', 'sync', 'throw']);
        const [p, abort] = lib.cancelExec(t.input, ...args);
        const at = V.int('at', 1, 20);
        let aborted = false;
        V.env.setTimeout(() => {
            aborted = true;
            abort(pay.input);
        }, at);
        const s = await V.settle(p);
        V.observe(s.status);
        const slow = t.kind === 'late' || t.kind === 'fail';
        V.check(ran(t, 1), 'the function runs once with the arguments');
        const won = slow && V.truth(at < t.d) ? pay : slow && V.truth(at === t.d) ? null : t;
        if (won) {
            V.check(s.status === (won.bad ? 'rejected' : 'fulfilled') && (won.bad ? s.reason === err : s.value === won.out), 'the outcome is that of the function, or of the payload when aborted before');
            if (won === pay) V.check(ran(pay, 1), 'a payload function runs once with the arguments');
        }
        while (V.fireNext()) await V.flush();
        return;
    }
    const t = mkTask('task', f === 'tryCatch' ? ['sync', 'throw', 'late', 'fail'] : ALL);
    if (f === 'ifThrow') {
        const back = mkTask('back', ['value', 'falsy', 'none', 'promise', 'sync', 'throw', 'late', 'fail']);
        const err2 = back.bad ? err : null;
        const s = await V.settle(lib.ifThrow(t.input, back.input, ...args));
        V.check(ran(t, 1), 'the task runs once with the arguments');
        V.check(ran(back, t.bad ? 1 : 0, [err, ...args]), 'the fallback runs only after a failure, with the error and the arguments');
        const end = t.bad ? back : t;
        V.check(s.status === (end.bad ? 'rejected' : 'fulfilled') && (end.bad ? s.reason === err : s.value === end.out), 'the outcome is that of the task, or of the fallback after a failure');
        return;
    }
    const isExec = f === 'executeToPromise' || f === 'toPromise';
    let p;
    const r = V.attempt(() => (p = isExec ? lib[f](t.input, args) : lib[f](t.input, ...args)));
    V.check(r.ok && p instanceof Promise, 'a promise comes back, whatever happens');
    const s = await V.settle(p);
    V.check(ran(t, 1), 'the task runs once with the arguments');
    if (f === 'noCatch') V.check(s.status === 'fulfilled' && s.value === (t.bad ? undefined : t.out), 'failures turn into nothing, results pass');
    else if (f === 'padding') V.check(s.status === 'fulfilled' && s.value.length === 2 && s.value[0] === (t.bad ? null : t.out) && s.value[1] === (t.bad ? err : null), 'the result is a pair of value and error');
    else V.check(s.status === (t.bad ? 'rejected' : 'fulfilled') && (t.bad ? s.reason === err : s.value === t.out), 'the outcome is that of the task');
};
