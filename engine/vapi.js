'use strict';
// The interface harnesses are written against. In symbolic mode inputs are
// SMT variables and checks are solver queries; in concrete mode (replay and
// translation validation) inputs come from a model and checks are evaluated.
const T = require('./terms');
const rt = require('./runtime');
const V = require('./values');
const { SymInt, SymFP, SymStr, SymBool, isSym, mkBool, mkStr, units } = V;
const { Loader } = require('./loader');
const { EngineSignal, CheckFailed } = require('./explore');

const drain = () => new Promise(r => setImmediate(r));
class ConcreteFail extends Error {}
class ConcreteSkip extends Error {}

/* ------------------------------------------------------ virtual time, env */
function makeEnv(v) {
    let seq = 0;
    const timers = new Map();
    const lt = (a, b) => rt.truth(rt.S.lt(a, b));
    const clock = { now: 1700000000000 };
    const add = (fn, ms, args, every) => {
        if (typeof fn !== 'function') throw new TypeError('callback must be a function');
        let d = ms === undefined ? 1 : v.sym ? rt.toNum(ms) : Number(ms);
        if (!isSym(d)) {
            if (!(d >= 1 && d <= 2147483647)) d = 1;
            d = Math.trunc(d);
        } else if (rt.truth(rt.S.lt(d, 1)) || rt.truth(rt.S.gt(d, 2147483647))) d = 1;
        const id = ++seq;
        const handle = {
            id,
            unref() { return handle; },
            ref() { return handle; },
            hasRef() { return true; },
            [Symbol.toPrimitive]() { return id; }
        };
        timers.set(id, { id, at: v.sym ? rt.S.add(clock.now, d) : clock.now + d, fn, args, every: every ? d : null, handle });
        return handle;
    };
    const clear = h => {
        if (h && typeof h === 'object') timers.delete(h.id);
        else if (typeof h === 'number') timers.delete(h);
    };
    const env = {
        setTimeout: (f, ms, ...a) => add(f, ms, a, false),
        setInterval: (f, ms, ...a) => add(f, ms, a, true),
        setImmediate: (f, ...a) => add(f, 1, a, false),
        clearTimeout: clear,
        clearInterval: clear,
        clearImmediate: clear
    };
    env.timers = timers;
    env.clock = clock;
    env.fireNext = () => {
        let best = null;
        for (const t of timers.values()) if (!best || (v.sym ? lt(t.at, best.at) : t.at < best.at)) best = t;
        if (!best) return false;
        if (best.every !== null) best.at = v.sym ? rt.S.add(best.at, best.every) : best.at + best.every;
        else timers.delete(best.id);
        const at = best.every !== null ? (v.sym ? rt.S.sub(best.at, best.every) : best.at - best.every) : best.at;
        if (v.sym ? lt(clock.now, at) : clock.now < at) clock.now = at;
        best.fn(...best.args);
        return true;
    };
    const RealDate = Date;
    class VDate extends RealDate {
        constructor(...a) {
            if (a.length === 0) super(rt.concretise(clock.now, 'clock'));
            else if (v.sym && a.length === 1 && a[0] instanceof SymInt && a[0].t.lo >= -8.64e15 && a[0].t.hi <= 8.64e15) {
                super(0);
                dates.set(this, a[0].t);
            } else super(...a.map(x => rt.concretise(x, 'Date')));
        }
        static now() {
            return clock.now;
        }
    }
    Object.defineProperty(VDate, 'name', { value: 'Date' });
    if (v.sym) symbolicDates(VDate, RealDate);
    env.Date = VDate;
    env.performance = { now: () => (v.sym ? rt.S.sub(clock.now, 1700000000000) : clock.now - 1700000000000) };
    const M = {};
    for (const k of Object.getOwnPropertyNames(Math)) M[k] = Math[k];
    M[Symbol.toStringTag] = 'Math';
    env.randomBits = 20;
    let rnd = 0;
    env.random = () => {
        const d = 2 ** env.randomBits;
        const n = v.int('rnd' + rnd++, 0, d - 1);
        return v.sym ? rt.S.div(n, d) : n / d;
    };
    M.random = () => env.random();
    env.Math = M;
    env.crypto = undefined;
    env.console = { log() {}, info() {}, warn() {}, error() {}, debug() {}, table() {}, dir() {}, time() {}, timeEnd() {}, clear() {}, trace() {}, group() {}, groupEnd() {} };
    env.process = makeProcess();
    env.fetch = undefined;
    env.window = undefined;
    env.navigator = undefined;
    env.document = undefined;
    env.queueMicrotask = queueMicrotask;
    env.globalThis = globalThis;
    env.Function = Function;
    env.Uint32Array = Uint32Array;
    env.Uint8Array = Uint8Array;
    env.Buffer = Buffer;
    env.MutationObserver = undefined;
    env.WebKitMutationObserver = undefined;
    return env;
}
// dates at an unknown number of milliseconds; local time is UTC
const dates = new WeakMap();
function symbolicDates(VDate, RealDate) {
    const within = (t, unit, n) => T.imod(T.idiv(t, unit), n);
    const civil = t => {
        const z = T.add(T.idiv(t, 864e5), 719468);
        const doe = T.imod(z, 146097);
        const yoe = T.idiv(T.add(T.add(doe, T.neg(T.idiv(doe, 1460))), T.add(T.idiv(doe, 36524), T.neg(T.idiv(doe, 146096)))), 365);
        const doy = T.add(doe, T.neg(T.add(T.scale(yoe, 365), T.add(T.idiv(yoe, 4), T.neg(T.idiv(yoe, 100))))));
        const mp = T.idiv(T.add(T.scale(doy, 5), 2), 153);
        const day = T.add(doy, T.add(1, T.neg(T.idiv(T.add(T.scale(mp, 153), 2), 5))));
        const late = T.le(10, mp);
        return { day, month: T.iite(late, T.add(mp, -10), T.add(mp, 2)), year: T.add(T.add(yoe, T.scale(T.idiv(z, 146097), 400)), T.iite(late, 1, 0)) };
    };
    const known = {
        Time: t => t,
        Milliseconds: t => T.imod(t, 1000),
        Seconds: t => within(t, 1000, 60),
        Minutes: t => within(t, 60000, 60),
        Hours: t => within(t, 3600000, 24),
        Day: t => T.imod(T.add(T.idiv(t, 864e5), 4), 7),
        Date: t => civil(t).day,
        Month: t => civil(t).month,
        FullYear: t => civil(t).year
    };
    for (const name of Reflect.ownKeys(RealDate.prototype)) {
        if (name === 'constructor' || typeof RealDate.prototype[name] !== 'function') continue;
        const real = RealDate.prototype[name];
        const part = typeof name === 'string' && /^get(UTC)?([A-Z]\w*)$/.exec(name);
        const f = name === 'valueOf' ? known.Time : name === 'getTimezoneOffset' ? () => 0 : part && Object.hasOwn(known, part[2]) ? known[part[2]] : null;
        const g = {
            [name](...args) {
                const t = dates.get(this);
                if (t === undefined) return real.apply(this, args);
                if (name === Symbol.toPrimitive && args[0] === 'number') return rt.mkInt(t);
                if (f) {
                    const r = f(t);
                    return T.isT(r) ? rt.mkInt(r) : r;
                }
                dates.delete(this);
                RealDate.prototype.setTime.call(this, rt.concretise(rt.mkInt(t), 'Date'));
                return real.apply(this, args);
            }
        };
        Object.defineProperty(VDate.prototype, name, { value: g[name], writable: true, configurable: true, enumerable: false });
    }
}
function makeProcess() {
    return {
        platform: 'linux',
        env: {},
        argv: ['node', 'script'],
        version: process.version,
        versions: process.versions,
        pid: 4242,
        cwd: () => '/work',
        nextTick: (f, ...a) => queueMicrotask(() => f(...a)),
        stdout: { write() { return true; }, isTTY: true, columns: 80, rows: 24, on() {} },
        stderr: { write() { return true; } },
        on() {},
        off() {},
        once() {},
        exit() {
            throw new Error('process.exit called');
        },
        kill() {
            throw new Error('process.kill called');
        },
        hrtime: process.hrtime,
        memoryUsage: process.memoryUsage
    };
}

/* --------------------------------------------------------------- values */
const NUL = '∅';
// canonical text of a concrete value for comparison of the two executions
function canon(x, depth = 0, seen = []) {
    if (x === undefined) return 'undefined';
    if (x === null) return 'null';
    switch (typeof x) {
        case 'number': return x === 0 ? '0' : String(x);
        case 'string': return JSON.stringify(x);
        case 'boolean': return String(x);
        case 'bigint': return x + 'n';
        case 'symbol': return x.toString();
        case 'function': return '<function>';
    }
    if (seen.includes(x) || depth > 12) return '<cycle>';
    seen = seen.concat([x]);
    if (x instanceof Error) return `<${x.constructor.name}>`;
    if (x instanceof Promise) return '<promise>';
    if (x instanceof RegExp) return rt.regexSource.has(x) ? '<regexp>' : '<regexp>';
    if (x instanceof Date) return `<date ${x.getTime()}>`;
    if (Array.isArray(x)) {
        const out = [];
        for (let i = 0; i < x.length; i++) out.push(i in x ? canon(x[i], depth + 1, seen) : NUL);
        return `[${out.join(',')}]`;
    }
    if (x instanceof Map) return `Map{${[...x].map(e => canon(e[0], depth + 1, seen) + '=>' + canon(e[1], depth + 1, seen)).join(',')}}`;
    if (x instanceof Set) return `Set{${[...x].map(e => canon(e, depth + 1, seen)).join(',')}}`;
    if (ArrayBuffer.isView(x)) return `${x.constructor.name}[${Array.from(x).join(',')}]`;
    return `{${Object.keys(x).map(k => JSON.stringify(k) + ':' + canon(x[k], depth + 1, seen)).join(',')}}`;
}
// evaluate a value with symbolic leaves under a model
function evalDeep(x, ev, memo = new Map()) {
    if (isSym(x)) {
        if (x instanceof SymStr) return x._u === null ? x.parts.map(p => String(evalDeep(p, ev, memo))).join('') : mkStr(x.u.map(u => ev(u)));
        if (x instanceof V.SymRat) return ev(x.n) / x.d;
        return ev(x.t);
    }
    if (x === null || typeof x !== 'object') return x;
    if (memo.has(x)) return memo.get(x);
    if (x instanceof Error || x instanceof Promise || x instanceof RegExp || x instanceof Date || ArrayBuffer.isView(x)) return x;
    if (Array.isArray(x)) {
        const out = new Array(x.length);
        memo.set(x, out);
        for (let i = 0; i < x.length; i++) if (i in x) out[i] = evalDeep(x[i], ev, memo);
        return out;
    }
    if (x instanceof Map) {
        const out = new Map();
        memo.set(x, out);
        for (const [k, v] of x) out.set(evalDeep(k, ev, memo), evalDeep(v, ev, memo));
        return out;
    }
    if (x instanceof Set) {
        const out = new Set();
        memo.set(x, out);
        for (const v of x) out.add(evalDeep(v, ev, memo));
        return out;
    }
    const out = {};
    memo.set(x, out);
    for (const k of Object.keys(x)) {
        const kk = rt.isPh(k) ? evalDeep(rt.keyVal(k), ev, memo) : k;
        Object.defineProperty(out, kk, { value: evalDeep(x[k], ev, memo), enumerable: true, writable: true, configurable: true });
    }
    return out;
}
const snapshot = (x, memo = new Map()) => {
    if (x === null || typeof x !== 'object' || isSym(x)) return x;
    if (memo.has(x)) return memo.get(x);
    if (Array.isArray(x)) {
        const out = new Array(x.length);
        memo.set(x, out);
        for (let i = 0; i < x.length; i++) if (i in x) out[i] = snapshot(x[i], memo);
        return out;
    }
    const p = Object.getPrototypeOf(x);
    if (p !== Object.prototype && p !== null) return x;
    const out = {};
    memo.set(x, out);
    for (const k of Object.keys(x)) Object.defineProperty(out, k, { value: snapshot(x[k], memo), enumerable: true, writable: true, configurable: true });
    return out;
};

class VBase {
    constructor(sym) {
        this.sym = sym;
        this.observations = [];
        this.covers = new Set();
        this.env = makeEnv(this);
        this.stubs = {};
        this.loader = null;
        this.rejections = [];
    }
    load(name) {
        if (!this.loader) this.loader = new Loader(this.sym ? 'sym' : 'con', this.env, this.stubs);
        const m = this.loader.repo(name);
        return m && m.__esModule && 'default' in m && name.includes('/') ? m.default : m;
    }
    module(name) {
        this.loader || (this.loader = new Loader(this.sym ? 'sym' : 'con', this.env, this.stubs));
        return this.loader.repo(name);
    }
    cover(label) {
        this.covers.add(label);
    }
    observe(x) {
        this.observations.push(snapshot(x));
    }
    drain() {
        return drain();
    }
    async flush() {
        await drain();
        await drain();
        if (rt.eng && rt.eng.signal && this.sym) throw rt.eng.signal;
    }
    // run the virtual event loop until p settles or nothing is left to happen
    async settle(p, maxEvents = 1000) {
        const st = { status: 'pending', value: undefined, reason: undefined, events: 0 };
        Promise.resolve(p).then(
            v => {
                st.status = 'fulfilled';
                st.value = v;
            },
            e => {
                st.status = 'rejected';
                st.reason = e;
            }
        );
        for (;;) {
            await drain();
            if (this.sym && rt.eng.signal) throw rt.eng.signal;
            if (st.status === 'rejected' && st.reason instanceof EngineSignal) throw st.reason;
            if (st.status !== 'pending') return st;
            if (st.events++ >= maxEvents || !this.env.fireNext()) {
                await drain();
                await drain();
                return st;
            }
        }
    }
    fireNext() {
        return this.env.fireNext();
    }
    pendingTimers() {
        return this.env.timers.size;
    }
    str(name, len, ranges) {
        if (typeof len !== 'number') throw new Error('V.str: length');
        const chars = [];
        for (let i = 0; i < len; i++) chars.push(this.unit(`${name}_${i}`, ranges));
        return this.fromUnits(chars);
    }
    strUpTo(name, min, max, ranges) {
        return this.str(name, this.size(name + '_len', min, max), ranges);
    }
    choice(name, list) {
        return list[this.size(name, 0, list.length - 1)];
    }
    array(n, f) {
        const out = [];
        for (let i = 0; i < n; i++) out.push(f(i));
        return out;
    }
    // call f and describe the outcome; engine signals pass through
    attempt(f) {
        try {
            return { ok: true, value: f() };
        } catch (e) {
            if (e instanceof EngineSignal || e instanceof ConcreteFail || e instanceof ConcreteSkip) throw e;
            if (this.sym && rt.eng.signal) throw rt.eng.signal;
            if (this.sym && e instanceof RangeError && typeof e.message === 'string' && /Maximum call stack/.test(e.message)) rt.S.rethrow(e);
            return { ok: false, error: e };
        }
    }
}
const ANY = [[0, 0xffff]];

class VSym extends VBase {
    constructor(eng) {
        super(true);
        this.eng = eng;
        this.failures = [];
        this.checked = 0;
    }
    declare(term, name, sort, init) {
        if (this.eng.varNames.has(name)) throw new Error(`harness: input ${name} declared twice`);
        this.eng.declare(term, name, sort, init);
        return term;
    }
    int(name, lo, hi) {
        if (lo === hi) return lo;
        return new SymInt(this.declare(T.intVar(name, lo, hi), name, 'Int'));
    }
    bool(name) {
        return new SymBool(this.declare(T.boolVar(name), name, 'Bool'));
    }
    fp(name) {
        return new SymFP(this.declare(T.fpVar(name), name, 'Float64'));
    }
    // enumerated integer: one path per value
    size(name, lo, hi) {
        if (lo === hi) return lo;
        const t = this.declare(T.intVar(name, lo, hi), name, 'Int');
        return rt.pickTerm(t, name);
    }
    unit(name, ranges = ANY) {
        const rs = T.normRanges(ranges.map(r => r.slice()));
        const t = this.declare(T.intVar(name, rs[0][0], rs[rs.length - 1][1]), name, 'Int');
        this.eng.assume(T.inSet(t, rs));
        return t;
    }
    fromUnits(us) {
        return mkStr(us);
    }
    assume(c) {
        this.eng.assume(rt.truthT(c));
    }
    truth(c) {
        return rt.truth(c);
    }
    and(...xs) {
        return mkBool(T.and(...xs.map(rt.truthT)));
    }
    or(...xs) {
        return mkBool(T.or(...xs.map(rt.truthT)));
    }
    not(x) {
        return mkBool(T.not(rt.truthT(x)));
    }
    implies(a, b) {
        return mkBool(T.or(T.not(rt.truthT(a)), rt.truthT(b)));
    }
    iff(a, b) {
        return mkBool(T.iff(rt.truthT(a), rt.truthT(b)));
    }
    ite(c, a, b) {
        const t = rt.truthT(c);
        if (t === true) return a;
        if (t === false) return b;
        const x = a instanceof SymInt ? a.t : a;
        const y = b instanceof SymInt ? b.t : b;
        const r = T.iite(t, x, y);
        return T.isT(r) ? new SymInt(r) : r;
    }
    // structural equality as a formula (own enumerable string keys, in order
    // irrelevant for objects)
    eq(a, b) {
        return mkBool(eqT(a, b));
    }
    is(a, b) {
        return mkBool(rt.seqT(a, b));
    }
    concrete(x) {
        if (!isSym(x)) return x;
        if (x instanceof SymInt) return rt.pickTerm(x.t, 'harness value', Infinity);
        if (x instanceof SymStr) return mkStr(x.u.map(u => rt.pickTerm(u, 'harness value', Infinity)));
        return rt.concretise(x, 'harness value');
    }
    check(c, msg) {
        this.checked++;
        const t = rt.truthT(c);
        const m = this.eng.refute(t);
        if (m) {
            this.failures.push({ msg, model: this.eng.fullModel(m) });
            this.eng.stop(new CheckFailed(msg));
        }
        return true;
    }
    fail(msg) {
        return this.check(false, msg);
    }
}
function eqT(a, b, seen = []) {
    if (isSym(a) || isSym(b) || a === null || b === null || typeof a !== 'object' || typeof b !== 'object') {
        if (a !== a && b !== b && !isSym(a) && !isSym(b)) return true;
        return rt.seqT(a, b);
    }
    if (a === b) return true;
    if (seen.some(p => p[0] === a && p[1] === b)) return true;
    seen = seen.concat([[a, b]]);
    if (Array.isArray(a) !== Array.isArray(b)) return false;
    const cs = [];
    if (Array.isArray(a)) {
        if (a.length !== b.length) return false;
        for (let i = 0; i < a.length; i++) {
            if (i in a !== i in b) return false;
            cs.push(eqT(a[i], b[i], seen));
        }
        return T.and(...cs);
    }
    const tag = Object.prototype.toString.call(a);
    if (tag !== Object.prototype.toString.call(b)) return false;
    if (tag !== '[object Object]') {
        if (a instanceof Date) return a.getTime() === b.getTime();
        if (ArrayBuffer.isView(a)) return eqT(Array.from(a), Array.from(b), seen);
        if (a instanceof Map || a instanceof Set) return eqT([...a], [...b], seen);
        return false;
    }
    const ka = Object.keys(a);
    const kb = Object.keys(b);
    if (ka.length !== kb.length) return false;
    for (const k of ka) {
        let q = k;
        if (rt.isPh && rt.isPh(k)) q = rt.ownKeyFor(b, rt.keyVal(k));
        else if (!Object.prototype.hasOwnProperty.call(b, k)) q = rt.concreteKey(b, k);
        if (q === undefined || !Object.prototype.hasOwnProperty.call(b, q)) return false;
        cs.push(eqT(a[k], b[q], seen));
    }
    return T.and(...cs);
}

class VCon extends VBase {
    constructor(model) {
        super(false);
        this.model = model;
        this.checked = 0;
    }
    get(name, dflt) {
        return Object.prototype.hasOwnProperty.call(this.model, name) ? this.model[name] : dflt;
    }
    int(name, lo, hi) {
        if (lo === hi) return lo;
        return this.get(name, lo);
    }
    bool(name) {
        return this.get(name, false);
    }
    fp(name) {
        const v = this.get(name, 0);
        if (typeof v === 'string') return v === '-0' ? -0 : Number(v);
        return v;
    }
    size(name, lo, hi) {
        if (lo === hi) return lo;
        return this.get(name, lo);
    }
    unit(name, ranges = ANY) {
        return this.get(name, ranges[0][0]);
    }
    fromUnits(us) {
        return String.fromCharCode(...us);
    }
    assume(c) {
        if (!c) throw new ConcreteSkip('assumption not met');
    }
    truth(c) {
        return !!c;
    }
    and(...xs) {
        return xs.every(Boolean);
    }
    or(...xs) {
        return xs.some(Boolean);
    }
    not(x) {
        return !x;
    }
    implies(a, b) {
        return !a || !!b;
    }
    iff(a, b) {
        return !!a === !!b;
    }
    ite(c, a, b) {
        return c ? a : b;
    }
    eq(a, b) {
        return eqT(a, b) === true;
    }
    is(a, b) {
        return a === b;
    }
    concrete(x) {
        return x;
    }
    check(c, msg) {
        this.checked++;
        if (!c) throw new ConcreteFail(msg);
        return true;
    }
    fail(msg) {
        return this.check(false, msg);
    }
}
module.exports = { VSym, VCon, ConcreteFail, ConcreteSkip, canon, evalDeep, drain, units };
