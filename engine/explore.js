'use strict';
// Path exploration: deterministic re-execution under a decision prefix; the
// solver decides which side of every symbolic branch is feasible and whether
// any assertion can fail on the path.
const T = require('./terms');

class EngineSignal extends Error {}
class PathEnd extends EngineSignal {} // this path is infeasible or finished
class Excluded extends EngineSignal {} // left the modelled fragment (recorded)
class LoopLimit extends EngineSignal {}
class CheckFailed extends EngineSignal {
    constructor(msg) {
        super(msg);
        this.msg = msg;
    }
}
class Budget extends EngineSignal {}

class Engine {
    constructor(solver, opts = {}) {
        this.solver = solver;
        this.opts = { loopLimit: 20000, callLimit: 100000, depthLimit: 1500, ...opts };
        this.entries = [];
        this.solverStack = [];
        this.model = null;
        this.stats = {
            paths: 0,
            infeasible: 0,
            decisions: 0,
            forks: 0,
            checks: 0,
            assertQueries: 0,
            queries: 0,
            unknown: 0,
            excluded: {},
            concretised: {},
            validated: 0
        };
        this.deadline = opts.deadline || Infinity;
    }
    beginPath() {
        this.pos = 0;
        this.pc = [];
        this.dom = new Map();
        this.entangled = new Set();
        this.varNames = new Map();
        this.loops = 0;
        this.calls = 0;
        this.signal = null;
        this.model = null;
        this.pathForks = 0;
        if (Date.now() > this.deadline) throw new Budget('time budget');
    }
    stop(sig) {
        if (!this.signal) this.signal = sig;
        throw sig;
    }
    declare(term, name, sort, init) {
        this.varNames.set(name, { sort, init, term });
    }
    /* --- path condition --- */
    addPc(t) {
        if (t === true) return;
        if (this.pc.length > this.opts.depthLimit) this.stop(new LoopLimit('depth limit'));
        if (t === false) this.stop(new PathEnd('false pc'));
        if (t.k === 'and') {
            for (const x of t.xs) this.addPc(x);
            return;
        }
        this.pc.push(t);
        if (t.k === 'in') {
            const d = this.dom.get(t.a.id);
            this.dom.set(t.a.id, d ? T.interRanges(d, t.rs) : t.rs);
            if (t.a.ak !== 'var') this.entangle(t);
        } else this.entangle(t);
        if (this.model) {
            if (!this.evalModel(t)) {
                if (t.k === 'in' && t.a.ak === 'var' && !this.entangled.has(t.a.name)) {
                    const d = this.dom.get(t.a.id);
                    if (d.length) {
                        this.model[t.a.name] = d[0][0] === -Infinity ? d[0][1] : d[0][0];
                        this.evMemo = null;
                    } else this.model = null;
                } else this.model = null;
            }
        }
    }
    entangle(t) {
        const vs = t._vars || (t._vars = [...T.vars(t).keys()]);
        for (const v of vs) this.entangled.add(v);
    }
    evalModel(t) {
        if (!this.evMemo || this.evModel !== this.model) {
            this.evModel = this.model;
            this.evMemo = T.evaluator(this.modelFn(this.model));
        }
        return this.evMemo(t);
    }
    modelFn(model) {
        return (name, sort, a) => {
            if (name in model) return model[name];
            if (sort === 'B') return false;
            if (sort === 'F') return 0;
            const d = this.dom && this.dom.get(a.id);
            if (d && d.length) return d[0][0] === -Infinity ? d[0][1] : d[0][0];
            return a.lo === -Infinity ? (a.hi === Infinity ? 0 : a.hi) : a.lo;
        };
    }
    sync() {
        const st = this.solverStack;
        const pc = this.pc;
        let i = 0;
        while (i < st.length && i < pc.length && st[i] === pc[i].id) i++;
        if (st.length > i) {
            this.solver.pop(st.length - i);
            st.length = i;
        }
        for (; i < pc.length; i++) {
            this.solver.push();
            this.boundVars(pc[i]);
            this.solver.assert(pc[i]);
            st.push(pc[i].id);
        }
    }
    // variable bounds must be in force wherever a variable is mentioned
    boundVars(t) {
        const vs = t._varTerms || (t._varTerms = [...T.vars(t).values()]);
        for (const a of vs) {
            if (a.ak !== 'var') continue;
            const n = a.name;
            this.solver.var(n, 'Int');
            if (a.lo !== -Infinity) this.solver.raw(`(assert (<= ${a.lo < 0 ? `(- ${-a.lo})` : a.lo} ${n}))`);
            if (a.hi !== Infinity) this.solver.raw(`(assert (<= ${n} ${a.hi < 0 ? `(- ${-a.hi})` : a.hi}))`);
        }
    }
    // satisfiability of the path condition with extra constraints
    query(...extra) {
        this.stats.queries++;
        if (Date.now() > this.deadline) this.stop(new Budget('time budget'));
        this.sync();
        this.solver.push();
        for (const e of extra) {
            this.boundVars(e);
            this.solver.assert(e);
        }
        const r = this.solver.check();
        let model = null;
        if (r === 'sat') {
            const names = [...this.solver.declared.keys()].filter(n => this.varNames.has(n));
            model = this.solver.getValues(names);
            // variables no constraint in force mentions may come back out of range
            for (const n of names) {
                const a = this.varNames.get(n).term.atom;
                if (a && (model[n] < a.lo || model[n] > a.hi)) delete model[n];
            }
        }
        this.solver.pop();
        if (r === 'unknown') this.stats.unknown++;
        return { r, model };
    }
    /* --- decisions --- */
    quick(c) {
        if (c.k === 'in') {
            const d = this.dom.get(c.a.id);
            if (d) {
                const i = T.interRanges(d, c.rs);
                if (i.length === 0) return false;
                if (T.sameRanges(i, d)) return true;
            }
            if (c.a.ak === 'var' && !this.entangled.has(c.a.name)) return 'both';
        }
        return undefined;
    }
    branch(c) {
        if (c === true || c === false) return c;
        const q = this.quick(c);
        if (q === true || q === false) return q;
        if (this.pos < this.entries.length) {
            const e = this.entries[this.pos++];
            if (e.kind !== 'br' || e.cid !== c.id) throw new Error('engine: nondeterministic re-execution (branch)');
            if (e.add) this.addPc(e.taken ? c : T.not(c));
            return e.taken;
        }
        this.stats.decisions++;
        let canT, canF;
        let first = true;
        if (q === 'both') {
            canT = canF = true;
            if (this.model) first = this.evalModel(c);
        } else {
            if (!this.model) {
                const a = this.query(c);
                canT = a.r !== 'unsat';
                if (a.model) {
                    this.model = a.model;
                    this.evMemo = null;
                }
                const b = canT ? this.query(T.not(c)) : { r: 'sat', model: null };
                canF = b.r !== 'unsat';
                first = canT;
            } else {
                first = this.evalModel(c);
                const o = this.query(first ? T.not(c) : c);
                const can = o.r !== 'unsat';
                canT = first || can;
                canF = !first || can;
            }
        }
        const both = canT && canF;
        const taken = both ? first : canT;
        if (both) this.stats.forks++;
        this.entries.push({ kind: 'br', cid: c.id, taken, other: both, add: both });
        this.pos++;
        if (both) this.addPc(taken ? c : T.not(c));
        return taken;
    }
    // enumerate the feasible values of an integer term, one per path
    pick(t, limit = Infinity, what = 'value') {
        if (!T.isT(t)) return t;
        let e;
        if (this.pos < this.entries.length) {
            e = this.entries[this.pos];
            if (e.kind !== 'val' || e.tid !== t.id) throw new Error('engine: nondeterministic re-execution (pick)');
            if (e.next) {
                e.next = false;
                e.v = this.nextValue(t, e.excluded);
                if (e.v === undefined) {
                    this.entries.pop();
                    this.stop(new PathEnd('no more values'));
                }
                if (e.excluded.length >= e.limit) {
                    this.note('concretised', e.what || 'value');
                    this.entries.pop();
                    this.stop(new PathEnd('value limit'));
                }
                this.stats.forks++;
            }
        } else {
            const v = this.nextValue(t, []);
            if (v === undefined) this.stop(new PathEnd('infeasible'));
            this.stats.decisions++;
            e = { kind: 'val', tid: t.id, v, excluded: [], limit, what };
            this.entries.push(e);
        }
        this.pos++;
        this.addPc(T.eq(t, e.v));
        return e.v;
    }
    nextValue(t, excluded) {
        if (t.k === 'lin' && t.atom && t.atom.ak === 'var' && !this.entangled.has(t.atom.name)) {
            const d = this.dom.get(t.atom.id) || [[t.atom.lo, t.atom.hi]];
            const rest = excluded.length ? T.interRanges(d, T.complRanges(T.normRanges(excluded.map(v => [v, v])), -Infinity, Infinity)) : d;
            if (!rest.length) return undefined;
            const r = rest[0];
            return (r[0] !== -Infinity ? r[0] : r[1] !== Infinity ? r[1] : 0) + 0; // never -0
        }
        if (!excluded.length && this.model) return this.evalModel(t) + 0;
        const o = this.query(...excluded.map(v => T.not(T.eq(t, v))));
        if (o.r === 'unsat') return undefined;
        if (!o.model) this.stop(new Excluded('solver gave no value'));
        return T.evaluator(this.modelFn(o.model))(t) + 0;
    }
    assume(c) {
        if (c === true) return;
        if (c === false) this.stop(new PathEnd('assumption'));
        const q = this.quick(c);
        if (q === true) return;
        if (q === false) this.stop(new PathEnd('assumption'));
        if (this.pos < this.entries.length) {
            const e = this.entries[this.pos++];
            if (e.kind !== 'asm' || e.cid !== c.id) throw new Error('engine: nondeterministic re-execution (assume)');
            this.addPc(c);
            return;
        }
        if (q !== 'both' && !(this.model && this.evalModel(c))) {
            const o = this.query(c);
            if (o.r === 'unsat') this.stop(new PathEnd('assumption'));
            if (o.model) {
                this.model = o.model;
                this.evMemo = null;
            }
        }
        this.entries.push({ kind: 'asm', cid: c.id });
        this.pos++;
        this.addPc(c);
    }
    // returns a counterexample model, or null when the assertion holds
    refute(c) {
        this.stats.checks++;
        if (c === true) return null;
        if (c !== false && this.pos < this.entries.length) {
            const e = this.entries[this.pos++];
            if (e.kind !== 'chk' || e.cid !== c.id) throw new Error('engine: nondeterministic re-execution (check)');
            return null;
        }
        this.stats.assertQueries++;
        const o = c === false ? this.query() : this.query(T.not(c));
        if (o.r === 'unsat') {
            if (c === false) this.stop(new PathEnd('infeasible'));
            this.entries.push({ kind: 'chk', cid: c.id });
            this.pos++;
            return null;
        }
        if (o.r === 'unknown') {
            this.stop(new Excluded('solver unknown on an assertion'));
        }
        return o.model;
    }
    // final confirmation of the path condition, with a model
    finalModel() {
        const o = this.query();
        if (o.r === 'unsat') this.stop(new PathEnd('infeasible at end'));
        return o.model;
    }
    backtrack() {
        while (this.entries.length) {
            const e = this.entries[this.entries.length - 1];
            if (e.kind === 'br' && e.other) {
                e.taken = !e.taken;
                e.other = false;
                return true;
            }
            if (e.kind === 'val') {
                e.excluded.push(e.v);
                e.next = true;
                return true;
            }
            this.entries.pop();
        }
        return false;
    }
    note(kind, what) {
        const m = this.stats[kind];
        m[what] = (m[what] || 0) + 1;
    }
    fullModel(model) {
        const fn = this.modelFn(model || {});
        const out = {};
        for (const [n, { sort, term }] of this.varNames)
            out[n] = fn(n, sort === 'Bool' ? 'B' : sort === 'Float64' ? 'F' : sort, term && term.atom ? term.atom : { id: -1, lo: 0, hi: 0 });
        return out;
    }
}

module.exports = { Engine, EngineSignal, PathEnd, Excluded, LoopLimit, CheckFailed, Budget };
