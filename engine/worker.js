'use strict';
// Explores one case of one harness: all paths, with every assertion decided by
// the solver, every path confirmed and re-run concretely on the real code.
const path = require('path');
const msgOf = e => (e && typeof e.message === 'string' ? e.message : '');
const fs = require('fs');
const os = require('os');
const cp = require('child_process');
const T = require('./terms');
const rt = require('./runtime');
const { Solver } = require('./solver');
const { Engine, EngineSignal, PathEnd, Excluded, LoopLimit, CheckFailed, Budget } = require('./explore');
const { VSym, VCon, ConcreteFail, ConcreteSkip, canon, evalDeep, drain } = require('./vapi');
const { script, ENV_NAMES } = require('./loader');

const HARNESS = path.join(__dirname, '..', 'harness');

// harness modules: instrumented in symbolic mode, plain in concrete mode
function loadHarness(mode, file, env) {
    const cache = new Map();
    const load = f => {
        if (!f.endsWith('.js')) f += '.js';
        if (cache.has(f)) return cache.get(f).exports;
        const m = { exports: {} };
        cache.set(f, m);
        script(mode, f)(m.exports, spec => (spec.startsWith('.') && !spec.endsWith('.json') ? load(path.resolve(path.dirname(f), spec)) : require(spec.startsWith('.') ? path.resolve(path.dirname(f), spec) : spec)), m, f, path.dirname(f), rt.S, ...ENV_NAMES.map(n => envVal(env, n)));
        return m.exports;
    };
    return load(path.join(HARNESS, file));
}
const G = { 2: undefined };
const VIRTUAL = ENV_NAMES.slice(0, ENV_NAMES.indexOf('queueMicrotask')).filter(n => n !== 'process' && n !== 'console');
function envVal(env, n) {
    // the harness itself sees the real globals but virtual timers, Math and Date
    return env && VIRTUAL.includes(n) ? env[n] : global[n];
}
void G;

async function outcomeOf(run, eng) {
    try {
        const p = run();
        if (p && typeof p.then === 'function') {
            let st = null;
            p.then(
                () => (st = { ok: true }),
                e => (st = { ok: false, error: e })
            );
            let idle = 0;
            for (;;) {
                await drain();
                if (st) break;
                if (eng && eng.signal) {
                    await drain();
                    break;
                }
                if (++idle > 20000) return { ok: false, error: new Error('the harness never finished') };
            }
            return st || { ok: false, error: eng.signal };
        }
        return { ok: true };
    } catch (e) {
        return { ok: false, error: e };
    }
}

// one concrete execution of the real code on a model
async function concrete(file, params, model) {
    const V = new VCon(model);
    const h = loadHarness('con', file, V.env);
    const o = await outcomeOf(() => h.run(V, params), null);
    if (o.ok) return { verdict: 'ok', obs: V.observations.map(x => canon(x)), checked: V.checked };
    const e = o.error;
    if (e instanceof ConcreteFail) return { verdict: 'fail', msg: e.message };
    if (e instanceof ConcreteSkip) return { verdict: 'skip' };
    return { verdict: 'throw', msg: describe(e) };
}
function describe(e) {
    if (e instanceof Error) {
        let m = '';
        try {
            m = typeof e.message === 'string' ? e.message : '<symbolic message>';
        } catch {}
        return `${e.constructor.name}: ${m}`;
    }
    try {
        return String(e);
    } catch {
        return 'unprintable';
    }
}
const enc = m => {
    const o = {};
    for (const k of Object.keys(m)) {
        const v = m[k];
        o[k] = typeof v === 'number' && (!Number.isFinite(v) || Object.is(v, -0)) ? { f: Object.is(v, -0) ? '-0' : String(v) } : v;
    }
    return o;
};
const dec = m => {
    const o = {};
    for (const k of Object.keys(m)) o[k] = m[k] && typeof m[k] === 'object' ? (m[k].f === '-0' ? -0 : Number(m[k].f)) : m[k];
    return o;
};

// concrete execution in a child process (it may not terminate)
function concreteChild(file, params, model, timeoutMs = 20000) {
    const f = path.join(fs.mkdtempSync(path.join(os.tmpdir(), 'vreplay-')), 'r.json');
    fs.writeFileSync(f, JSON.stringify({ harness: file, params, model: enc(model) }));
    const r = cp.spawnSync(process.execPath, ['--stack-size=4000', path.join(__dirname, 'replay.js'), '--raw', f], { timeout: timeoutMs, encoding: 'utf8', killSignal: 'SIGKILL' });
    fs.rmSync(path.dirname(f), { recursive: true, force: true });
    if (r.error && r.error.code === 'ETIMEDOUT') return { verdict: 'hang' };
    const line = (r.stdout || '').trim().split('\n').pop();
    try {
        return JSON.parse(line);
    } catch {
        return { verdict: 'crash', msg: (r.stderr || '').slice(0, 400) };
    }
}

async function explore(job) {
    const { file, params, deadline, name } = job;
    T.reset();
    const solver = new Solver(['z3-new', '-in'], { timeoutMs: job.solverMs || 20000 });
    const eng = new Engine(solver, { deadline, ...(job.opts || {}) });
    rt.use(eng);
    rt.entered = new Set();
    const t0 = Date.now();
    const res = { name, complete: true, failures: [], covers: [], mismatches: [], budget: null, witness: null, partial: 0, samples: [] };
    const covers = new Set();
    let more = true;
    const fail = (msg, model, how, detail) => {
        res.failures.push({ msg, model: enc(model), how, detail });
    };
    while (more) {
        eng.signal = null;
        try {
            eng.beginPath();
        } catch (e) {
            if (e instanceof Budget) {
                res.complete = false;
                res.budget = 'time';
                break;
            }
            throw e;
        }
        if (job.maxPaths && eng.stats.paths >= job.maxPaths) {
            res.complete = false;
            res.budget = 'paths';
            break;
        }
        rt.resetKeys();
        const V = new VSym(eng);
        const h = loadHarness('sym', file, V.env);
        const o = await outcomeOf(() => h.run(V, params), eng);
        let err = o.ok ? null : o.error;
        if (eng.signal) err = eng.signal;
        if (process.env.VERIF_TRACE && err && !(err instanceof PathEnd)) console.error(err);
        if (err && !(err instanceof EngineSignal) && err instanceof RangeError && /Maximum call stack/.test(msgOf(err))) err = new LoopLimit('recursion limit');
        if (err instanceof Error && /^engine:|solver said|solver process|^harness:/.test(msgOf(err))) throw err;
        let model = null;
        if (err instanceof Budget) {
            res.complete = false;
            res.budget = 'time';
            // the path in progress may be one that never ends
            if (eng.loops > 300 || eng.pc.length > 300) {
                eng.signal = null;
                eng.deadline = Infinity;
                const q = eng.query();
                if (q.r === 'sat') {
                    const m = eng.fullModel(q.model);
                    if (concreteChild(file, params, m, 30000).verdict === 'hang') fail('execution does not terminate', m, 'hang', describe(err));
                }
            }
            break;
        }
        if (err instanceof PathEnd) {
            eng.stats.infeasible++;
        } else if (err instanceof CheckFailed) {
            const f = V.failures[V.failures.length - 1];
            eng.stats.paths++;
            const r = concreteChild(file, params, f.model);
            if (['fail', 'throw', 'hang', 'crash'].includes(r.verdict)) {
                fail(f.msg, f.model, r.verdict, r.msg);
                if (res.failures.length >= (job.maxFailures || 1)) break;
            } else {
                res.mismatches.push({ kind: 'unreproduced', msg: f.msg, model: enc(f.model), got: r.verdict });
            }
        } else {
            // the path ended: normally, by an exception, or outside the fragment
            eng.signal = null;
            eng.stats.paths++;
            let q;
            try {
                q = eng.query();
            } catch (e) {
                if (!(e instanceof Budget)) throw e;
                res.complete = false;
                res.budget = 'time';
                break;
            }
            if (q.r === 'unsat') {
                eng.stats.paths--;
                eng.stats.infeasible++;
            } else {
                model = eng.fullModel(q.model);
                if (err) {
                    const r = concreteChild(file, params, model);
                    const bad = ['fail', 'throw', 'hang', 'crash'].includes(r.verdict);
                    if (bad && (err instanceof LoopLimit || err instanceof Excluded || !(err instanceof EngineSignal))) {
                        fail(r.verdict === 'hang' ? 'execution does not terminate' : r.msg || r.verdict, model, r.verdict, describe(err));
                        if (res.failures.length >= (job.maxFailures || 1)) break;
                    } else if (err instanceof Excluded || err instanceof LoopLimit) {
                        res.partial++;
                        if (err instanceof LoopLimit) eng.note('excluded', err.message);
                    } else res.mismatches.push({ kind: 'exception', msg: describe(err), stack: err && err.stack, model: enc(model), got: r.verdict });
                } else {
                    const r = await concrete(file, params, model);
                    if (r.verdict === 'fail' || r.verdict === 'throw') {
                        // the real code breaks the property where the encoding did not
                        fail(r.msg, model, r.verdict, 'found by re-running a solver model');
                        res.mismatches.push({ kind: 'encoding', msg: r.msg, model: enc(model) });
                        break;
                    }
                    const ev = T.evaluator(eng.modelFn(q.model));
                    const symObs = V.observations.map(x => canon(evalDeep(x, ev)));
                    const same = r.verdict === 'ok' && symObs.length === r.obs.length && symObs.every((x, i) => x === r.obs[i]);
                    if (same) eng.stats.validated++;
                    else res.mismatches.push({ kind: 'observation', model: enc(model), sym: symObs, con: r.obs, got: r.verdict });
                    if (V.checked > 0 && !res.witness) res.witness = enc(model);
                    if (res.samples.length < 3) res.samples.push({ model: enc(model), observed: (r.obs || []).slice(0, 4).map(s => s.slice(0, 160)) });
                    for (const c of V.covers) covers.add(c);
                }
            }
        }
        if (job.progress) job.progress(eng.stats);
        more = eng.backtrack();
    }
    solver.close();
    res.covers = [...covers];
    res.stats = eng.stats;
    res.solver = { ...solver.stats };
    res.functions = [...rt.entered].map(i => rt.functions[i]);
    res.ms = Date.now() - t0;
    if (Object.keys(eng.stats.concretised).length || Object.keys(eng.stats.excluded).length) res.complete = false;
    return res;
}

module.exports = { explore, concrete, loadHarness, enc, dec };

if (require.main === module || process.env.VERIF_WORKER) {
    process.on('unhandledRejection', () => {});
    process.on('message', async job => {
        try {
            const r = await explore(job);
            process.send({ id: job.id, result: r });
        } catch (e) {
            process.send({ id: job.id, error: e && e.stack ? e.stack : String(e) });
        }
    });
}
