'use strict';
// node engine/run.js PROPERTY [quick|thorough]
const fs = require('fs');
const path = require('path');
const { fork } = require('child_process');
const ROOT = path.join(__dirname, '..');
const HARNESS = path.join(ROOT, 'harness');
process.on('unhandledRejection', e => {
    console.error(e);
    process.exit(2);
});

const prop = process.argv[2];
const tier = process.argv[3] || process.env.VERIF_TIER || 'quick';
const seed = Number(process.env.VERIF_SEED || 1);
const LIMIT = Number(process.env.VERIF_BUDGET_S || (tier === 'quick' ? 420 : 3000)) * 1000;
const NPROC = Number(process.env.VERIF_JOBS || 8);

function known() {
    const f = path.join(ROOT, 'known-findings.txt');
    if (!fs.existsSync(f)) return [];
    return fs
        .readFileSync(f, 'utf8')
        .split('\n')
        .map(l => /^finding: property=(\S+) harness=(\S+) case=(\S+) message=(.*?) :: (.*)$/.exec(l))
        .filter(m => m && m[1] === prop)
        .map(m => ({ file: m[2], case: m[3], msg: m[4], text: m[5] }));
}

(async () => {
    const t0 = Date.now();
    const { loadHarness } = require('./worker');
    const files = fs.readdirSync(HARNESS).filter(f => f.endsWith('.js') && new RegExp(`^${prop}([a-z_.-]|\\.)`).test(f)).sort();
    if (!files.length) {
        console.log(`no harness for ${prop}`);
        process.exit(2);
    }
    const jobs = [];
    const meta = [];
    let id = 0;
    const hasKnown = known().length > 0;
    const globalDeadline = t0 + LIMIT;
    for (const file of files) {
        const h = loadHarness('con', file, null);
        meta.push({ file, h });
        for (const c of h.cases(tier)) jobs.push({ id: id++, file, maxFailures: hasKnown ? 300 : 1, name: c.name, params: c.params, opts: c.opts, maxPaths: c.maxPaths, deadline: globalDeadline });
    }
    const results = new Map();
    const queue = jobs.slice();
    let violated = false;
    await new Promise(done => {
        let live = 0;
        const spawn = () => {
            live++;
            const w = fork(path.join(__dirname, 'worker.js'), [], {
                execArgv: ['--stack-size=3900', '--max-old-space-size=3000'],
                env: { ...process.env, VERIF_WORKER: '1', NODE_NO_WARNINGS: '1' },
                stdio: ['ignore', 'ignore', 'inherit', 'ipc']
            });
            let cur = null;
            let timer = null;
            let closed = false;
            const next = () => {
                clearTimeout(timer);
                if (!queue.length || violated) {
                    cur = null;
                    w.disconnect();
                    return;
                }
                cur = queue.shift();
                timer = setTimeout(() => w.kill('SIGKILL'), Math.max(1000, cur.deadline - Date.now()) + 45000);
                w.send(cur);
            };
            w.on('message', m => {
                results.set(m.id, m.error ? { error: m.error } : m.result);
                if (m.result && m.result.failures.length && !process.env.VERIF_ALL) {
                    const k = known();
                    const job = jobs[m.id];
                    if (m.result.failures.some(f => !isKnown(k, job, f))) violated = true;
                }
                next();
            });
            w.on('exit', () => {
                clearTimeout(timer);
                if (closed) return;
                closed = true;
                if (cur && !results.has(cur.id)) {
                    results.set(cur.id, { error: 'worker ended (time or memory limit)' });
                    if (queue.length) spawn();
                }
                if (--live === 0) done();
            });
            next();
        };
        const n = Math.min(NPROC, jobs.length);
        for (let i = 0; i < n; i++) spawn();
    });

    const sum = { paths: 0, infeasible: 0, decisions: 0, forks: 0, checks: 0, assertQueries: 0, validated: 0, unknown: 0, partial: 0 };
    const solver = { queries: 0, sat: 0, unsat: 0, unknown: 0, ms: 0 };
    const fns = new Set();
    const excluded = {};
    const concretised = {};
    const covers = new Set();
    const samples = [];
    const incomplete = [];
    const errors = [];
    const mismatches = [];
    const violations = [];
    const findings = [];
    const noWitness = [];
    const list = known();
    for (const job of jobs) {
        const r = results.get(job.id);
        const label = `${job.file}:${job.name}`;
        if (!r) {
            if (!violated) incomplete.push(`${label} (not run)`);
            continue;
        }
        if (r.error) {
            errors.push(`${label}: ${r.error}`);
            continue;
        }
        for (const k of Object.keys(sum)) sum[k] += k === 'partial' ? r.partial : r.stats[k];
        for (const k of Object.keys(solver)) solver[k] += r.solver[k];
        for (const f of r.functions) fns.add(f);
        for (const [k, v] of Object.entries(r.stats.excluded)) excluded[k] = (excluded[k] || 0) + v;
        for (const [k, v] of Object.entries(r.stats.concretised)) concretised[k] = (concretised[k] || 0) + v;
        for (const c of r.covers) covers.add(c);
        if (!r.complete) incomplete.push(label + (r.budget ? ` (${r.budget} budget)` : ' (values outside the encoded fragment)'));
        if (!r.witness && !r.failures.length) noWitness.push(label);
        for (const m of r.mismatches) mismatches.push({ case: label, ...m });
        for (const f of r.failures) {
            const k = isKnown(list, job, f);
            if (k) findings.push({ job, f, k });
            else violations.push({ job, f });
        }
        for (const s of r.samples.slice(0, 1)) if (samples.length < 12) samples.push({ case: label, ...s });
        if (process.env.VERIF_VERBOSE) console.log(`${label}: ${r.complete ? 'complete' : 'partial'} paths=${r.stats.paths} checks=${r.stats.checks} solver=${Math.round(r.solver.ms)}ms total=${r.ms}ms${r.failures.length ? ' FAIL ' + JSON.stringify(r.failures[0]) : ''}`);
    }
    // outcomes that some input within the bounds must be able to produce: when
    // every path has been decided and none reaches one, the property fails
    const unreachable = [];
    for (const m of meta) {
        if (!m.h.mustReach || violations.length) continue;
        if (incomplete.some(l => l.startsWith(m.file + ':')) || errors.length) continue;
        for (const c of m.h.mustReach(tier)) if (!covers.has(c)) unreachable.push({ file: m.file, c });
    }
    const dir = path.join(ROOT, 'evidence');
    fs.mkdirSync(path.join(dir, 'replays'), { recursive: true });
    for (const { f, job } of findings) console.log(`KNOWN-FINDING: property=${prop} ${isKnown(list, job, f).text}`);
    let n = 0;
    for (const { job, f } of violations) {
        const p = path.join('evidence', 'replays', `${prop}-${n++}.json`);
        fs.writeFileSync(path.join(ROOT, p), JSON.stringify({ property: prop, harness: job.file, case: job.name, params: job.params, model: f.model, message: f.msg, how: f.how, detail: f.detail }, null, 1));
        console.log(`  case ${job.file}:${job.name}: ${f.msg}${f.detail ? ' [' + f.detail + ']' : ''}`);
        console.log(`  inputs ${JSON.stringify(f.model).slice(0, 600)}`);
        console.log(`VIOLATION property=${prop} replay=${p}`);
    }
    for (const { file, c } of unreachable) {
        const k = isKnown(list, { file, name: 'reach' }, { msg: c });
        if (k) {
            console.log(`KNOWN-FINDING: property=${prop} ${k.text}`);
            continue;
        }
        const p = path.join('evidence', 'replays', `${prop}-${n++}.json`);
        fs.writeFileSync(path.join(ROOT, p), JSON.stringify({ property: prop, harness: file, unreachable: c, message: `no input within the bounds produces: ${c}` }, null, 1));
        console.log(`  ${file}: no input within the bounds produces: ${c}`);
        console.log(`VIOLATION property=${prop} replay=${p}`);
        violations.push({ job: { file, name: 'reach' }, f: { msg: c } });
        if (n > 20) break;
    }
    const uncovered = meta.flatMap(m => (m.h.covers || []).filter(c => !covers.has(c)).map(c => `${m.file}:${c}`));
    const ev = {
        property: prop,
        tier,
        seed,
        level: 'model_checking',
        coverage: {
            states: sum.decisions + sum.paths,
            transitions: sum.decisions + sum.forks,
            traces_validated_against_impl: sum.validated,
            samples,
            exhaustive: incomplete.length === 0 && errors.length === 0,
            symbolic_paths: sum.paths,
            infeasible_paths: sum.infeasible,
            assertions_decided: sum.checks,
            assertion_queries: sum.assertQueries,
            solver_queries: solver.queries,
            solver_results: { sat: solver.sat, unsat: solver.unsat, unknown: solver.unknown },
            solver_seconds: Number((solver.ms / 1000).toFixed(3)),
            cases: jobs.length,
            bounds: meta.flatMap(m => m.h.bounds || []),
            outside: meta.flatMap(m => m.h.outside || []),
            stubs: meta.flatMap(m => m.h.stubs || []),
            functions_encoded: [...fns].sort(),
            incomplete_cases: incomplete,
            left_fragment: excluded,
            partially_enumerated: concretised,
            partial_paths: sum.partial,
            encoding_mismatches: mismatches.slice(0, 20),
            cases_without_witness: noWitness,
            uncovered,
            errors: errors.map(e => e.slice(0, 500))
        },
        assumptions: [
            'the built-in operations modelled in engine/ behave as ECMAScript specifies (cross-checked: every explored path is re-run natively on a solver model)',
            'integers of symbolic size stay within +-(2^53-1); -0 is not distinguished from 0 in integer arithmetic',
            ...meta.flatMap(m => m.h.assumptions || [])
        ],
        wall_s: (Date.now() - t0) / 1000,
        violations: violations.length
    };
    fs.writeFileSync(path.join(dir, `${prop}.json`), JSON.stringify(ev, null, 1));
    console.log(
        `${prop} ${tier}: ${jobs.length} cases, ${sum.paths} symbolic paths, ${sum.checks} assertions, ${solver.queries} solver queries (${(solver.ms / 1000).toFixed(1)} s), ${sum.validated} paths re-run on the real code, ${ev.wall_s.toFixed(1)} s` +
            (incomplete.length ? `; incomplete: ${incomplete.length}` : '') +
            (errors.length ? `; errors: ${errors.length}` : '') +
            (mismatches.length ? `; mismatches: ${mismatches.length}` : '') +
            (noWitness.length ? `; without witness: ${noWitness.length}` : '') +
            (uncovered.length ? `; uncovered: ${uncovered.join(',')}` : '')
    );
    if (process.env.VERIF_VERBOSE || errors.length) for (const e of errors) console.log('  error ' + e);
    if (process.env.VERIF_VERBOSE) {
        for (const m of mismatches.slice(0, 5)) console.log('  mismatch ' + JSON.stringify(m).slice(0, 800));
        for (const m of incomplete.slice(0, 10)) console.log('  incomplete ' + m);
        for (const m of noWitness.slice(0, 10)) console.log('  no witness ' + m);
        console.log('  fragment', JSON.stringify(excluded), JSON.stringify(concretised));
    }
    if (violations.length) process.exit(1);
    if (errors.length && sum.paths === 0) process.exit(2);
    process.exit(0);
})();
function isKnown(list, job, f) {
    return list.find(k => k.file === job.file && (k.case === '*' || k.case === job.name) && k.msg === f.msg);
}
