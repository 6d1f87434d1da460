'use strict';
// node engine/dev.js HARNESS [case-regexp] [tier]: explore cases in-process
process.on('unhandledRejection', () => {});
const { explore, loadHarness } = require('./worker');
(async () => {
    const [file, pat, tier = 'quick'] = process.argv.slice(2);
    let tot = 0, np = 0;
    const h = loadHarness('con', file, null);
    for (const c of h.cases(tier)) {
        if (pat && !new RegExp(pat).test(c.name)) continue;
        const r = await explore({ file, name: c.name, params: c.params, deadline: Date.now() + Number(process.env.BUDGET || 120) * 1000, opts: c.opts, maxFailures: 1 });
        const s = r.stats;
        if (process.env.Q && r.complete && !r.failures.length && !r.mismatches.length && r.witness && r.ms < Number(process.env.Q)) { tot = (tot || 0) + r.ms; np += s.paths; continue; }
        console.log(`${c.name}: ${r.complete ? 'complete' : 'PARTIAL'} ${r.ms}ms paths=${s.paths} val=${s.validated} inf=${s.infeasible} checks=${s.checks} aq=${s.assertQueries} q=${r.solver.queries} solver=${Math.round(r.solver.ms)}ms covers=${String(r.covers).slice(0, 100)}`, JSON.stringify(s.excluded), JSON.stringify(s.concretised), r.budget || '');
        for (const f of r.failures) console.log('  FAIL', JSON.stringify(f));
        for (const m of r.mismatches.slice(0, 3)) console.log('  MISMATCH', JSON.stringify(m));
        if (!r.witness) console.log('  NO WITNESS');
        if (process.env.FNS) console.log(r.functions.join('\n'));
    }
    if (process.env.Q) console.log(`quiet: ${tot}ms ${np} paths`);
    process.exit(0);
})().catch(e => { console.error(e); process.exit(3); });
