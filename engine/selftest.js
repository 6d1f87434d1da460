'use strict';
// engine self-test: every built-in model is compared with the native
// operation on all paths of harness/t_models.js; fails on any difference.
process.on('unhandledRejection', () => {});
const { explore, loadHarness } = require('./worker');
(async () => {
    const h = loadHarness('con', 't_models.js', null);
    let paths = 0;
    let bad = 0;
    for (const c of h.cases('quick')) {
        const r = await explore({ file: 't_models.js', name: c.name, params: c.params, deadline: Date.now() + 120000, opts: c.opts, maxFailures: 1 });
        paths += r.stats.validated;
        bad += r.failures.length + r.mismatches.length;
    }
    console.log(`engine self-test: ${paths} paths agree with native execution, ${bad} differences`);
    process.exit(bad ? 1 : 0);
})().catch(e => {
    console.error(e);
    process.exit(2);
});
