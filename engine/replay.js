'use strict';
// node engine/replay.js FILE: re-runs a recorded counterexample on the real,
// un-instrumented code. Exit 1 when the violation shows.
const fs = require('fs');
process.on('unhandledRejection', () => {});
const raw = process.argv[2] === '--raw';
const file = process.argv[raw ? 3 : 2];
const rec = JSON.parse(fs.readFileSync(file, 'utf8'));
const { concrete, dec } = require('./worker');
concrete(rec.harness, rec.params, dec(rec.model)).then(r => {
    if (raw) {
        console.log('\n' + JSON.stringify(r));
        process.exit(0);
    }
    console.log(`harness ${rec.harness} case ${rec.case}`);
    console.log('inputs', JSON.stringify(rec.model));
    console.log('verdict', r.verdict, r.msg || '');
    process.exit(r.verdict === 'ok' || r.verdict === 'skip' ? 0 : 1);
});
