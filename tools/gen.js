'use strict';
// writes properties.jsonl and MANIFEST.json from tools/props.js
const fs = require('fs');
const path = require('path');
const ROOT = path.join(__dirname, '..');
const props = require('./props');
const NA = require('./not_applicable');
const lines = props.concat(NA).map(p => {
    if (p.title.length > 80) throw new Error('title too long: ' + p.id);
    return JSON.stringify({
        id: p.id,
        title: p.title,
        statement: p.st,
        quantifier: { over: p.over || ['inputs'], text: p.q },
        why_tests_cant: p.why,
        anchors: {
            files: p.files.map(f => 'packages/' + f),
            mechanism: p.mech.map(([name, where]) => ({ name, where: 'packages/' + where })),
            observe_at: p.at || ['return values and exceptions of the exported functions'],
            hook_needed: null
        }
    });
});
for (const p of props) for (const f of p.files) if (!fs.existsSync('/repo/packages/' + f)) throw new Error(p.id + ' missing ' + f);
fs.writeFileSync(path.join(ROOT, 'properties.jsonl'), lines.join('\n') + '\n');
const man = {
    version: 1,
    setup_cmd: 'node --stack-size=3900 engine/selftest.js',
    checks: props.map(p => ({
        property: p.id,
        quick_cmd: `node engine/run.js ${p.id} quick`,
        thorough_cmd: `node engine/run.js ${p.id} thorough`,
        evidence_file: `evidence/${p.id}.json`,
        technique: 'symbolic execution of the instrumented TypeScript source, every branch and assertion decided by an SMT solver (z3); counterexamples replayed on the real code',
        level: 'model_checking',
        level_note: p.note || 'Bounded: holds for every value within the bounds the evidence file lists; nothing is claimed outside them.'
    })),
    not_applicable: NA.map(p => ({ property: p.id, reason: p.reason })),
    notes: 'The engine re-instruments /repo\'s current TypeScript on every run. See DESIGN.md.'
};
fs.writeFileSync(path.join(ROOT, 'MANIFEST.json'), JSON.stringify(man, null, 1) + '\n');
console.log(props.length, 'properties,', NA.length, 'not applicable');
