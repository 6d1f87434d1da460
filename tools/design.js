'use strict';
// Writes the generated sections of DESIGN.md: what decides each property, the
// findings, and which check catches which planted bug.
const fs = require('fs');
const path = require('path');
const ROOT = path.join(__dirname, '..');
const props = require('./props');
const file = path.join(ROOT, 'DESIGN.md');
const head = fs.readFileSync(file, 'utf8').split('## Properties\n')[0];
const out = ['## Properties', '', 'Generated by `tools/design.js`. Each is decided by the harness named, which states the assertion over', 'the exported functions; the bounds are of the quick tier unless marked thorough.', ''];
for (const p of props) {
    const hs = fs.readdirSync(path.join(ROOT, 'harness')).filter(f => f.startsWith(p.id + '_'));
    out.push(`### ${p.id} ${p.title}`, '', p.st, '');
    for (const h of hs) {
        const x = require(path.join(ROOT, 'harness', h));
        out.push(`- harness: \`harness/${h}\`, over ${p.files.map(f => '`' + f + '`').join(', ')}`);
        for (const b of x.bounds || []) out.push(`- bounds: ${b}`);
        for (const b of x.outside || []) out.push(`- outside: ${b}`);
        for (const b of x.stubs || []) out.push(`- stand-ins: ${b}`);
        for (const b of x.assumptions || []) out.push(`- assumed: ${b}`);
        const reach = x.mustReach ? x.mustReach('quick') : [];
        if (reach.length) out.push(`- must be reached: ${reach.slice(0, 14).join(', ')}${reach.length > 14 ? ', ...' : ''}`);
    }
    out.push(`- why tests cannot settle it: ${p.why}`, '');
}
const known = fs.readFileSync(path.join(ROOT, 'known-findings.txt'), 'utf8').split('\n').filter(l => l && l[0] !== '#');
out.push('## Findings', '', 'Genuine defects of the code as it was found. Repaired in /repo by "fix:" commits unless stated otherwise', '(`known-findings.txt` has the same list in the form the checks read).', '');
for (const l of known.filter(l => l.startsWith('finding:'))) out.push('- recorded, not repaired: ' + l.replace(/^finding: /, ''));
for (const l of known.filter(l => l.startsWith('fixed:'))) {
    const m = /^fixed: property=(\S+) (\S+) (.*)$/.exec(l);
    out.push(`- ${m[1]} (${m[2]}): ${m[3]}`);
}
out.push('', '## Planted bugs', '', 'Each was written from the text of the property, passes the existing tests and is caught by the check named', '(quick tier).', '', '| change | caught by | needs |', '| --- | --- | --- |');
for (const s of fs.readdirSync(path.join(ROOT, 'seeded')).sort()) {
    const m = JSON.parse(fs.readFileSync(path.join(ROOT, 'seeded', s, 'meta.json')));
    out.push(`| ${s} | ${m.property} | ${m.needs} |`);
}
fs.writeFileSync(file, head + out.join('\n') + '\n' + fs.readFileSync(path.join(__dirname, 'design-tail.md'), 'utf8'));
