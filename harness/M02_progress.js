'use strict';
exports.bounds = ['0..12 steps (thorough 0..25)', 'every total from the number of steps to 12 (thorough 25), 99, 100, 101, 1000 and 2 ** 53 - 1, and none', 'every combination of the options, given and not given', 'a write without a step before every step or none', 'every text of 0..2 units (0..1 with a total)'];
exports.outside = ['steps beyond the total', 'totals that are not whole numbers are treated as no total'];
exports.stubs = ['process.stdout records what is written'];
const CSI = '\u001b[';
exports.cases = tier => {
    const top = tier === 'quick' ? 12 : 25;
    const r = [];
    for (let k = 0; k <= top; k++) r.push({ name: 'steps' + k, params: { k, opts: false, top } });
    for (const k of [0, 1, 2]) r.push({ name: 'options' + k, params: { k, opts: true } });
    r.push({ name: 'endless', params: { k: 2, endless: true } });
    return r;
};
exports.mustReach = () => ['complete', 'not complete', 'nothing to do', 'endless', 'hidden', 'not hidden', 'ended'];
exports.run = (V, { k, opts, endless, top = 12 }) => {
    const out = [];
    V.stubs.process = { stdout: { write: s => (out.push(s), true) } };
    const { ProgressBar } = V.load('term');
    const o = {};
    const flag = (name, vary) => {
        if (!vary) return true;
        const v = V.choice('opt' + name, [undefined, true, false]);
        if (v !== undefined) o[name] = v;
        return v !== false;
    };
    const percentage = flag('percentage', opts);
    const count = flag('count', opts);
    const picture = flag('picture', opts);
    const hidden = flag('hiddenCursor', opts || endless);
    let total = NaN;
    if (endless) {
        const t = V.choice('total', [undefined, NaN, Infinity, -1, 2.5]);
        if (t !== undefined) o.total = t;
    } else {
        total = V.choice('total' + k, [...Array(top + 1).keys(), 99, 100, 101, 1000, 2 ** 53 - 1].filter(x => x >= k && (!opts || [0, 1, 3, 100].includes(x))));
        o.total = total;
    }
    const bar = Object.keys(o).length === 0 && V.truth(V.bool('noargs')) ? new ProgressBar() : new ProgressBar(o);
    V.cover(hidden ? 'hidden' : 'not hidden');
    V.check(out.length === 0, 'nothing is written before the first step');
    const text = V.str('t', V.size('n', 0, endless ? 2 : 1), [[0x20, 0x7e], [0x4e00, 0x9fff]]);
    // what the terminal shows on the line of the bar
    let shown = '';
    let visible = true;
    const play = () => {
        const all = out.splice(0);
        for (const s of all) {
            let i = 0;
            let began = false;
            const seq = [CSI + '1G', CSI + '1E', CSI + '1A', CSI + 'A', CSI + 'E', CSI + 'G', CSI + '0K', CSI + 'K', CSI + '1K', CSI + '2K', CSI + '?25l', CSI + '?25h', '\r', '\n'];
            for (;;) {
                const hit = seq.find(q => i + q.length <= s.length && V.truth(V.eq(s.slice(i, i + q.length), q)));
                if (hit === undefined) {
                    if (i >= s.length) break;
                    shown = shown + s[i];
                    i++;
                    continue;
                }
                i += hit.length;
                if (hit === CSI + '?25l') visible = false;
                else if (hit === CSI + '?25h') visible = true;
                else if (hit.endsWith('K')) V.check(began, 'clears from the beginning of the line'), (shown = '');
                else if (hit.endsWith('G') || hit === '\r' || hit.endsWith('E')) began = true;
                else if (!hit.endsWith('A')) V.check(false, 'stays on the line');
            }
        }
        return all.length;
    };
    const expect = i => {
        if (endless) return 'RUNNING: ' + text;
        const parts = [];
        const of = (of, whole) => (total === 0 ? whole : Math.floor((i * of) / total));
        if (picture) {
            const n = of(10, 10);
            parts.push('[' + '#'.repeat(n) + ' '.repeat(10 - n) + ']');
        }
        if (percentage) parts.push(of(100, 100) + '%');
        if (count) parts.push('(' + i + '/' + total + ')');
        if (parts.length === 0 && hidden) parts.push('');
        return parts.join(' ') + ' ' + text;
    };
    const done = i => !endless && total === i;
    const look = (r, i) => {
        V.check(play() > 0, 'something is written');
        const d = done(i);
        V.check(r === d, 'tells whether it is complete');
        if (d) {
            V.cover(i === 0 ? 'nothing to do' : 'complete');
            V.check(shown === '' && visible, 'leaves the line and the cursor as they were');
        } else {
            V.cover(endless ? 'endless' : 'not complete');
            V.check(V.eq(shown, expect(i)), 'shows the progress');
            V.check(visible === !hidden, 'hides the cursor if asked to');
        }
        shown = '';
        return d;
    };
    const between = V.truth(V.bool('between'));
    for (let i = 0; i <= k; i++) {
        if (i > 0) {
            const r = opts && text.length === 0 && V.truth(V.bool('bare' + i)) ? bar.pushWrite() : bar.pushWrite(text);
            if (look(r, i)) return;
        }
        if (between || i === 0) if (look(bar.write(text), i)) return;
    }
    V.check(bar.end() === true, 'the end');
    play();
    V.cover('ended');
    V.check(shown === '' && visible, 'leaves the line and the cursor as they were');
};
