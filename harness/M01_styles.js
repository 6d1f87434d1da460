'use strict';
exports.bounds = ['every combination of the nine formats set and not given, and of the first and of the last five of them set, unset and not given (thorough: of all nine); every colour in front and behind', 'every text of 0..2 units', 'every whole number from -2 to 258, fifteen other numbers and six values that are none as colours'];
exports.outside = ['texts that contain sequences of their own'];
exports.stubs = [];
const KEYS = ['bold', 'dim', 'italic', 'underlined', 'blink', 'rapidBlink', 'reverse', 'hidden', 'crossedOut'];
const NAMES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white'].flatMap((c, i) => [[c, i], ['light' + c, i + 8]]);
exports.cases = tier => [
    ...(tier === 'quick' ? [[0, 9, 2], [0, 5, 3], [4, 9, 3]] : [[0, 9, 3]]).map(([a, b, ways]) => ({ name: `formats${a}-${b}-${ways}`, params: { what: 'formats', a, b, ways } })),
    { name: 'colours', params: { what: 'colours' } },
    ...[0, 1, 2].map(n => ({ name: 'text' + n, params: { what: 'text', n } })),
    { name: 'numbers', params: { what: 'numbers' } },
    { name: 'others', params: { what: 'others' } },
    { name: 'names', params: { what: 'names' } },
    { name: 'sequences', params: { what: 'sequences' } }
];
exports.mustReach = () => ['set', 'unset', 'coloured', 'plain', 'refused', 'moved'];
// what a terminal makes of the parameters of CSI ... m
const sgr = (state, text) => {
    const p = text === '' ? [0] : text.split(';').map(Number);
    for (let i = 0; i < p.length; i++) {
        const c = p[i];
        if (c === 0) for (const k of Object.keys(state)) delete state[k];
        else if (c >= 1 && c <= 9) state[KEYS[c - 1]] = true;
        else if (c === 22) {
            delete state.bold;
            delete state.dim;
        } else if (c === 25) {
            delete state.blink;
            delete state.rapidBlink;
        } else if (c === 23 || c === 24 || (c >= 27 && c <= 29)) delete state[KEYS[{ 23: 2, 24: 3, 27: 6, 28: 7, 29: 8 }[c]]];
        else if (c >= 30 && c <= 37) state.front = [c - 30];
        else if (c >= 90 && c <= 97) state.front = [c - 82];
        else if (c >= 40 && c <= 47) state.behind = [c - 40];
        else if (c >= 100 && c <= 107) state.behind = [c - 92];
        else if (c === 38 || c === 48) {
            const where = c === 38 ? 'front' : 'behind';
            if (p[i + 1] === 5) {
                state[where] = [p[i + 2]];
                i += 2;
            } else if (p[i + 1] === 2) {
                state[where] = [p[i + 2], p[i + 3], p[i + 4]];
                i += 4;
            } else return 'unknown colour';
        } else if (c === 39) delete state.front;
        else if (c === 49) delete state.behind;
        else return 'unknown code ' + c;
    }
    return null;
};
const show = s => JSON.stringify(Object.keys(s).sort().map(k => [k, s[k]]));
exports.run = (V, { what, n, a: from, b: to, ways }) => {
    const t = V.load('term');
    if (what === 'formats' || what === 'colours' || what === 'text') {
        const o = {};
        const want = {};
        const pick = what === 'formats' ? KEYS.slice(from, to) : what === 'text' ? ['bold', 'rapidBlink'] : ['bold'];
        for (const k of pick) {
            const v = V.truth(V.bool('has' + k)) ? true : (what !== 'formats' || ways === 3) && V.truth(V.bool('no' + k)) ? false : undefined;
            if (v !== undefined) o[k] = v;
            if (v) want[k] = true;
        }
        if (what !== 'formats') {
            const f = V.choice('front', [undefined, ...NAMES.map(([x]) => x)].slice(0, what === 'colours' ? 99 : 3));
            const b = V.choice('behind', [undefined, ...NAMES.map(([x]) => x)].slice(0, what === 'colours' ? 99 : 3));
            if (f) {
                o.foreground = f;
                want.front = [NAMES.find(([x]) => x === f)[1]];
                V.cover('coloured');
            }
            if (b) {
                o.background = b;
                want.behind = [NAMES.find(([x]) => x === b)[1]];
            }
        }
        const s = what === 'text' ? V.str('t', n, [[0x20, 0x7e], [0x4e00, 0x9fff]]) : 'text';
        const r = t.fontColor(s, o);
        if (s.length === 0) {
            V.check(r === '', 'nothing to show');
            V.check(t.fontColor('') === '' , 'nothing to show');
            return;
        }
        const m = 'x'.repeat(0);
        const CSI = '\u001b[';
        V.check(V.eq(r.slice(0, 2), CSI), 'begins with a sequence');
        let i = 2;
        while (i < r.length && r[i] !== 'm') i++;
        const head = m + r.slice(2, i);
        V.check(V.eq(r.slice(i + 1, i + 1 + s.length), s), 'the text itself');
        const tail = r.slice(i + 1 + s.length);
        V.check(tail.slice(0, 2) === CSI && tail[tail.length - 1] === 'm', 'ends with a sequence');
        const state = {};
        V.check(sgr(state, head) === null, 'known codes');
        V.check(show(state) === show(want), 'the text looks as asked');
        V.check(sgr(state, tail.slice(2, -1)) === null, 'known codes');
        V.check(show(state) === '[]', 'what follows looks as before');
        // the codes alone
        const a = t.ansiFormat(o);
        const all = {};
        for (const k of KEYS) if (o[k]) all[k] = true;
        const st = {};
        if (a.set !== '') sgr(st, a.set);
        V.check(show(st) === show(all), 'the codes that set');
        for (const k of KEYS) st[k] = true;
        if (a.reset !== '') sgr(st, a.reset);
        V.cover(Object.keys(o).length ? 'set' : 'plain');
        for (const k of KEYS)
            if (k in o) {
                V.check(!(k in st), 'the codes that unset: ' + k);
                if (!o[k]) V.cover('unset');
            }
        const others = KEYS.filter(k => !(k in o) && !(['bold', 'dim'].includes(k) && ('bold' in o || 'dim' in o)) && !(['blink', 'rapidBlink'].includes(k) && ('blink' in o || 'rapidBlink' in o)));
        V.check(others.every(k => k in st), 'and nothing else');
        const plain = t.fontColor(s);
        V.check(V.eq(plain.slice(-s.length), s), 'the text without styles');
        return;
    }
    if (what === 'numbers') {
        const c = V.int('c', -2, 258);
        const d = V.int('d', -2, 258);
        const e = V.int('e', -2, 258);
        const okc = V.truth(V.and(c >= 0, c <= 255));
        const r = V.attempt(() => t.colorCode8bit(c));
        V.check(V.iff(r.ok, okc), 'colours from 0 to 255');
        if (okc) V.check(V.and(V.eq(r.value.foreground, '38;5;' + c), V.eq(r.value.background, '48;5;' + c)), 'the code of the colour');
        else V.check(r.error instanceof TypeError, 'a TypeError');
        const okall = okc && V.truth(V.and(d >= 0, d <= 255, e >= 0, e <= 255));
        const q = V.attempt(() => t.colorCode24bit([c, d, e]));
        V.check(V.iff(q.ok, okall), 'all of them from 0 to 255');
        if (okall) V.check(V.and(V.eq(q.value.foreground, `38;2;${c};${d};${e}`), V.eq(q.value.background, `48;2;${c};${d};${e}`)), 'the code of the colour');
        else V.check(q.error instanceof TypeError, 'a TypeError');
        if (!okc) V.cover('refused');
        for (const bad of [[c], [c, d], [c, d, e, 1], 'abc', null, undefined, { length: 3 }]) V.check(!V.attempt(() => t.colorCode24bit(bad)).ok, 'three numbers');
        return;
    }
    if (what === 'others') {
        const x = V.choice('special', [NaN, Infinity, -Infinity, -0, 255, 256, 2 ** 31, 2 ** 53, 0.5, 254.5, 255.5, 1e300, 1e-300, -1e-300, -0.5]);
        const whole = x >= 0 && x <= 255 && Math.floor(x) === x;
        V.check(V.iff(V.attempt(() => t.colorCode8bit(x)).ok, whole), 'whole numbers from 0 to 255');
        V.check(V.iff(V.attempt(() => t.colorCode24bit([0, x, 0])).ok, whole), 'whole numbers from 0 to 255');
        for (const bad of ['1', null, undefined, true, [1], {}]) V.check(!V.attempt(() => t.colorCode8bit(bad)).ok, 'only numbers');
        return;
    }
    if (what === 'names') {
        const i = V.size('i', 0, NAMES.length);
        if (i === NAMES.length) {
            const bad = V.choice('bad', ['', 'Red', 'light', 'lightlightred', 'grey', undefined, 'toString', '1']);
            for (const f of ['colorNameCode3bit', 'colorNameCode8bit', 'colorNameCode24bit']) V.check(V.attempt(() => t[f](bad)).error instanceof TypeError, 'only colours: ' + f);
            V.check(!V.attempt(() => t.colorNameCode24bit('red', 'none')).ok, 'only terminals');
            return;
        }
        const [name, at] = NAMES[i];
        for (const f of ['colorNameCode3bit', 'colorNameCode8bit']) {
            const r = t[f](name);
            const s = {};
            sgr(s, r.foreground);
            V.check(show(s) === show({ front: [at] }), 'in front: ' + f);
            sgr(s, r.background);
            V.check(show(s) === show({ front: [at], behind: [at] }), 'behind: ' + f);
        }
        const rgb = {};
        for (const term of [undefined, 'VGA', 'CMD', 'Terminal.app', 'PuTTY', 'mlRC', 'xterm', 'Ubuntu']) {
            const r = t.colorNameCode24bit(name, term);
            const s = {};
            V.check(sgr(s, r.foreground) === null && sgr(s, r.background) === null, 'codes of a colour');
            V.check(s.front.length === 3 && show({ x: s.front }) === show({ x: s.behind }) && s.front.every(x => Number.isInteger(x) && x >= 0 && x <= 255), 'the same three numbers');
            rgb[term] = s.front.join();
        }
        V.check(rgb[undefined] === rgb.Ubuntu, 'Ubuntu unless told otherwise');
        V.check(rgb.VGA === (at === 3 ? '170,85,0' : [1, 2, 4].map(b => ((at & b) ? (at > 7 ? 255 : 170) : at > 7 ? 85 : 0)).join()), 'the colours of VGA');
        V.check(rgb.CMD === (at === 7 ? '192,192,192' : at === 8 ? '128,128,128' : [1, 2, 4].map(b => ((at & b) ? (at > 7 ? 255 : 128) : 0)).join()), 'the colours of CMD');
        return;
    }
    const k = V.int('k', 0, 300);
    const l = V.int('l', 1, 300);
    V.cover('moved');
    const CSI = '\u001b[';
    for (const [m, c] of [['up', 'A'], ['down', 'B'], ['forward', 'C'], ['back', 'D'], ['next', 'E'], ['previous', 'F'], ['absolute', 'G']]) {
        V.check(V.eq(t.cursorMove(m, k), CSI + k + c), 'move ' + m);
        V.check(t.cursorMove(m) === CSI + '1' + c, 'one ' + m);
    }
    V.check(V.eq(t.cursorPosition(k, l), CSI + k + ';' + l + 'H') && t.cursorPosition() === CSI + '1;1H', 'position of the cursor');
    V.check(V.eq(t.scrollPosition(k, l), CSI + k + ';' + l + 'f') && t.scrollPosition() === CSI + '1;1f', 'position of the screen');
    V.check(V.eq(t.eraseScreen(k), CSI + k + 'J') && t.eraseScreen() === CSI + '0J', 'erase the screen');
    V.check(V.eq(t.eraseLine(k), CSI + k + 'K') && t.eraseLine() === CSI + '0K', 'erase a line');
    V.check(V.eq(t.scrollUp(k), CSI + k + 'S') && t.scrollUp() === CSI + '1S', 'scroll up');
    V.check(V.eq(t.scrollDown(k), CSI + k + 'T') && t.scrollDown() === CSI + '1T', 'scroll down');
    V.check(t.cursorHidden === CSI + '?25l' && t.cursorShow === CSI + '?25h' && t.CSI === CSI && t.ESC === '\u001b', 'the sequences');
    V.check(t.cursorSave === CSI + 's' && t.cursorRestore === CSI + 'u', 'the sequences');
};
