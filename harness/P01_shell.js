'use strict';
// every line break apart for cmd.exe, which cannot pass them
const LINE = [[1, 65535]];
const WIN = [[9, 9], [32, 126], [0x4e2d, 0x4e2d]];
exports.bounds = [
    'POSIX shells: every argument of 0..4 (thorough 5) code units, all but NUL, and two arguments of up to 2 each',
    'cmd.exe: arguments of 0..3 (thorough 4) ASCII characters without line breaks, for programs and for batch files'
];
exports.outside = ['the command text itself, which is shell input by definition', 'line breaks in arguments for cmd.exe', 'shells other than POSIX ones and cmd.exe'];
exports.stubs = ['child_process.spawn and spawnSync record their arguments and start nothing'];
exports.assumptions = ['the rules of POSIX shells for quotes, backslashes, patterns and braces, and those of cmd.exe and CommandLineToArgvW, as written down in the harness'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 4 : 5); n++) out.push({ name: 'sh' + n, params: { what: 'sh', lens: [n] } });
    for (let a = 0; a <= 2; a++) for (let b = 0; b <= 2; b++) out.push({ name: `sh${a}and${b}`, params: { what: 'sh', lens: [a, b] } });
    for (let n = 0; n <= (q ? 3 : 4); n++) for (const batch of [false, true]) out.push({ name: `cmd${n}${batch ? 'b' : ''}`, params: { what: 'cmd', lens: [n], batch } });
    out.push({ name: 'cmd1and1', params: { what: 'cmd', lens: [1, 1], batch: false } });
    out.push({ name: 'plain', params: { what: 'plain', lens: [2, 1] } });
    return out;
};
exports.mustReach = () => ['quoted', 'bare', 'empty', 'caret', 'none'];
exports.run = (V, { what, lens, batch }) => {
    const calls = [];
    const child = { stdout: null, stderr: null, stdin: null, on() { return child; } };
    V.stubs.child_process = {
        spawn(cmd, args, opts) {
            calls.push({ cmd, args, opts });
            return child;
        },
        spawnSync: () => ({ status: 0, stdout: batch ? 'C:\\x\\tool.cmd\r\n' : 'C:\\x\\tool.exe\r\n' }),
        exec() {}
    };
    const { spawn } = V.load('process');
    const args = lens.map((n, i) => V.str((what === 'cmd' ? 'w' : 'a') + i, n, what === 'cmd' ? WIN : LINE));
    const shell = what === 'sh' ? V.choice('shell', [true, '/bin/bash']) : what === 'cmd' ? 'C:\\Windows\\System32\\cmd.exe' : undefined;
    const given = args.slice();
    spawn('tool', args, shell === undefined ? {} : { shell });
    V.check(calls.length === 1, 'one process is started');
    const c = calls[0];
    V.check(args.length === given.length && args.every((a, i) => a === given[i] || V.truth(V.eq(a, given[i]))), 'the given list stays as it is');
    if (what === 'plain') {
        V.cover('none');
        V.observe(c.args);
        V.check(c.cmd === 'tool' && c.args.length === 2 && V.truth(V.and(V.eq(c.args[0], given[0]), V.eq(c.args[1], given[1]))), 'without a shell the arguments are passed as they are');
        return;
    }
    V.check(!c.opts.shell, 'the shell is started directly');
    const script = c.args[c.args.length - 1];
    V.observe(script);
    const is = (k, x) => k < script.length && V.truth(script.charAt(k) === x);
    const any = (k, xs) => V.truth(V.or(false, ...xs.split('').map(x => script.charAt(k) === x)));
    V.check(V.eq(script.slice(0, 5), 'tool '), 'the command comes first');
    if (what === 'sh') {
        V.check(c.cmd === (shell === true ? 'sh' : shell) && c.args.length === 2 && c.args[0] === '-c', 'run by the shell');
        // the words the shell reads, and the characters it would not take literally
        const words = [];
        let w = '';
        let open = false;
        let bad = false;
        let brackets = [];
        let braces = [];
        const end = () => {
            if (open) words.push(w);
            w = '';
            open = false;
            brackets = [];
            braces = [];
        };
        for (let k = 5; k < script.length; k++) {
            if (is(k, ' ')) {
                end();
                continue;
            }
            if (is(k, "'")) {
                V.cover('quoted');
                open = true;
                for (k++; k < script.length && !is(k, "'"); k++) w += script.charAt(k);
                if (k >= script.length) bad = true;
                continue;
            }
            if (is(k, '\\')) {
                open = true;
                k++;
                if (k >= script.length || is(k, '\n')) bad = true;
                else w += script.charAt(k);
                continue;
            }
            V.cover('bare');
            if (any(k, '|&;<>()$`"*?\t\n')) bad = true;
            if (!open && any(k, '#~')) bad = true;
            // [x] is a pattern, {a,b} and {a..b} are lists
            if (is(k, '[')) brackets.push(w.length);
            if (is(k, ']') && brackets.length && w.length > brackets[0] + 1) bad = true;
            if (is(k, '{')) braces.push(0);
            if (any(k, ',.') && braces.length) braces[braces.length - 1] += is(k, ',') ? 2 : 1;
            if (is(k, '}') && braces.length && braces.pop() >= 2) bad = true;
            open = true;
            w += script.charAt(k);
        }
        end();
        if (given.some(a => a.length === 0)) V.cover('empty');
        V.check(!bad, 'no character of an argument means anything to the shell');
        V.check(words.length === given.length && words.every((x, i) => V.truth(V.eq(x, given[i]))), 'the shell reads exactly the given arguments');
        return;
    }
    V.check(c.cmd === shell && c.opts.windowsVerbatimArguments === true && c.args.length === 4 && c.args.slice(0, 3).join(' ') === '/d /s /c', 'run by cmd.exe as it is');
    let text = script.slice(5);
    let bad = false;
    for (let round = 0; round < (batch ? 2 : 1); round++) {
        // cmd.exe: carets, quotes and special characters
        let out = '';
        let quoted = false;
        for (let k = 0; k < text.length; k++) {
            const ch = text.charAt(k);
            if (!quoted && V.truth(ch === '^')) {
                V.cover('caret');
                k++;
                if (k < text.length) out += text.charAt(k);
                else bad = true;
                continue;
            }
            if (V.truth(ch === '"')) quoted = !quoted;
            else if (V.truth(ch === '%')) bad = true;
            else if (!quoted && V.truth(V.or(ch === '|', ch === '&', ch === '<', ch === '>', ch === '(', ch === ')'))) bad = true;
            out += ch;
        }
        text = out;
    }
    // the program: quotes and backslashes
    const words = [];
    let w = '';
    let open = false;
    let quoted = false;
    for (let k = 0; k < text.length; ) {
        let slashes = 0;
        while (k < text.length && V.truth(text.charAt(k) === '\\')) {
            slashes++;
            k++;
        }
        if (slashes) open = true;
        if (k < text.length && V.truth(text.charAt(k) === '"')) {
            w += '\\'.repeat(slashes >> 1);
            open = true;
            if (slashes & 1) w += '"';
            else quoted = !quoted;
            k++;
            continue;
        }
        w += '\\'.repeat(slashes);
        if (k >= text.length) break;
        const ch = text.charAt(k++);
        if (!quoted && V.truth(V.or(ch === ' ', ch === '\t'))) {
            if (open) words.push(w);
            w = '';
            open = false;
        } else {
            w += ch;
            open = true;
        }
    }
    if (open) words.push(w);
    V.check(!bad, 'no character of an argument means anything to cmd.exe');
    V.check(words.length === given.length && words.every((x, i) => V.truth(V.eq(x, given[i]))), 'the program reads exactly the given arguments');
};
