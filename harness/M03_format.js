'use strict';
exports.bounds = ['every subset of name, code, message and data, in four orders', 'every text of 0..2 units, with signs of percent, as title, name, code and message', 'whole numbers from -9 to 99999 as code', 'all three kinds, with and without titles, dividers, date and stack', 'printError, printInfo and printWarn with 0..3 texts of 0..2 units'];
exports.outside = ['how the data themselves are shown (done by Node)', 'the content of the stack', 'white space between the parts'];
exports.stubs = ['util.formatWithOptions: placeholders of Node; values that are no texts become <value n>', 'console.log records'];
const KEYS = ['name', 'code', 'message', 'data'];
const HEAD = { name: '名称', code: '代码', message: '消息', data: '数据' };
exports.cases = tier => {
    const out = [];
    for (const type of [undefined, 'error', 'info', 'warn'])
        for (let order = 0; order < 4; order++) out.push({ name: `parts ${type} ${order}`, params: { what: 'parts', type, order } });
    for (const key of ['title', 'name', 'code', 'message']) for (let n = 0; n <= (tier === 'quick' ? 2 : 3); n++) out.push({ name: `text of ${key} ${n}`, params: { what: 'text', key, n } });
    out.push({ name: 'options', params: { what: 'options' } });
    for (const f of ['printError', 'printInfo', 'printWarn']) out.push({ name: f, params: { what: 'print', f } });
    return out;
};
exports.mustReach = () => ['title', 'no title', 'parts', 'nothing', 'percent', 'stack', 'no stack', 'date', 'printed', 'dividers', 'no dividers'];
const CHARS = [[0x21, 0x7e], [0x4e00, 0x9fff]];
exports.run = (V, { what, type, order, key, n, f }) => {
    let options;
    V.stubs.util = {
        formatWithOptions(o, ...args) {
            options = o;
            const text = x => (typeof x === 'string' ? x : typeof x === 'number' ? String(x) : '<value ' + Object.keys(x).join() + '>');
            if (args.length === 0) return '';
            if (typeof args[0] !== 'string') return args.map(x => text(x)).join(' ');
            if (args.length === 1) return args[0];
            const s = args[0];
            let r = '';
            let a = 1;
            for (let i = 0; i < s.length; i++) {
                if (i + 1 < s.length && V.truth(V.eq(s[i], '%'))) {
                    if (V.truth(V.eq(s[i + 1], '%'))) {
                        r += '%';
                        i++;
                        continue;
                    }
                    if (a < args.length && V.truth(V.eq(s[i + 1], 'c'))) {
                        a++;
                        i++;
                        continue;
                    }
                    if (a < args.length && V.truth(V.or(...[...'sdifjoO'].map(c => V.eq(s[i + 1], c))))) {
                        r += text(args[a++]);
                        i++;
                        continue;
                    }
                }
                r += s[i];
            }
            for (; a < args.length; a++) r += ' ' + text(args[a]);
            return r;
        }
    };
    const logged = [];
    V.env.console = { log: (...a) => void logged.push(a), error: (...a) => V.check(false, 'log'), warn: (...a) => V.check(false, 'log'), info: (...a) => V.check(false, 'log') };
    const t = V.load('term');
    // what can be seen: sequences of colours do not count, nor do white space
    const visible = s => {
        const out = [];
        for (let i = 0; i < s.length; i++) {
            const c = s[i];
            if (V.truth(V.eq(c, '\u001b'))) {
                V.check(s[i + 1] === '[', 'a sequence');
                while (s[i] !== 'm') i++;
                continue;
            }
            if (V.truth(V.or(V.eq(c, ' '), V.eq(c, '\n')))) continue;
            out.push(c);
        }
        return out;
    };
    const expect = (seen, tokens) => {
        let at = 0;
        for (const [x, msg] of tokens) {
            if (x === null) {
                // something, up to the next token
                const rest = tokens[tokens.findIndex(p => p[1] === msg) + 1];
                const from = at;
                while (at < seen.length && !(rest && [...rest[0]].every((c, i) => V.truth(V.eq(seen[at + i], c))))) at++;
                V.check(at > from, msg);
                continue;
            }
            for (let i = 0; i < x.length; i++) {
                if (x[i] === ' ' || x[i] === '\n') continue;
                V.check(at < seen.length && V.eq(seen[at], x[i]), msg);
                at++;
            }
        }
        V.check(at === seen.length, 'and nothing else');
    };
    const kind = x => ({ info: 'INFO', warn: 'WARN' }[x] || 'ERROR');
    if (what === 'print') {
        const m = V.size('m', 0, 3);
        const texts = [];
        for (let i = 0; i < m; i++) texts.push(V.strUpTo('t' + i, 0, i === 0 ? 2 : 1, CHARS));
        const k = f.slice(5).toLowerCase();
        const r = t[f](...texts);
        V.check(r === undefined && logged.length === 1 && logged[0].length === 1, 'prints once');
        V.cover('printed');
        const some = m > 1 || (m === 1 && texts[0].length > 0);
        expect(visible(logged[0][0]), some ? [[kind(k), 'the kind'], ...texts.map((x, i) => [x, 'text ' + i])] : []);
        return;
    }
    const info = {};
    let show = { title: true, dividers: true };
    const opts = {};
    let date = true;
    let stack = false;
    if (what === 'parts') {
        if (type) info.type = type;
        const has = V.truth(V.bool('hasTitle'));
        if (has) info.title = 'The 100%d title';
        const ks = [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]][order].map(i => KEYS[i]);
        const values = { name: 'a%sname', code: V.truth(V.bool('numeric')) ? V.int('code', -9, 99999) : 'E_CODE', message: '50%d of %j', data: { some: 1, more: 2 } };
        for (const x of ks) if (V.truth(V.bool('has' + x))) info[x] = values[x];
        date = V.truth(V.bool('date'));
        info.date = date;
    } else if (what === 'text') {
        const s = V.str('s', n, CHARS);
        info.type = 'info';
        if (key !== 'title' && V.truth(V.bool('hasTitle'))) info.title = '%s';
        info[key] = s;
        if (key !== 'message' && V.truth(V.bool('hasMessage'))) info.message = '%d';
        date = info.date = false;
        if (n && V.truth(V.eq(s[0], '%'))) V.cover('percent');
    } else {
        const kindOf = V.choice('type', [undefined, 'error', 'info', 'warn']);
        if (kindOf) info.type = kindOf;
        if (V.truth(V.bool('hasTitle'))) info.title = 'title';
        if (V.truth(V.bool('hasMessage'))) info.message = 'message';
        const d = V.choice('date', [undefined, true, false]);
        if (d !== undefined) date = info.date = d;
        const s = V.choice('stack', [undefined, true, false]);
        if (s !== undefined) info.stack = s;
        stack = s === true;
        const disp = V.choice('display', [undefined, {}, { title: false }, { dividers: false }, { title: false, dividers: false }, { title: true, dividers: true }]);
        if (disp) opts.display = disp;
        show = { ...show, ...disp };
        const own = V.choice('own', [undefined, { depth: 1 }, { colors: false, sorted: false }]);
        Object.assign(opts, own);
        type = kindOf;
    }
    if (what === 'parts' || what === 'options') type = info.type;
    const before = JSON.stringify(Object.keys(info));
    const r = Object.keys(opts).length === 0 && V.truth(V.bool('noOptions')) ? t.format(info) : t.format(info, opts);
    V.check(JSON.stringify(Object.keys(info)) === before, 'the information is not changed');
    const tokens = [];
    if (show.title && typeof info.title !== 'undefined' && info.title.length) {
        tokens.push([kind(info.type), 'the kind'], [info.title, 'the title']);
        V.cover('title');
    } else V.cover('no title');
    if (show.dividers) {
        tokens.push(['-'.repeat(80), 'the divider']);
        V.cover('dividers');
    } else V.cover('no dividers');
    const parts = [];
    for (const x of Object.keys(info))
        if (x in HEAD) {
            const v = info[x];
            if (x !== 'data' && typeof v !== 'number' && !(v && v.length === undefined) && v.length === 0) continue;
            parts.push([HEAD[x], 'the heading of ' + x], [x === 'data' ? '<value some,more>' : x === 'code' && v.length === undefined ? String(v) : v, 'the content of ' + x]);
        }
    if (date && Object.keys(info).length) {
        parts.push(['时间', 'the heading of the date'], [null, 'a date']);
        V.cover('date');
    }
    if (Object.keys(info).length && (stack || ((info.type === undefined || info.type === 'error') && parts.length))) {
        parts.push(['堆栈', 'the heading of the stack'], [null, 'a stack']);
        V.cover('stack');
    } else V.cover('no stack');
    V.cover(parts.length ? 'parts' : 'nothing');
    tokens.push(...parts);
    if (show.dividers) tokens.push(['-'.repeat(80), 'the last divider']);
    expect(visible(r), tokens);
    for (const [k, v] of Object.entries({ showHidden: true, depth: null, colors: true, maxArrayLength: null, compact: false, sorted: true, ...opts })) if (k !== 'display') V.check(options[k] === v, 'the options for Node: ' + k);
};
