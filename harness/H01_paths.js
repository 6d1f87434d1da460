'use strict';
exports.bounds = ['every text of 0..5 (thorough 6) units, "~" or a drive or a prefix before it', 'home folders with blanks, dollars and a slash at the end', 'names and paths at the limits of length', 'posix'];
exports.outside = ['normalisation on Windows'];
exports.stubs = ['os.homedir', 'path.normalize: as Node does it on posix'];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 4 : 5); n++) {
        for (const pre of ['', '~', '~/', 'x/']) out.push({ name: `normalize ${pre}+${n}`, params: { what: 'normalize', n, pre } });
        for (const pre of ['', 'c:\\', '..\\', '\\\\?\\c:\\', '\\\\?\\', 'c:\\x\\']) out.push({ name: `windows ${pre}+${n}`, params: { what: 'windows', n, pre } });
    }
    for (const what of ['reserved', 'lengths', 'invalid', 'dots']) out.push({ name: what, params: { what } });
    return out;
};
exports.mustReach = () => ['home', 'up', 'plain', 'windows', 'no', 'reserved', 'long', 'extended'];
// what path.normalize of Node does on posix
const normal = p => {
    if (p.length === 0) return '.';
    const abs = p[0] === '/';
    const trail = p[p.length - 1] === '/';
    const out = [];
    for (const s of p.split('/')) {
        if (s === '' || s === '.') continue;
        if (s === '..') {
            if (out.length && out[out.length - 1] !== '..') out.pop();
            else if (!abs) out.push('..');
        } else out.push(s);
    }
    let r = out.join('/');
    if (r.length === 0) return abs ? '/' : trail ? './' : '.';
    if (trail) r += '/';
    return abs ? '/' + r : r;
};
exports.normal = normal;
exports.run = (V, { what, n, pre }) => {
    const HOMES = ['/home/u', '/h $& $1', '/h/', '/'];
    const home = what === 'normalize' ? V.choice('home', HOMES.slice(0, n > 3 ? 2 : 4)) : '/home/u';
    V.stubs.os = { ...require('os'), homedir: () => home };
    const path = require('path');
    const check = p => {
        if (typeof p !== 'string') throw Object.assign(new TypeError('The "path" argument must be of type string'), { code: 'ERR_INVALID_ARG_TYPE' });
        return p;
    };
    const own = { ...path, normalize: p => normal(check(p)) };
    V.stubs.path = { ...own, posix: own };
    const pkg = V.load('path');
    const at = (s, i) => s.charCodeAt(i);
    const is = (s, i, c) => i >= 0 && i < s.length && V.truth(V.eq(at(s, i), c.charCodeAt(0)));
    if (what === 'normalize') {
        const s = pre + V.str('s', n, [[0x20, 0x20], [0x24, 0x24], [0x2e, 0x2f], [0x5c, 0x5c], [0x61, 0x61], [0x7e, 0x7e]]);
        const r = pkg.normalize(s);
        const tilde = is(s, 0, '~') && (s.length === 1 || is(s, 1, '/') || is(s, 1, '\\'));
        V.cover(tilde ? 'home' : 'plain');
        if (tilde && s.length >= 4 && is(s, 1, '/') && is(s, 2, '.') && is(s, 3, '.')) V.cover('up');
        // the home folder first, then the dots and slashes
        V.check(V.eq(r, normal(tilde ? home + s.slice(1) : s)), 'the same place');
        if (tilde) V.check(is(r, 0, '/'), 'an absolute path');
        return;
    }
    if (what === 'invalid') {
        for (const x of [undefined, null, 5, {}, [], true]) V.check(V.attempt(() => pkg.normalize(x)).error instanceof TypeError, 'only texts');
        return;
    }
    // a drive, the current or the parent folder, then names that are allowed
    const reserved = s => {
        const three = ['CON', 'PRN', 'AUX', 'NUL'];
        if (s.length === 3) return three.some(w => is(s, 0, w[0]) && is(s, 1, w[1]) && is(s, 2, w[2]));
        if (s.length === 4) return ['COM', 'LPT'].some(w => is(s, 0, w[0]) && is(s, 1, w[1]) && is(s, 2, w[2])) && V.truth(V.and(at(s, 3) >= 49, at(s, 3) <= 57));
        return false;
    };
    const bad = c => V.or(false, ...[...'<>:"/\\|?*\n\r\u2028\u2029'].map(x => V.eq(c, x.charCodeAt(0))));
    const blank = c => V.or(V.and(c >= 9, c <= 13), V.eq(c, 32), V.eq(c, 0xa0), V.eq(c, 0x1680), V.and(c >= 0x2000, c <= 0x200a), V.eq(c, 0x2028), V.eq(c, 0x2029), V.eq(c, 0x202f), V.eq(c, 0x205f), V.eq(c, 0x3000), V.eq(c, 0xfeff));
    const windows = (s, max) => {
        if (s.length > max) return false;
        let i = 0;
        if (is(s, 0, '\\') && is(s, 1, '\\') && is(s, 2, '?') && is(s, 3, '\\')) i = 4;
        const drive = i < s.length && V.truth(V.or(V.and(at(s, i) >= 65, at(s, i) <= 90), V.and(at(s, i) >= 97, at(s, i) <= 122))) && is(s, i + 1, ':');
        if (drive) i += 2;
        else if (i === 0 && is(s, 0, '.')) i = is(s, 1, '.') ? 2 : 1;
        else return false;
        if (!is(s, i, '\\')) return false;
        i++;
        const names = [];
        let from = i;
        for (let j = i; j < s.length; j++) {
            if (!is(s, j, '\\')) continue;
            names.push(s.slice(from, j));
            from = j + 1;
        }
        if (from < s.length) names.push(s.slice(from));
        return names.every((x, j) => {
            if (x.length === 0 || x.length > max - 12 || reserved(x)) return false;
            for (let k = 0; k < x.length; k++) if (V.truth(bad(at(x, k)))) return false;
            if (x.length === 2 && is(x, 0, '.') && is(x, 1, '.')) return j < names.length - 1 || is(s, s.length - 1, '\\');
            const end = at(x, x.length - 1);
            // any blank at the very end, a plain one at the end of a folder
            return !V.truth(V.or(V.eq(end, 46), V.eq(end, 32))) && !(j === names.length - 1 && !is(s, s.length - 1, '\\') && V.truth(blank(end)));
        });
    };
    const ask = s => {
        for (const extend of [undefined, true]) {
            const want = windows(s, extend ? 32767 : 260);
            if (!extend) V.cover(want ? 'windows' : 'no');
            V.check(V.iff(pkg.isWindowsPath(s, extend), want), 'a path of Windows or none');
        }
        const ext = windows(s, 260) && is(s, 0, '\\') && is(s, 1, '\\') && is(s, 2, '?') && is(s, 3, '\\');
        if (ext) V.cover('extended');
        V.check(V.iff(pkg.isWindowsExtendedLengthPath(s), ext), 'the prefix of long paths');
        const r = pkg.unifiedSeparator(s);
        let want = '';
        for (let i = 0; i < s.length; i++) want += !ext && is(s, i, '\\') ? '/' : s[i];
        V.check(V.eq(r, want), 'one kind of separators, except in long paths');
    };
    if (what === 'windows') return ask(pre + V.str('s', n));
    if (what === 'dots') {
        // names that end in dots and blanks take no longer than others
        const s = 'c:\\' + 'a'.repeat(V.choice('len', [1, 10, 40, 200])) + V.str('end', 1, [[0x20, 0x20], [0x2e, 0x2e], [0x61, 0x61]]);
        return ask(s);
    }
    if (what === 'reserved') {
        const w = V.choice('w', ['CON', 'PRN', 'AUX', 'NUL', 'COM', 'LPT']);
        const s = V.strUpTo('r', 0, 2, [[0x2e, 0x3a], [0x41, 0x41], [0x5c, 0x5c]]);
        V.cover('reserved');
        return ask(V.choice('before', ['c:\\', 'c:\\x\\', '..\\', 'c:\\x']) + w + s);
    }
    V.cover('long');
    const k = V.choice('k', [247, 248, 249, 250, 256, 257, 258]);
    const c = V.str('c', 1, [[0x5c, 0x5c], [0x61, 0x61]]);
    ask('c:\\' + 'a'.repeat(k - 5) + c + 'bbbb');
};
