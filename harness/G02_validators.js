'use strict';
exports.bounds = ['addresses: every text of up to 5 (thorough 6) characters; every skeleton of up to 8 groups with "::" anywhere, with and without an IPv4 tail, two parts of which are any 1..5 characters; brackets and ports of up to 6 characters', 'mail addresses: every text of up to 5 (thorough 6) characters and lengths at the limits', 'phone numbers: all positions of a number of 10..12 digits any, prefixes', 'links: every text of up to 4 characters behind a scheme, lengths at the limit'];
exports.outside = ['texts with more than two unusual parts'];
exports.stubs = [];
const V4 = ['0', '255', '256', '01', '1.2', ''];
exports.cases = tier => {
    const q = tier === 'quick';
    const out = [];
    for (let n = 0; n <= (q ? 4 : 5); n++) out.push({ name: 'short address ' + n, params: { what: 'ip', n } });
    for (let g = 0; g <= 9; g++) out.push({ name: `groups${g}`, params: { what: 'groups', g } }, { name: `groups${g} and IPv4`, params: { what: 'groups', g, tail: true } });
    out.push({ name: 'IPv4', params: { what: 'ipv4' } });
    for (let n = 0; n <= 6; n++) out.push({ name: 'port' + n, params: { what: 'port', n } });
    for (let n = 0; n <= (q ? 4 : 5); n++) out.push({ name: 'mail' + n, params: { what: 'mail', n } });
    for (const k of ['user', 'domain', 'whole', 'quoted']) out.push({ name: 'lengths of mail: ' + k, params: { what: 'lengths', k } });
    for (let n = 9; n <= 12; n++) for (const pre of ['', '+86', '0086', '86', '+']) out.push({ name: `phone ${pre}${n}`, params: { what: 'phone', n, pre } });
    for (let n = 0; n <= 4; n++) out.push({ name: 'link' + n, params: { what: 'link', n } });
    out.push({ name: 'lengths of links', params: { what: 'linklen' } });
    return out;
};
exports.mustReach = () => ['good', 'bad', 'good4', 'good6', 'good port', 'good mail', 'good phone', 'good link', 'too long'];
exports.run = (V, { what, n, g, tail, pre, k }) => {
    const pkg = V.load('regexp');
    const at = (s, i) => s.charCodeAt(i);
    const inR = (c, ...rs) => V.or(false, ...rs.map(([a, b]) => V.and(c >= a, c <= b)));
    const digit = c => inR(c, [48, 57]);
    const hex = c => inR(c, [48, 57], [65, 70], [97, 102]);
    const T = x => V.truth(x);
    // RFC 4291: eight groups, one run of which "::" may replace, and the last two of which may be an IPv4 address
    const octet = s => {
        if (s.length < 1 || s.length > 3) return false;
        let v = 0;
        for (let i = 0; i < s.length; i++) {
            if (!T(digit(at(s, i)))) return false;
            v = v * 10 + (at(s, i) - 48);
        }
        if (s.length > 1 && T(V.eq(at(s, 0), 48))) return false;
        return T(v <= 255);
    };
    const split = (s, code) => {
        const out = [];
        let from = 0;
        for (let i = 0; i < s.length; i++) {
            if (!T(V.eq(at(s, i), code))) continue;
            out.push(s.slice(from, i));
            from = i + 1;
        }
        out.push(s.slice(from));
        return out;
    };
    const ipv4 = s => {
        const p = split(s, 46);
        return p.length === 4 && p.every(octet);
    };
    const group = s => s.length >= 1 && s.length <= 4 && T(V.and(true, ...Array.from({ length: s.length }, (_, i) => hex(at(s, i)))));
    const ipv6 = s => {
        const parts = split(s, 58);
        if (parts.length < 3) return false;
        const list = p => {
            let count = 0;
            for (let i = 0; i < p.length; i++) {
                if (group(p[i])) count++;
                else if (i === p.length - 1 && ipv4(p[i])) count += 2;
                else return -1;
            }
            return count;
        };
        const empties = parts.map((p, i) => [p, i]).filter(([p]) => p.length === 0).map(([, i]) => i);
        if (!empties.length) return list(parts) === 8;
        // only one "::"; at an end it makes two empty parts
        const last = parts.length - 1;
        let left;
        let right;
        if (empties.length === 1) {
            if (empties[0] === 0 || empties[0] === last) return false;
            left = parts.slice(0, empties[0]);
            right = parts.slice(empties[0] + 1);
        } else if (empties.length === 2 && empties[0] === 0 && empties[1] === 1) {
            left = [];
            right = parts.slice(2);
        } else if (empties.length === 2 && empties[0] === last - 1 && empties[1] === last) {
            left = parts.slice(0, -2);
            right = [];
        } else if (empties.length === 3 && parts.length === 3) return true;
        else return false;
        if (left.length && !left.every(group)) return false;
        const a = left.length;
        const b = list(right);
        return b >= 0 && a + b <= 7;
    };
    const port = s => {
        if (s.length < 1 || s.length > 5) return false;
        let v = 0;
        for (let i = 0; i < s.length; i++) {
            if (!T(digit(at(s, i)))) return false;
            v = v * 10 + (at(s, i) - 48);
        }
        if (s.length > 1 && T(V.eq(at(s, 0), 48))) return false;
        return T(v <= 65535);
    };
    const ip = s => {
        if (!s.length || !T(V.eq(at(s, 0), 91))) return ipv4(s) || ipv6(s);
        for (let i = 1; i < s.length; i++) {
            if (!T(V.eq(at(s, i), 93))) continue;
            const rest = s.slice(i + 1);
            return ipv6(s.slice(1, i)) && (rest.length === 0 || (T(V.eq(at(rest, 0), 58)) && port(rest.slice(1))));
        }
        return false;
    };
    const isIp = (s, kind) => {
        const want = ip(s);
        V.cover(want ? 'good' : 'bad');
        if (want && kind) V.cover(kind);
        V.check(V.iff(pkg.isIp(s), want), 'an address or none');
        V.check(V.iff(pkg.isIp(s), want), 'the same when asked again');
    };
    const CHARS = [[0x2e, 0x2e], [0x30, 0x31], [0x35, 0x36], [0x3a, 0x3a], [0x41, 0x41], [0x47, 0x47], [0x5b, 0x5b], [0x5d, 0x5d], [0x66, 0x67]];
    if (what === 'ip') return isIp(V.str('s', n, CHARS));
    if (what === 'groups') {
        const gap = V.size('gap', 0, g + 1);
        const parts = Array.from({ length: g }, (_, i) => 'a' + i);
        if (tail) parts.push('1.2.3.4');
        const odd = V.choice('odd', [0, g - 1, Math.floor(g / 2), g]
            .filter((x, i, l) => x >= 0 && x < parts.length && l.indexOf(x) === i)
            .concat(-1));
        if (odd >= 0) parts[odd] = 'f'.repeat(V.size('before', 0, 4)) + V.str('part', 1, [[0, 0x7f]]);
        let s = parts.slice(0, gap).join(':');
        if (gap < parts.length || gap === g + 1) s += gap === g + 1 ? '' : '::' + parts.slice(gap).join(':');
        else s += '::';
        const around = odd >= 0 ? x => x : V.choice('around', [x => x, x => x + ' ', x => 'x' + x, x => '[' + x, x => '[' + x + ']', x => '[' + x + ']:80', x => x + '\n']);
        return isIp(around(s), 'good6');
    }
    if (what === 'ipv4') {
        const p = ['1', '2', '3', '4'];
        p[V.choice('odd', [0, 1, 3])] = V.strUpTo('part', 0, 4, [[0x30, 0x39], [0x2e, 0x2e], [0x61, 0x61]]);
        return isIp(p.join('.'), 'good4');
    }
    if (what === 'port') {
        const s = V.str('p', n, [[0x2f, 0x3a]]);
        return isIp('[::1]:' + s, 'good port');
    }
    if (what === 'mail' || what === 'lengths') {
        // user: names with dots between, or anything in quotes; domain: names with dots between, or an address in brackets
        const atext = c => inR(c, [48, 57], [65, 90], [97, 122], [0x23, 0x27], [0x2a, 0x2b], [0x2d, 0x2d], [0x2f, 0x2f], [0x3d, 0x3d], [0x5e, 0x60], [0x7b, 0x7e], [0x21, 0x21], [0x3f, 0x3f]);
        const each = (s, f) => T(V.and(true, ...Array.from({ length: s.length }, (_, i) => f(at(s, i)))));
        const mail = s => {
            if (s.length > 320) return false;
            let i = -1;
            for (let j = s.length - 1; j >= 0 && i < 0; j--) if (T(V.eq(at(s, j), 64))) i = j;
            if (i < 0) return false;
            const user = s.slice(0, i);
            const domain = s.slice(i + 1);
            if (user.length > 64 || domain.length > 255) return false;
            const quoted = user.length >= 3 && T(V.and(V.eq(at(user, 0), 34), V.eq(at(user, user.length - 1), 34))) && each(user.slice(1, -1), c => V.not(inR(c, [10, 10], [13, 13], [0x2028, 0x2029])));
            if (!quoted && !split(user, 46).every(p => p.length > 0 && each(p, atext))) return false;
            if (domain.length >= 2 && T(V.and(V.eq(at(domain, 0), 91), V.eq(at(domain, domain.length - 1), 93)))) {
                const p = split(domain.slice(1, -1), 46);
                return p.length === 4 && p.every(x => x.length >= 1 && x.length <= 3 && each(x, digit));
            }
            const names = split(domain, 46);
            const word = c => inR(c, [48, 57], [65, 90], [97, 122], [95, 95], [45, 45]);
            const letter = c => inR(c, [65, 90], [97, 122]);
            return names.every((p, j) => p.length >= 1 && p.length <= 64 && (j < names.length - 1 ? T(inR(at(p, 0), [48, 57], [65, 90], [97, 122])) && each(p, word) : p.length >= 2 && T(letter(at(p, 0))) && T(letter(at(p, p.length - 1))) && each(p, word)));
        };
        const ask = s => {
            const want = mail(s);
            V.cover(want ? 'good mail' : 'bad');
            V.check(V.iff(pkg.isEmail(s), want), 'a mail address or none');
        };
        if (what === 'mail') {
            const where = V.choice('where', ['all', 'user', 'domain']);
            const t = V.str('m', n, [[0x21, 0x23], [0x2d, 0x2e], [0x30, 0x30], [0x40, 0x41], [0x5b, 0x5b], [0x5d, 0x5d], [0x5f, 0x5f], [0x61, 0x61], [0x0a, 0x0a]]);
            return ask(where === 'all' ? t : where === 'user' ? t + '@a.bc' : 'a@' + t);
        }
        const c = V.str('c', 1, [[0x40, 0x41], [0x2e, 0x2e], [0x22, 0x22]]);
        const d = V.size('d', 62, 66);
        if (k === 'user') return ask('a'.repeat(d - 1) + c + '@b.cd');
        if (k === 'quoted') return ask('"' + 'a'.repeat(d - 4) + c + 'b"@b.cd');
        V.cover('too long');
        const e = V.size('e', 253, 257);
        if (k === 'domain') return ask('u@' + ('a'.repeat(60) + '.').repeat(4) + 'x'.repeat(e - 245) + c);
        return ask('u'.repeat(64) + '@' + ('a'.repeat(60) + '.').repeat(4) + 'x'.repeat(e - 245) + c);
    }
    if (what === 'phone') {
        const s = V.str('p', n, [[0x2b, 0x2b], [0x2f, 0x3a]]);
        const c = i => at(s, i);
        const all = n === 11 && T(V.and(V.eq(c(0), 49), ...Array.from({ length: 10 }, (_, i) => digit(c(i + 1)))));
        // a number behind a prefix; a prefix of "86" or "+" alone is none, but s itself may begin with one only if too short
        const levels = [0, 1, 2].map(l => {
            if (!all || !['', '+86', '0086'].includes(pre)) return false;
            if (l === 0) return true;
            if (l === 1) return T(c(1) >= 51);
            const second = x => c(2) - 48 === x;
            const of = { 3: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 4: [5, 6, 7, 9], 5: [0, 1, 2, 3, 5, 6, 7, 8, 9], 6: [5, 6, 7], 7: [0, 1, 2, 3, 4, 5, 6, 7, 8], 8: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 9: [0, 1, 2, 5, 6, 7, 8, 9] };
            return T(V.or(false, ...Object.keys(of).map(a => V.and(V.eq(c(1), 48 + +a), V.or(false, ...of[a].map(second))))));
        });
        V.cover(levels[1] ? 'good phone' : 'bad');
        const text = pre + s;
        levels.forEach((want, l) => V.check(V.iff(pkg.isChinaPhoneNumber(text, l), want), 'level ' + l));
        V.check(V.iff(pkg.isChinaPhoneNumber(text), levels[1]), 'level 1 unless told otherwise');
        if (pre === '' && all) V.check(V.iff(pkg.isChinaPhoneNumber(13000000000 + (V.concrete ? 0 : 0)), true), 'numbers too');
        return;
    }
    const okChar = c => V.or(inR(c, [48, 57], [65, 90], [97, 122], [95, 95]), V.or(false, ...[...'- ?!#$@&|^+/*~%=.,:;(){}<>\\`\'"[]'].map(x => V.eq(c, x.charCodeAt(0)))));
    const endChar = c => V.or(inR(c, [48, 57], [65, 90], [97, 122], [95, 95]), V.or(false, ...[...'+&@#/%=~|'].map(x => V.eq(c, x.charCodeAt(0)))));
    // whether every % begins the code of a character
    const decodes = s => {
        const hexv = c => (T(digit(c)) ? c - 48 : T(inR(c, [65, 70])) ? c - 55 : c - 87);
        for (let i = 0; i < s.length; i++) {
            if (!T(V.eq(at(s, i), 37))) continue;
            if (i + 2 >= s.length || !T(V.and(hex(at(s, i + 1)), hex(at(s, i + 2))))) return false;
            const b = hexv(at(s, i + 1)) * 16 + hexv(at(s, i + 2));
            if (!T(b < 128)) return false; // the texts are too short for more bytes
            i += 2;
        }
        return true;
    };
    if (what === 'link') {
        const scheme = V.choice('scheme', ['http://', 'https://', 'ftp://', 'file://', 'htp://', 'http', 'xhttp://', '']);
        const s = V.str('u', n, [[0x20, 0x7f], [0x4e00, 0x4e00]]);
        let want = ['http://', 'https://', 'ftp://', 'file://'].includes(scheme) && n >= 2;
        for (let i = 0; i < n && want; i++) want = T(i === n - 1 ? endChar(at(s, i)) : okChar(at(s, i)));
        want = want && decodes(s);
        V.cover(want ? 'good link' : 'bad');
        const r = V.attempt(() => pkg.isURI(scheme + s));
        V.check(r.ok, 'an answer');
        V.check(V.iff(r.value, want), 'a link or none');
        return;
    }
    const c = V.str('c', 1, [[0x20, 0x21], [0x61, 0x62], [0x25, 0x25], [0x5e, 0x5e]]);
    const len = V.size('len', 1996, 2001);
    const s = 'http://' + 'a'.repeat(len - 9) + c + 'z';
    // a blank takes three places when encoded
    const extra = T(V.or(V.eq(c, ' '), V.eq(c, '^'))) ? 2 : 0;
    V.cover('too long');
    const r = V.attempt(() => pkg.isURI(s));
    V.check(r.ok && V.truth(V.iff(r.value, T(V.not(V.eq(c, '%'))) && len + extra <= 2000)), 'links have up to 2000 characters');
};
