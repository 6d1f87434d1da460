'use strict';
// ECMAScript regular expressions over symbolic code units: a parser (Annex B
// grammar; the pattern itself may contain symbolic units), a backtracking
// matcher with the specification's priorities that forks on character tests,
// and a formula matcher that decides `test` without forking.
const T = require('./terms');

let rt; // runtime (branch, unsupported)
const init = r => (rt = r);

/* ------------------------------------------------------- character sets */
const MAXU = 0xffff;
const DIGIT = [[48, 57]];
const WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
const SPACE = T.normRanges([
    [9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a],
    [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]
]);
const LINE = T.normRanges([[10, 10], [13, 13], [0x2028, 0x2029]]);
const neg = (rs, max) => T.complRanges(T.normRanges(rs.map(r => r.slice())), 0, max);

const propCache = new Map();
function propRanges(name, max) {
    const key = name + max;
    let rs = propCache.get(key);
    if (!rs) {
        const re = new RegExp(`^\\p{${name}}$`, 'u');
        rs = [];
        for (let c = 0; c <= 0x10ffff; c++) {
            if (!re.test(String.fromCodePoint(c))) continue;
            const l = rs[rs.length - 1];
            if (l && l[1] === c - 1) l[1] = c;
            else rs.push([c, c]);
        }
        propCache.set(key, rs);
    }
    return rs;
}
// non-unicode Canonicalize
let canonTable = null;
let canonBack = null;
function canonInit() {
    canonTable = new Uint16Array(65536);
    canonBack = new Map();
    for (let c = 0; c < 65536; c++) {
        const s = String.fromCharCode(c).toUpperCase();
        let v = c;
        if (s.length === 1) {
            const d = s.charCodeAt(0);
            if (!(c >= 128 && d < 128)) v = d;
        }
        canonTable[c] = v;
        if (!canonBack.has(v)) canonBack.set(v, []);
        canonBack.get(v).push(c);
    }
}
function foldRanges(rs) {
    if (!canonTable) canonInit();
    const out = [];
    for (const [a, b] of rs) {
        if (b - a > 3000) {
            out.push([a, b]);
            // add case variants of the whole range
            const seen = new Set();
            for (let c = a; c <= Math.min(b, MAXU); c++) seen.add(canonTable[c]);
            for (const v of seen) for (const c of canonBack.get(v)) out.push([c, c]);
            continue;
        }
        for (let c = a; c <= Math.min(b, MAXU); c++) for (const d of canonBack.get(canonTable[c])) out.push([d, d]);
    }
    return T.normRanges(out);
}
// unicode simple case folding: the groups of characters that fold to the same one
let groups = null;
function foldGroups() {
    if (groups) return groups;
    const to = new Map();
    const find = c => {
        while (to.has(c) && to.get(c) !== c) c = to.get(c);
        return c;
    };
    const same = (c, d) => new RegExp(`^\\u{${c.toString(16)}}$`, 'iu').test(String.fromCodePoint(d));
    const join = (c, d) => {
        if (find(c) === find(d) || !same(c, d)) return;
        to.set(find(c), find(d));
    };
    for (let c = 0; c <= 0x10ffff; c++) {
        if (c >= 0xd800 && c < 0xe000) continue;
        const ch = String.fromCodePoint(c);
        for (const x of [ch.toLowerCase(), ch.toUpperCase(), ch.toUpperCase().toLowerCase()]) {
            const d = x.codePointAt(0);
            if (d !== c && x === String.fromCodePoint(d)) join(c, d);
        }
    }
    for (const [c, d] of [[0x390, 0x1fd3], [0x3b0, 0x1fe3], [0xfb05, 0xfb06]]) join(c, d);
    const by = new Map();
    for (const c of new Set([...to.keys(), ...to.values()])) {
        const r = find(c);
        if (!by.has(r)) by.set(r, []);
        by.get(r).push(c);
    }
    groups = [...by.values()].filter(g => g.length > 1);
    return groups;
}
const asciiUp = t => T.iite(T.inSet(t, [[97, 122]]), T.sub(t, 32), t);

/* --------------------------------------------------------------- parser */
class RegexSyntax extends Error {}

function parse(pu, flags) {
    const I = flags.includes('i');
    const U = flags.includes('u');
    const M = flags.includes('m');
    const S = flags.includes('s');
    if (flags.includes('v')) rt.unsupported('regex v flag');
    const max = U ? 0x10ffff : MAXU;
    let p = 0;
    let ncap = 0;
    const names = new Map();
    const fail = m => {
        throw new RegexSyntax(`Invalid regular expression: ${m}`);
    };
    const more = () => p < pu.length;
    const is = ch => p < pu.length && isc(pu[p], ch.charCodeAt(0));
    const isc = (u, c) => (T.isT(u) ? rt.branch(T.eq(u, c)) : u === c);
    const isAt = (i, ch) => i < pu.length && isc(pu[i], ch.charCodeAt(0));
    const inr = (u, rs) => (T.isT(u) ? rt.branch(T.inSet(u, rs)) : T.inRangesC(u, rs));
    const eat = ch => (is(ch) ? (p++, true) : false);
    const eatS = s => {
        for (let i = 0; i < s.length; i++) if (!isAt(p + i, s[i])) return false;
        p += s.length;
        return true;
    };
    const conc = u => (T.isT(u) ? rt.pickTerm(u, 'regex syntax') : u);
    const cls = rs => ({ k: 'set', rs: I ? fold(rs) : T.normRanges(rs.map(r => r.slice())) });
    const fold = rs => {
        if (U) {
            const out = rs.map(r => r.slice());
            for (const g of foldGroups()) if (g.some(c => T.inRangesC(c, rs))) for (const c of g) out.push([c, c]);
            return T.normRanges(out);
        }
        return foldRanges(rs);
    };
    const char = u => (T.isT(u) ? { k: 'term', t: u, i: I } : cls([[u, u]]));

    // count groups first (for back references): scan concretely when possible
    let totalCaps = null;
    const countCaps = () => {
        if (totalCaps !== null) return totalCaps;
        let n = 0;
        let inC = false;
        for (let i = 0; i < pu.length; i++) {
            const u = pu[i];
            if (T.isT(u)) continue;
            if (u === 92) i++;
            else if (inC) inC = u !== 93;
            else if (u === 91) inC = true;
            else if (u === 40 && (pu[i + 1] !== 63 || (pu[i + 2] === 60 && pu[i + 3] !== 61 && pu[i + 3] !== 33))) n++;
        }
        return (totalCaps = n);
    };

    function disjunction() {
        const alts = [alternative()];
        while (eat('|')) alts.push(alternative());
        return alts.length === 1 ? alts[0] : { k: 'alt', xs: alts };
    }
    function alternative() {
        const xs = [];
        while (more() && !is('|') && !is(')')) xs.push(term());
        return { k: 'seq', xs };
    }
    function term() {
        const cap0 = ncap;
        let atom;
        let quantifiable = true;
        if (eat('^')) return { k: 'bol', m: M };
        if (eat('$')) return { k: 'eol', m: M };
        if (is('(')) {
            p++;
            if (eat('?')) {
                if (eat(':')) atom = { k: 'nc', x: disjunction() };
                else if (eat('=')) atom = { k: 'look', x: disjunction(), neg: false };
                else if (eat('!')) atom = { k: 'look', x: disjunction(), neg: true };
                else if (eat('<')) {
                    if (eat('=')) {
                        atom = { k: 'look', x: disjunction(), neg: false, behind: true };
                        quantifiable = false;
                    } else if (eat('!')) {
                        atom = { k: 'look', x: disjunction(), neg: true, behind: true };
                        quantifiable = false;
                    } else {
                        let name = '';
                        while (more() && !is('>')) name += String.fromCharCode(conc(pu[p++]));
                        if (!eat('>')) fail('Invalid capture group name');
                        const n = ++ncap;
                        names.set(name, n);
                        atom = { k: 'cap', n, x: disjunction() };
                    }
                } else fail('Invalid group');
            } else {
                const n = ++ncap;
                atom = { k: 'cap', n, x: disjunction() };
            }
            if (!eat(')')) fail('Unterminated group');
        } else if (is('*') || is('+') || is('?')) {
            fail('Nothing to repeat');
        } else if (eat('.')) {
            atom = { k: 'set', rs: S ? [[0, max]] : neg(LINE, max) };
        } else if (eat('[')) {
            atom = charClass();
        } else if (is('\\')) {
            p++;
            atom = escape();
            if (atom.k === 'wordb') return atom;
        } else if (U && (is(']') || is('{') || is('}'))) {
            fail('Lone quantifier brackets');
        } else if (is(')')) fail('Unmatched )');
        else {
            if (!U && is('{')) {
                const s = p;
                if (braces()) fail('Nothing to repeat');
                p = s;
            }
            atom = char(readCp());
        }
        // quantifier
        let q = null;
        if (eat('*')) q = [0, Infinity];
        else if (eat('+')) q = [1, Infinity];
        else if (eat('?')) q = [0, 1];
        else if (is('{')) {
            const s = p;
            q = braces();
            if (!q) {
                if (U) fail('Incomplete quantifier');
                p = s;
            }
        }
        if (q) {
            if (!quantifiable) fail('Nothing to repeat');
            if (q[1] < q[0]) fail('numbers out of order in {} quantifier');
            const lazy = eat('?');
            return { k: 'rep', min: q[0], max: q[1], lazy, x: atom, c0: cap0 + 1, c1: ncap };
        }
        return atom;
    }
    function readCp() {
        const u = pu[p++];
        if (U && more()) {
            const hi = inr(u, [[0xd800, 0xdbff]]);
            if (hi && inr(pu[p], [[0xdc00, 0xdfff]])) {
                const v = pu[p++];
                return T.add(T.add(T.scale(T.sub(u, 0xd800), 0x400), T.sub(v, 0xdc00)), 0x10000);
            }
        }
        return u;
    }
    function digits() {
        let s = '';
        while (more() && inr(pu[p], DIGIT)) s += String.fromCharCode(conc(pu[p++]));
        return s;
    }
    function braces() {
        if (!eat('{')) return null;
        const a = digits();
        if (!a) return null;
        if (eat('}')) return [Number(a), Number(a)];
        if (!eat(',')) return null;
        if (eat('}')) return [Number(a), Infinity];
        const b = digits();
        if (!b || !eat('}')) return null;
        return [Number(a), Number(b)];
    }
    function hex(n) {
        const s = p;
        let v = 0;
        for (let i = 0; i < n; i++) {
            if (!more()) return (p = s), null;
            const u = conc(pu[p]);
            const d = parseInt(String.fromCharCode(u), 16);
            if (d !== d || !/[0-9a-fA-F]/.test(String.fromCharCode(u))) return (p = s), null;
            v = v * 16 + d;
            p++;
        }
        return v;
    }
    function classEscape() {
        // after the backslash; returns ranges or null
        if (eat('d')) return DIGIT;
        if (eat('D')) return neg(DIGIT, max);
        if (eat('w')) return WORD;
        if (eat('W')) return neg(WORD, max);
        if (eat('s')) return SPACE;
        if (eat('S')) return neg(SPACE, max);
        if (U && (is('p') || is('P'))) {
            const n = is('P');
            p++;
            if (!eat('{')) fail('Invalid property name');
            let name = '';
            while (more() && !is('}')) name += String.fromCharCode(conc(pu[p++]));
            if (!eat('}')) fail('Invalid property name');
            const rs = propRanges(name, max);
            return n ? neg(rs, max) : rs;
        }
        return null;
    }
    function charEscape(inClass) {
        if (!more()) fail('\\ at end of pattern');
        const s = p;
        if (eat('t')) return 9;
        if (eat('n')) return 10;
        if (eat('v')) return 11;
        if (eat('f')) return 12;
        if (eat('r')) return 13;
        if (inClass && eat('b')) return 8;
        if (inClass && U && eat('-')) return 45;
        if (eat('c')) {
            if (more() && inr(pu[p], [[65, 90], [97, 122]])) return conc(pu[p++]) % 32;
            if (U) fail('Invalid unicode escape');
            if (inClass && more() && inr(pu[p], [[48, 57], [95, 95]])) return conc(pu[p++]) % 32;
            p = s; // matches a backslash
            return 92;
        }
        if (eat('x')) {
            const v = hex(2);
            if (v !== null) return v;
            if (U) fail('Invalid escape');
            return 120;
        }
        if (eat('u')) {
            if (U && eat('{')) {
                let v = 0;
                let n = 0;
                while (more() && !is('}')) {
                    const h = hex(1);
                    if (h === null) fail('Invalid Unicode escape');
                    v = v * 16 + h;
                    n++;
                }
                if (!n || !eat('}') || v > 0x10ffff) fail('Invalid Unicode escape');
                return v;
            }
            const v = hex(4);
            if (v === null) {
                if (U) fail('Invalid Unicode escape');
                return 117;
            }
            if (U && v >= 0xd800 && v <= 0xdbff) {
                const s2 = p;
                if (eat('\\') && eat('u')) {
                    const w = hex(4);
                    if (w !== null && w >= 0xdc00 && w <= 0xdfff) return (v - 0xd800) * 0x400 + (w - 0xdc00) + 0x10000;
                }
                p = s2;
            }
            return v;
        }
        if (is('0') && !(p + 1 < pu.length && inr(pu[p + 1], DIGIT))) {
            p++;
            return 0;
        }
        if (!U && inr(pu[p], [[48, 55]])) {
            // legacy octal
            let v = 0;
            let n = 0;
            while (more() && n < 3 && inr(pu[p], [[48, 55]])) {
                const d = conc(pu[p]) - 48;
                if (v * 8 + d > 255) break;
                v = v * 8 + d;
                p++;
                n++;
            }
            return v;
        }
        if (U) {
            if (inr(pu[p], [[36, 36], [40, 43], [46, 47], [63, 63], [91, 94], [123, 125]])) return pu[p++];
            fail('Invalid escape');
        }
        if (!U && names.size && is('k')) rt.unsupported('regex \\k');
        return pu[p++]; // identity escape
    }
    function escape() {
        if (!more()) fail('\\ at end of pattern');
        if (eat('b')) return { k: 'wordb', neg: false };
        if (eat('B')) return { k: 'wordb', neg: true };
        const rs = classEscape();
        if (rs) return cls(rs);
        if (inr(pu[p], [[49, 57]])) {
            const s = p;
            const d = Number(digits());
            if (d <= countCaps()) return { k: 'ref', n: d, i: I };
            if (U) fail('Invalid escape');
            p = s;
            if (inr(pu[p], [[56, 57]])) return char(pu[p++]);
            return char(charEscape(false));
        }
        if ((names.size || U) && is('k')) {
            p++;
            if (!eat('<')) fail('Invalid named reference');
            let name = '';
            while (more() && !is('>')) name += String.fromCharCode(conc(pu[p++]));
            eat('>');
            return { k: 'ref', name, names, i: I };
        }
        return char(charEscape(false));
    }
    function charClass() {
        const negc = eat('^');
        const rs = [];
        const terms = []; // [lo, hi] with symbolic bounds
        for (;;) {
            if (!more()) fail('Unterminated character class');
            if (eat(']')) break;
            const a = classAtom();
            if (is('-') && !isAt(p + 1, ']') && p + 1 < pu.length) {
                p++;
                const b = classAtom();
                if (Array.isArray(a) || Array.isArray(b)) {
                    if (U) fail('Invalid character class');
                    for (const x of [a, 45, b]) Array.isArray(x) ? rs.push(...x) : T.isT(x) ? terms.push([x, x]) : rs.push([x, x]);
                } else {
                    if (rt.branch(T.lt(b, a))) fail('Range out of order in character class');
                    if (T.isT(a) || T.isT(b)) terms.push([a, b]);
                    else rs.push([a, b]);
                }
            } else if (Array.isArray(a)) rs.push(...a);
            else if (T.isT(a)) terms.push([a, a]);
            else rs.push([a, a]);
        }
        let r = T.normRanges(rs.map(x => x.slice()));
        if (I) r = fold(r);
        if (terms.length) return { k: 'class', rs: r, terms, neg: negc, i: I };
        return { k: 'set', rs: negc ? neg(r, max) : r };
    }
    function classAtom() {
        if (eat('\\')) {
            const rs = classEscape();
            if (rs) return rs;
            return charEscape(true);
        }
        return readCp();
    }
    const ast = disjunction();
    if (more()) fail('Unmatched )');
    return { ast, ncap, names, I, U, M, S };
}

/* ------------------------------------------------------------- matching */
// formula: does the (code point) term satisfy this character node?
function charCond(node, c) {
    if (node.k === 'set') return T.inSet(c, node.rs);
    if (node.k === 'term') return node.i ? T.eq(asciiUp(c), asciiUp(node.t)) : T.eq(c, node.t);
    // class with symbolic members
    const f = node.i ? asciiUp : x => x;
    const cs = node.terms.map(([a, b]) =>
        a === b ? T.eq(f(c), f(a)) : node.i ? rt.unsupported('symbolic range with i') : T.and(T.le(a, c), T.le(c, b))
    );
    const any = T.or(T.inSet(c, node.rs), ...cs);
    return node.neg ? T.not(any) : any;
}
const isChar = n => n.k === 'set' || n.k === 'term' || n.k === 'class';
const wordCond = c => T.inSet(c, WORD);

// read the code point at e (dir 1) or before e (dir -1): [cp, newE] or null
function readAt(re, inp, e, dir) {
    if (dir > 0) {
        if (e >= inp.length) return null;
        const u = inp[e];
        if (re.U && e + 1 < inp.length && rt.branch(T.inSet(u, [[0xd800, 0xdbff]])) && rt.branch(T.inSet(inp[e + 1], [[0xdc00, 0xdfff]])))
            return [T.add(T.add(T.scale(T.sub(u, 0xd800), 0x400), T.sub(inp[e + 1], 0xdc00)), 0x10000), e + 2];
        return [u, e + 1];
    }
    if (e <= 0) return null;
    const u = inp[e - 1];
    if (re.U && e - 2 >= 0 && rt.branch(T.inSet(u, [[0xdc00, 0xdfff]])) && rt.branch(T.inSet(inp[e - 2], [[0xd800, 0xdbff]])))
        return [T.add(T.add(T.scale(T.sub(inp[e - 2], 0xd800), 0x400), T.sub(u, 0xdc00)), 0x10000), e - 2];
    return [u, e - 1];
}

function run(re, inp, at) {
    const n = inp.length;
    const m = (node, e, caps, dir, k) => {
        if (isChar(node)) {
            const r = readAt(re, inp, e, dir);
            if (!r) return null;
            if (!rt.branch(charCond(node, r[0]))) return null;
            return k(r[1], caps);
        }
        switch (node.k) {
            case 'seq': {
                const xs = node.xs;
                const step = (i, e2, c2) => {
                    if (i === xs.length) return k(e2, c2);
                    const x = dir > 0 ? xs[i] : xs[xs.length - 1 - i];
                    return m(x, e2, c2, dir, (e3, c3) => step(i + 1, e3, c3));
                };
                return step(0, e, caps);
            }
            case 'alt':
                for (const x of node.xs) {
                    const r = m(x, e, caps, dir, k);
                    if (r) return r;
                }
                return null;
            case 'nc':
                return m(node.x, e, caps, dir, k);
            case 'cap':
                return m(node.x, e, caps, dir, (e2, c2) => {
                    const c = c2.slice();
                    c[node.n] = dir > 0 ? [e, e2] : [e2, e];
                    return k(e2, c);
                });
            case 'bol':
                if (e === 0) return k(e, caps);
                return node.m && rt.branch(T.inSet(inp[e - 1], LINE)) ? k(e, caps) : null;
            case 'eol':
                if (e === n) return k(e, caps);
                return node.m && rt.branch(T.inSet(inp[e], LINE)) ? k(e, caps) : null;
            case 'wordb': {
                const a = e > 0 && rt.branch(wordCond(inp[e - 1]));
                const b = e < n && rt.branch(wordCond(inp[e]));
                return (a !== b) !== node.neg ? k(e, caps) : null;
            }
            case 'look': {
                const r = m(node.x, e, caps, node.behind ? -1 : 1, (e2, c2) => ({ e: e2, caps: c2 }));
                if (node.neg) return r ? null : k(e, caps);
                return r ? k(e, r.caps) : null;
            }
            case 'ref': {
                const c = caps[node.name ? node.names.get(node.name) : node.n];
                if (!c) return k(e, caps);
                const len = c[1] - c[0];
                const s = dir > 0 ? e : e - len;
                if (s < 0 || s + len > n) return null;
                const cs = [];
                for (let i = 0; i < len; i++) {
                    const a = inp[c[0] + i];
                    const b = inp[s + i];
                    cs.push(node.i ? T.eq(asciiUp(a), asciiUp(b)) : T.eq(a, b));
                }
                return rt.branch(T.and(...cs)) ? k(dir > 0 ? e + len : s, caps) : null;
            }
            case 'rep': {
                const go = (count, e2, c2) => {
                    const tryMore = () => {
                        if (count >= node.max) return null;
                        let c3 = c2;
                        if (node.c1 >= node.c0) {
                            c3 = c2.slice();
                            for (let i = node.c0; i <= node.c1; i++) c3[i] = undefined;
                        }
                        return m(node.x, e2, c3, dir, (e4, c4) => {
                            if (count >= node.min && e4 === e2) return null;
                            return go(count + 1, e4, c4);
                        });
                    };
                    if (count < node.min) return tryMore();
                    if (node.lazy) return k(e2, c2) || tryMore();
                    return tryMore() || k(e2, c2);
                };
                return go(0, e, caps);
            }
        }
        throw new Error('regex node ' + node.k);
    };
    return m(re.ast, at, [], 1, (e, caps) => ({ start: at, end: e, caps }));
}

/* ----------------------------------------------- formula (non-forking) */
const formulable = n => {
    switch (n.k) {
        case 'seq':
        case 'alt':
            return n.xs.every(formulable);
        case 'nc':
        case 'cap':
        case 'rep':
        case 'look':
            return formulable(n.x);
        case 'ref':
            return false;
    }
    return true;
};
function testFormula(re, inp) {
    const n = inp.length;
    const addTo = (map, e, c) => {
        if (c === false) return;
        map.set(e, map.has(e) ? T.or(map.get(e), c) : c);
    };
    // map: position -> condition
    const step = (node, map, dir) => {
        const out = new Map();
        if (isChar(node)) {
            for (const [e, c] of map) {
                const j = dir > 0 ? e : e - 1;
                if (j < 0 || j >= n) continue;
                addTo(out, dir > 0 ? e + 1 : e - 1, T.and(c, charCond(node, inp[j])));
            }
            return out;
        }
        switch (node.k) {
            case 'seq': {
                let cur = map;
                for (let i = 0; i < node.xs.length && cur.size; i++) cur = step(dir > 0 ? node.xs[i] : node.xs[node.xs.length - 1 - i], cur, dir);
                return cur;
            }
            case 'alt':
                for (const x of node.xs) for (const [e, c] of step(x, map, dir)) addTo(out, e, c);
                return out;
            case 'nc':
            case 'cap':
                return step(node.x, map, dir);
            case 'bol':
                for (const [e, c] of map) addTo(out, e, e === 0 ? c : node.m ? T.and(c, T.inSet(inp[e - 1], LINE)) : false);
                return out;
            case 'eol':
                for (const [e, c] of map) addTo(out, e, e === n ? c : node.m ? T.and(c, T.inSet(inp[e], LINE)) : false);
                return out;
            case 'wordb':
                for (const [e, c] of map) {
                    const a = e > 0 ? wordCond(inp[e - 1]) : false;
                    const b = e < n ? wordCond(inp[e]) : false;
                    const same = T.iff(a, b);
                    addTo(out, e, T.and(c, node.neg ? same : T.not(same)));
                }
                return out;
            case 'look':
                for (const [e, c] of map) {
                    const r = step(node.x, new Map([[e, true]]), node.behind ? -1 : 1);
                    const any = T.or(...r.values());
                    addTo(out, e, T.and(c, node.neg ? T.not(any) : any));
                }
                return out;
            case 'rep': {
                let cur = map;
                for (let i = 0; i < node.min && cur.size; i++) cur = step(node.x, cur, dir);
                for (const [e, c] of cur) addTo(out, e, c);
                const limit = Math.min(node.max - node.min, n + 1);
                for (let i = 0; i < limit && cur.size; i++) {
                    const next = step(node.x, cur, dir);
                    const fresh = new Map();
                    for (const [e, c] of next) {
                        // an iteration that consumes nothing adds nothing
                        if (cur.has(e) && cur.get(e) === c) continue;
                        addTo(fresh, e, c);
                        addTo(out, e, c);
                    }
                    cur = fresh;
                }
                return out;
            }
        }
        throw new Error('regex node ' + node.k);
    };
    const startM = new Map();
    for (let i = 0; i <= n; i++) startM.set(i, true);
    return T.or(...step(re.ast, startM, 1).values());
}

module.exports = { init, parse, run, testFormula, formulable, RegexSyntax, foldRanges, asciiUp, SPACE, WORD };
