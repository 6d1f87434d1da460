const A = [[97, 99], [65, 66], [48, 49], [32, 32], [46, 46], [36, 36]];
const W = [[0x41,0x41],[0xd83d,0xd83d],[0xde00,0xde00],[0xe9,0xe9],[0x20ac,0x20ac]];
const T = {
    str1: V => { const s = V.strUpTo('s', 0, 3, A); return [s.trim(), s.toUpperCase(), s.indexOf('a'), s.lastIndexOf('a'), s.includes('ab'), s.startsWith('a'), s.endsWith('b', 2), s.split('a'), s.slice(1), s.slice(-2, -1), s.substring(2, 1), s.substr(-2, 1), s.charAt(1), s[0], s.at(-1), s.charCodeAt(2), s.padStart(5, 'xy'), s.repeat(2), s.replace('a', '$&$$'), s.replaceAll('a', m => m + '!'), [...s]]; },
    re1: V => { const s = V.strUpTo('s', 0, 3, A); return [s.match(/(a)(b)?/), s.match(/[a-b]/g), s.replace(/a|(b)/g, '<$1>'), s.replace(/(?<x>a)/, '[$<x>]'), s.split(/(a)|b/), /^a.*b$/i.test(s), /(a|b)\1/.exec(s), s.search(/b/), /\bA/.test(s), /(?<=a)b/.test(s), /a(?!b)/.exec(s), /a*?b/.exec(s), /(a*)*/.exec(s), /(?:a|ab)(?:c|bcd)?/.exec(s)]; },
    re2: V => { const s = V.str('s', 3, [[97,98],[10,10]]); return [/^b$/m.exec(s), s.match(/a{1,2}/g), s.match(/(a|b){2}/), /^(?:a|b)+$/.test(s), s.replace(/^/gm, '>'), s.split(/$/m)]; },
    re3: V => { const p = V.strUpTo('p', 1, 3, [[97,97],[46,46],[91,93],[40,43],[63,63],[94,94],[36,36]]); const r = V.attempt(() => new RegExp(p)); return r.ok ? [r.value.test('a.b'), 'a(a'.match(r.value), r.value.test('')] : 'syntax'; },
    uni: V => { const s = V.strUpTo('s', 0, 3, W); return [[...s], s.codePointAt(0), Array.from(s).length, V.attempt(() => encodeURIComponent(s)), /^.$/u.test(s), s.match(/./gu), s.replace(/[^\x00-\x7f]/gu, '?'), JSON.stringify(s), Buffer.byteLength(s)].map(x => x && x.ok === false ? 'err' : x); },
    dec: V => { const s = '%' + V.str('s', 2, [[48,48],[52,52],[55,56],[67,67],[70,70],[103,103]]); const r = V.attempt(() => decodeURIComponent(s)); const q = V.attempt(() => decodeURIComponent('%C3%' + V.str('q', 2, [[65,66],[48,49],[56,57]]))); return [r.ok ? r.value : 'err', q.ok ? q.value : 'err']; },
    num: V => { const a = V.int('a', -30, 30), b = V.int('b', -3, 3); return [a + b, a - b, a * 2, a % 7, a / 4, (a / 3) | 0, Math.floor(a / 3), Math.round(a / 4), Math.ceil(a / 4), Math.trunc(a / 4), Math.abs(a), Math.max(a, b), Math.min(a, 3, b), a & 5, a | 3, a ^ 6, a << 2, a >> 1, a >>> 28, ~a, a < b, a >= b, a == b, a > 1.5, a <= -0.5, a ** 2, -a, +a, (a / 8).toFixed(2), a.toFixed(1), (a / 2 > 1.25)]; },
    num2: V => { const a = V.int('a', -1200, 1200); return [`${a}`, String(a), a.toString(16), parseInt('0' + Math.abs(a), 10), Number(a + ''), a % 10 === 3]; },
    num3: V => { const s = V.strUpTo('s', 0, 3, [[48,50],[45,46],[32,32],[120,120],[101,101]]); return [Number(s), parseInt(s), parseFloat(s), +s, s * 1, isNaN(s), s == 1]; },
    obj: V => { const k = V.strUpTo('k', 1, 2, [[97,98],[48,49]]), j = V.strUpTo('j', 1, 2, [[97,98],[48,49]]); const o = { a: 1 }; o[k] = 2; o[j] = 3; const p = { ...o, b: 4 }; delete p[k]; return [Object.keys(o), Object.entries(o), o.a, o.ab, k in o, 'b' in o, p, o.hasOwnProperty(j), JSON.stringify(o), Object.assign({ ab: 0 }, o), o.constructor === Object]; },
    map: V => { const a = V.int('a', 0, 2), b = V.int('b', 0, 2); const m = new Map([[1, 'x']]); m.set(a, 'a'); m.set(b, 'b'); const s = new Set([a, b, 1]); m.delete(2); return [[...m], [...s], m.get(1), m.has(0), s.size, m.size]; },
    arr: V => { const x = V.array(4, i => V.int('x' + i, 0, 3)); const i = V.int('i', -5, 5); return [x.slice().sort((p, q) => p - q), x.slice().sort((p, q) => q - p), x.slice().sort(), x.indexOf(2), x.includes(3), x.slice(i), x.filter(v => v > 1), x.join('-'), x[i], x.find(v => v === 2), x.findIndex(v => v === 1), x.reduce((p, q) => p + q), x.at(i)]; },
    sw: V => { const a = V.int('a', 0, 4); let r; switch (a) { case 1: r = 'one'; break; case 2: r = 'two'; case 3: r = (r || '') + 'three'; break; default: r = 'd'; } let c = 0; for (let i = 0; i < a; i++) { if (i === 2) continue; c += i; } return [r, c, a && 5, a || 6, a ? 1 : 2]; },
    json: V => { const s = V.strUpTo('s', 0, 3, [[34,34],[48,49],[91,91],[93,93],[44,44],[123,123],[125,125],[116,116]]); const r = V.attempt(() => JSON.parse(s)); return r.ok ? r.value : 'err'; },
    cp: V => { const c = V.int('c', 0xd700, 0x10ffff); const s = String.fromCodePoint(c); return [s, s.length, s.codePointAt(0) === c]; },
    table: V => { const i = V.int('i', -2, 20), j = V.int('j', 1, 4); return ['0123456789abcdef'[i], ['x', 'yy', 'zz'][j], ['qq', 'yy', 'zz', 'ab'][j], [5, 3, 9, 2, 7][j], [1, 3, 5, 7, 9, 11][i], [2, , 3, 4][j]]; },
    dec2: V => { const s = V.strUpTo('s', 1, 2, [[48, 57]]), t = V.strUpTo('t', 0, 3, [[48, 49], [53, 53], [57, 57]]); const x = Number('-' + s + '.' + t), y = +(s + '.' + t); return [x < 0, x >= -7, y > 6, Math.floor(y), Math.ceil(x), Math.round(y), Number.isInteger(y), isFinite(x), Object.is(x, -0), Math.abs(x) > 5, Math.trunc(x), y === 7, x == 0]; },
    fp: V => { const x = V.fp('x'); return [x > 1, x === x, Number.isInteger(x), x % 1 === 0, Math.floor(x) === x, x + 1 > x, Object.is(x, -0)]; }
};
exports.cases = () => Object.keys(T).map(name => ({ name, params: { name } }));
exports.run = (V, { name }) => { const r = T[name](V); V.observe(r); V.check(true, 'x'); };
