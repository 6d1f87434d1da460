'use strict';
exports.bounds = ['answers of 0..3 (thorough 4) characters out of blanks of all kinds, a letter and a zero-width space, messages of 0..2 code units, one or two questions in turn'];
exports.stubs = ['readline.createInterface records and answers', 'streams of the process are markers'];
exports.cases = tier => {
    const out = [];
    for (let n = 0; n <= (tier === 'quick' ? 3 : 4); n++) out.push({ name: 'answer' + n, params: { n, k: 1 } });
    out.push({ name: 'two', params: { n: 1, k: 2 } });
    return out;
};
exports.mustReach = () => ['trimmed', 'kept', 'waiting'];
exports.run = async (V, { n, k }) => {
    const open = [];
    const calls = [];
    V.env.process = { ...V.env.process, stdin: { in: 1 }, stdout: { out: 1 } };
    V.stubs.process = V.env.process;
    V.stubs.readline = {
        createInterface: o => {
            const i = { o, closed: 0, asked: null };
            open.push(i);
            return {
                question: (m, f) => {
                    calls.push(m);
                    i.asked = f;
                },
                close: () => i.closed++
            };
        }
    };
    const { readByQuestion } = V.load('term');
    for (let q = 0; q < k; q++) {
        const m = V.strUpTo('m' + q, 0, 2);
        let status = null;
        const p = readByQuestion(m);
        p.then(
            v => (status = { v }),
            e => (status = { e })
        );
        await V.drain();
        V.cover('waiting');
        V.check(status === null && open.length === q + 1 && open[q].closed === 0, 'it waits for the answer');
        V.check(open[q].o.input === V.env.process.stdin && open[q].o.output === V.env.process.stdout, 'at the terminal of the process');
        V.check(calls.length === q + 1 && V.truth(V.eq(calls[q], m)), 'the message is shown once and as it is');
        const a = V.str('a' + q, n, [[9, 9], [32, 32], [97, 97], [0xa0, 0xa0], [0x200b, 0x200b], [0x3000, 0x3000]]);
        open[q].asked(a);
        await V.drain();
        V.check(open[q].closed === 1, 'the terminal is set free');
        const blank = c => V.truth(V.or(c === '\t', c === ' ', c === '\xa0', c === '\u3000'));
        let i = 0;
        let j = n;
        while (i < j && blank(a.charAt(i))) i++;
        while (j > i && blank(a.charAt(j - 1))) j--;
        V.cover(j - i < n ? 'trimmed' : 'kept');
        V.check(status && 'v' in status && V.truth(V.eq(status.v, a.slice(i, j))), 'the answer without blanks around it');
    }
};
