'use strict';
exports.bounds = ['runs of eleven promises in one order of settling, five flags or batches of 2..4', 'up to 5 submitted promises (thorough 6) that settle after any delay of 1..9 ms, submitted 1..9 ms apart or at once; batches of 1..3 or closed by a flag; restarting or not, accumulating or not'];
exports.outside = ['what is collected after a failed batch'];
exports.stubs = ['virtual clock'];
exports.cases = tier => {
    const out = [];
    const N = tier === 'quick' ? 4 : 5;
    for (const total of [undefined, 1, 2, 3]) for (const isRestart of [false, true]) for (const isAccumulate of [false, true]) for (const pace of ['burst', 'apart']) out.push({ name: `t${total || 'flag'}${isRestart ? '-restart' : ''}${isAccumulate ? '-acc' : ''}-${pace}`, params: { total, isRestart, isAccumulate, pace, N: N - (pace === 'apart' && !total ? 1 : 0), f: pace === 'burst' || N > 4 } });
    for (const total of [undefined, 2, 3, 4]) for (const isRestart of [false, true]) for (const isAccumulate of [false, true]) out.push({ name: `long-t${total || 'flag'}${isRestart ? '-restart' : ''}${isAccumulate ? '-acc' : ''}`, params: { total, isRestart, isAccumulate, pace: 'burst', N: 11, long: true } });
    for (const t of [0.5, -1, '2']) out.push({ name: 'bad' + t, params: { bad: t } });
    return out;
};
exports.run = async (V, { long, total, isRestart, isAccumulate, pace, N, f, bad }) => {
    const { collectItems } = V.load('function');
    if (bad !== undefined) {
        const r = V.attempt(() => collectItems({ total: bad }));
        V.check(!r.ok && r.error instanceof TypeError, 'a total that is no positive integer is refused');
        return;
    }
    const opts = { isRestart, isAccumulate };
    if (total) opts.total = total;
    const collect = collectItems(opts);
    const results = [];
    const expect = [];
    const vals = [];
    let batch = [];
    let over = false;
    let since = 0;
    const fails = f ? V.size('fails', 0, N) : 0;
    for (let i = 0; i < N; i++) {
        vals[i] = { i };
        const bad = fails === i + 1;
        const p = new Promise((ok, no) => V.env.setTimeout(() => (bad ? no(vals[i]) : ok(vals[i])), long ? 1 + (i * 5) % 9 : V.int('d' + i, 1, 9)));
        p.catch(() => {});
        const flag = !total && (long ? [1, 2, 6, 7, 10].includes(i) : V.choice('flag' + i, ['more', 'close']) === 'close');
        const r = total ? collect(p) : collect(p, flag);
        const st = { done: false, at: null };
        r.then(v => { st.value = v; st.done = true; }, e => { st.error = e; st.done = true; });
        results.push(st);
        // expected
        batch.push(i);
        since++;
        const closes = !over && (total ? since % total === 0 : flag);
        if (closes) {
            const failing = batch.some(j => fails === j + 1);
            expect.push(failing ? { fails: vals[fails - 1] } : { value: batch.map(j => vals[j]) });
            if (!isRestart) over = true;
            if (!isAccumulate) batch = [];
            if (failing) break;
        } else expect.push({});
        if (pace === 'apart') {
            let go = false;
            V.env.setTimeout(() => { go = true; }, V.int('g' + i, 1, 9));
            await V.drain();
            while (!go) {
                V.fireNext();
                await V.flush();
            }
        }
    }
    while (V.fireNext()) await V.flush();
    await V.flush();
    V.observe(results.map(r => r.value));
    results.forEach((r, i) => {
        const e = expect[i];
        V.check(r.done, 'every submission is answered once its batch has settled');
        if (e.fails) {
            V.check(r.error === e.fails, 'a failing promise fails the submission that closes its batch');
            return;
        }
        V.check(!r.error, 'a submission fails only when its batch fails');
        if (!e.value) V.check(r.value.done === false && r.value.value === undefined, 'a submission that closes no batch is answered as not done');
        else {
            V.check(r.value.done === true, 'the submission that closes a batch is answered as done');
            V.check(r.value.value.length === e.value.length && r.value.value.every((x, j) => x === e.value[j]), 'a batch holds exactly its promises in order of submission, nothing lost, nothing twice');
        }
    });
};
