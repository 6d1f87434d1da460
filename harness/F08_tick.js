'use strict';
exports.bounds = ['up to 3 callbacks (thorough 4), each may throw or schedule another callback that may throw; every environment the function supports'];
exports.stubs = ['process.nextTick, queueMicrotask, MutationObserver, setImmediate and setTimeout are recording queues'];
const ENVS = ['process', 'microtask', 'observer', 'webkit', 'immediate', 'timeout', 'none'];
exports.cases = tier => {
    const out = [];
    for (const e of ENVS) for (let n = 1; n <= (e === 'none' ? 1 : tier === 'quick' ? 3 : 4); n++) out.push({ name: e + n, params: { e, n } });
    return out;
};
exports.run = async (V, { e, n }) => {
    const q = [];
    const env = V.env;
    env.process = e === 'process' ? { nextTick: f => void q.push(f) } : undefined;
    env.queueMicrotask = e === 'microtask' ? f => void q.push(f) : undefined;
    env.setImmediate = e === 'immediate' ? f => void q.push(f) : undefined;
    env.setTimeout = e === 'timeout' ? (f, ms) => {
        V.check(ms === 0, 'the timer fallback does not wait');
        q.push(f);
    } : undefined;
    let due = false;
    let note = null;
    class Observer {
        constructor(cb) {
            note = cb;
        }
        observe(node, o) {
            this.node = node;
            V.check(o.characterData === true, 'text changes are observed');
        }
    }
    env.document = { createTextNode: () => {
        let data = '';
        return { get data() { return data; }, set data(v) {
            if (v !== data) due = true;
            data = v;
        } };
    } };
    env.MutationObserver = e === 'observer' ? Observer : undefined;
    env.WebKitMutationObserver = e === 'webkit' ? Observer : undefined;
    const load = V.attempt(() => V.load('function/src/timeout/nextTick'));
    if (e === 'none') {
        V.check(!load.ok, 'an environment without any means is refused');
        return;
    }
    V.check(load.ok, 'every supported environment works');
    const nextTick = load.value;
    const planned = new Error('planned');
    const ran = [];
    const order = [];
    let id = 0;
    let sync = true;
    const add = deep => {
        const me = id++;
        order.push(me);
        const what = V.choice((deep ? 'inner' : 'what') + me, deep ? ['nothing', 'throws'] : ['nothing', 'throws', 'adds', 'adds-throws']);
        const r = nextTick(() => {
            V.check(!sync, 'a callback never runs at once');
            ran.push(me);
            if (what.startsWith('adds')) add(true);
            if (what.endsWith('throws')) throw planned;
        });
        V.check(r === undefined, 'scheduling returns nothing');
    };
    const split = V.size('split', 1, n); // callbacks scheduled before the first turn
    for (let i = 0; i < split; i++) add(false);
    let left = n - split;
    for (let turn = 0; turn < 40; turn++) {
        sync = false;
        let thrown = null;
        try {
            if (e === 'observer' || e === 'webkit') {
                if (due) {
                    due = false;
                    note();
                }
            } else if (q.length) q.shift()();
        } catch (x) {
            thrown = x;
        }
        sync = true;
        if (thrown) V.check(thrown === planned, 'only errors of callbacks come out');
        while (left > 0) {
            left--;
            add(false);
        }
        if (!(e === 'observer' || e === 'webkit' ? due : q.length)) break;
    }
    V.observe(ran);
    V.check(ran.length === order.length && ran.every((x, i) => x === order[i]), 'every callback runs exactly once, in the order of scheduling, even after others failed');
};
