'use strict';
exports.bounds = ['nested arrays of depth up to 3 with up to 2 elements per level (thorough 3 at the top) and arbitrary integers at the leaves'];
exports.outside = ['sparse arrays', 'cyclic arrays'];
exports.cases = tier => {
    const out = [];
    for (let n = 0; n <= (tier === 'quick' ? 2 : 3); n++) for (const what of ['flat', 'level', 'multi', 'depth']) out.push({ name: what + n, params: { n, what } });
    return out;
};
exports.run = (V, { n, what }) => {
    const lib = V.load('array');
    let id = 0;
    const build = (k, depth) => {
        const out = [];
        for (let i = 0; i < k; i++) {
            const c = id++;
            if (depth < 3 && V.choice('s' + c, [false, true])) out.push(build(V.size('n' + c, 0, 2), depth + 1));
            else out.push(V.int('v' + c, -9, 9));
        }
        return out;
    };
    const a = build(n, 1);
    const leaves = x => (Array.isArray(x) ? x.reduce((m, y) => m.concat(leaves(y)), []) : [x]);
    // regular dimension: levels at which every element is an array
    const level = x => {
        let l = 1;
        let cur = x;
        while (cur.length && cur.every(y => Array.isArray(y))) {
            l++;
            cur = cur.reduce((m, y) => m.concat(y), []);
        }
        return l;
    };
    const depth = x => 1 + x.reduce((m, y) => Math.max(m, Array.isArray(y) ? depth(y) : 0), 0);
    // depth that ignores empty arrays: the deepest level holding an element
    const filled = (x, l) => x.reduce((m, y) => Math.max(m, Array.isArray(y) ? filled(y, l + 1) : l), 0);
    const before = JSON.stringify(a.map(() => 0));
    if (what === 'flat') {
        const r = lib.flat(a);
        V.observe(r);
        V.check(V.eq(r, leaves(a)), 'all leaves once, in order, whatever their depth');
        V.check(JSON.stringify(a.map(() => 0)) === before, 'the input keeps its length');
    } else if (what === 'level') {
        const r = lib.dimensionLevel(a);
        V.observe(r);
        V.check(r === level(a), 'the number of regular levels');
    } else if (what === 'depth') {
        const r = [lib.maxRecursionDepth(a), lib.maxRecursionDepth(a, false)];
        V.observe(r);
        V.check(r[0] === depth(a), 'the deepest nesting, empty arrays counted');
        V.check(r[1] === filled(a, 1), 'the deepest nesting that holds an element');
    } else {
        const d = V.choice('dim', [undefined, -1, 1, 2, 3, 2.5]);
        const strict = V.choice('strict', [undefined, true, false]);
        const r = V.attempt(() => lib.isMultiDimensional(a, d, strict));
        V.observe(r.ok ? r.value : r.error);
        const valid = d === undefined || d === 2 || d === 3;
        V.check(r.ok === valid, 'an impossible dimension is refused, others are not');
        if (!r.ok) return;
        const l = level(a);
        V.check(r.value === (l > 1 && (d === undefined || (strict ? l === d : l >= d))), 'multi-dimensional exactly when there are that many regular levels');
    }
};
