'use strict';
exports.bounds = ['up to 4 items (thorough 5) with distinct ids 1..n (in every order up to 3 items, ascending beyond); each parent is null, undefined, 0, "", another item, itself, or an absent id; ids also as text, including names that objects inherit; data kept in a container field, merged, or assigned, one merged item possibly with a list of children of its own'];
exports.outside = ['duplicate ids', 'custom root-parent tables beyond the default and one replacing table'];
exports.cases = tier => {
    const out = [];
    const N = tier === 'quick' ? 4 : 5; // every shape of forest, orphan and cycle over n items
    for (let n = 0; n <= N; n++) for (const strict of [false, true]) for (const mode of n <= 3 ? ['data', 'merge', 'assign', 'nested', 'names', 'roots'] : ['data']) out.push({ name: `n${n}-${mode}${strict ? '-strict' : ''}`, params: { n, strict, mode } });
    for (const strict of [false, true]) for (const mode of ['text', 'text-merge']) out.push({ name: `n2-${mode}${strict ? '-strict' : ''}`, params: { n: 2, strict, mode } });
    return out;
};
exports.run = (V, { n, strict, mode }) => {
    const { toTree } = V.load('array');
    const ids = [];
    for (let i = 0; i < n; i++) {
        const x = n > 3 || (n === 3 && mode !== 'data') ? i + 1 : V.size('id' + i, 1, n);
        for (const y of ids) V.assume(x !== y);
        ids.push(x);
    }
    const NAMES = ['', 'a', 'constructor', '__proto__', 'toString', 'b', 'a.b'];
    const text = mode.startsWith('text');
    if (text) for (let i = 0; i < n; i++) {
        ids[i] = V.choice('name' + i, NAMES.slice(1));
        for (let j = 0; j < i; j++) V.assume(ids[i] !== ids[j]);
    }
    // parents: 1..n = item id, n+1 = absent id, 0 / '' / null / undefined roots
    const pars = ids.map((_, i) => text ? V.choice('p' + i, [null, ...NAMES]) : V.choice('p' + i, [null, undefined, 0, '', ...Array.from({ length: n + 1 }, (_, k) => k + 1)].slice(n >= 4 ? 1 : 0)));
    const items = ids.map((id, i) => (mode === 'nested' ? { k: { id }, link: pars[i] == null ? pars[i] : { up: pars[i] }, tag: V.int('t' + i, 0, 9) } : mode === 'names' ? { key: id, 'up.x': pars[i], tag: V.int('t' + i, 0, 9) } : { id, parentId: pars[i], tag: V.int('t' + i, 0, 9) }));
    // an item may already carry a field with the name of the children list
    const own = (mode === 'merge' || mode === 'assign') && n > 0 ? V.size('own', 0, n) : 0;
    if (own) items[own - 1].children = [{ id: 'stale' }];
    const before = items.map(o => ({ ...o }));
    const opts = strict || mode === 'data' ? { throwIfOrphans: strict } : {};
    let dataField = 'data';
    let kids = 'children';
    let rootZero = true;
    if (mode === 'merge' || mode === 'assign' || mode === 'text-merge') {
        opts.dataField = null;
        dataField = null;
        opts.assign = mode === 'assign';
    } else if (mode === 'nested') {
        opts.id = 'k.id';
        opts.parentId = 'link.up';
    } else if (mode === 'names') {
        opts.id = 'key';
        opts.parentId = 'up.x';
        opts.nestedIds = false;
        opts.childrenField = kids = 'nodes';
        opts.dataField = dataField = 'item';
    } else if (mode === 'roots') {
        opts.rootParentIds = { 0: false, [n + 1]: true };
        rootZero = false;
    }
    const isRootPar = p => p === null || p === undefined || (rootZero ? p === 0 || p === '' : p === n + 1);
    const r = V.attempt(() => toTree(items, opts));
    const parentOf = i => (isRootPar(pars[i]) ? -1 : ids.indexOf(pars[i]) >= 0 ? ids.indexOf(pars[i]) : -2);
    const rooted = i => {
        for (let k = 0; k <= n; k++) {
            const p = parentOf(i);
            if (p === -1) return true;
            if (p === -2) return false;
            i = p;
        }
        return false;
    };
    const want = par => ids.map((_, i) => i).filter(i => parentOf(i) === par && (par !== -1 || true));
    const allRooted = ids.every((_, i) => rooted(i));
    V.observe(r.ok ? r.value : r.error);
    if (strict) V.check(r.ok === allRooted, 'orphans and cycles are rejected on request, and nothing else is');
    else V.check(r.ok, 'no error unless orphans are to be rejected');
    if (!r.ok) return;
    const walk = (nodes, par) => {
        const idx = want(par);
        V.check(nodes.length === idx.length, 'a node has exactly the items that name it as parent');
        nodes.forEach((node, j) => {
            const it = dataField ? node[dataField] : node;
            if (dataField) V.check(it === items[idx[j]], 'the container holds the original item, in input order');
            else {
                if (mode === 'assign') V.check(node === items[idx[j]], 'assign keeps the original object');
                const rest = { ...node };
                delete rest[kids];
                const { children: stale, ...data } = before[idx[j]];
                V.check(V.eq(rest, data), 'a merged node carries the item fields, in input order');
            }
            V.check(Array.isArray(node[kids]), 'every node has a list of children');
            walk(node[kids], idx[j]);
        });
    };
    walk(r.value, -1);
    if (mode !== 'assign') V.check(V.eq(items, before), 'the items are left unchanged');
};
