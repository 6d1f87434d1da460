'use strict';
process.env.TZ = 'UTC'; // local time is UTC in every run
// Module loader for /repo's TypeScript sources: symbolic (instrumented) or
// concrete (plain transpilation). Index files are resolved lazily.
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const { instrument, transpile } = require('./instrument');
const rt = require('./runtime');

const REPO = process.env.VERIF_REPO || '/repo';
const PKG = path.join(REPO, 'packages');
const ENV_NAMES = [
    'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'clearImmediate',
    'Date', 'performance', 'Math', 'crypto', 'process', 'console', 'fetch', 'window', 'navigator', 'document', 'queueMicrotask', 'globalThis', 'Uint32Array', 'Uint8Array', 'Buffer', 'Function', 'MutationObserver', 'WebKitMutationObserver'
];
const scripts = new Map(); // mode:file -> compiled function
const exportMaps = new Map();
const sources = new Map();

function read(file) {
    let s = sources.get(file);
    if (s === undefined) {
        s = fs.readFileSync(file, 'utf8');
        sources.set(file, s);
    }
    return s;
}
function resolve(spec, from) {
    let base;
    if (spec.startsWith('@curong/')) {
        const [, name, ...rest] = spec.split('/');
        base = path.join(PKG, name, 'src', ...rest);
    } else if (spec.startsWith('.') || spec.startsWith('/')) base = path.resolve(path.dirname(from), spec);
    else return null;
    for (const c of [base, base + '.ts', base + '.js', path.join(base, 'index.ts'), path.join(base, 'index.js')])
        if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
    throw new Error(`cannot resolve ${spec} from ${from}`);
}
// name -> [file, export] for pure re-exporting files, else null
function exportMap(file) {
    if (exportMaps.has(file)) return exportMaps.get(file);
    exportMaps.set(file, null);
    const sf = ts.createSourceFile(file, read(file), ts.ScriptTarget.ES2022, true);
    const map = new Map();
    for (const st of sf.statements) {
        if (!ts.isExportDeclaration(st) || !st.moduleSpecifier) return null;
        if (st.isTypeOnly) continue;
        let target;
        try {
            target = resolve(st.moduleSpecifier.text, file);
        } catch {
            if (!st.exportClause) continue; // type-only file (d.ts)
            throw new Error(`cannot resolve ${st.moduleSpecifier.text}`);
        }
        if (!target) return null;
        if (st.exportClause && ts.isNamedExports(st.exportClause)) {
            for (const e of st.exportClause.elements) if (!e.isTypeOnly) map.set(e.name.text, [target, (e.propertyName || e.name).text]);
        } else if (!st.exportClause) {
            const inner = exportMap(target);
            if (inner) for (const [k, v] of inner) map.set(k, v);
            else for (const n of ownExports(target)) map.set(n, [target, n]);
        } else return null;
    }
    exportMaps.set(file, map);
    return map;
}
function ownExports(file) {
    const sf = ts.createSourceFile(file, read(file), ts.ScriptTarget.ES2022, true);
    const names = [];
    for (const st of sf.statements) {
        const mods = st.modifiers ? st.modifiers.map(m => m.kind) : [];
        if (ts.isInterfaceDeclaration(st) || ts.isTypeAliasDeclaration(st)) continue;
        if (mods.includes(ts.SyntaxKind.ExportKeyword) && !mods.includes(ts.SyntaxKind.DefaultKeyword)) {
            if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) names.push(d.name.getText(sf));
            else if (st.name) names.push(st.name.text);
        } else if (ts.isExportDeclaration(st) && st.exportClause && ts.isNamedExports(st.exportClause)) {
            for (const e of st.exportClause.elements) names.push(e.name.text);
        }
    }
    return names;
}
function script(mode, file) {
    const key = mode + ':' + file;
    let fn = scripts.get(key);
    if (!fn) {
        const src = read(file);
        const fns = [];
        const base = rt.functions.length;
        let js = mode === 'sym' ? instrument(src, file, fns) : transpile(src, file);
        rt.functions.push(...fns);
        if (mode === 'sym' && base) js = js.replace(/__S\.enter\((\d+)\)/g, (_, n) => `__S.enter(${Number(n) + base})`);
        const code = `(function (exports, require, module, __filename, __dirname, __S, ${ENV_NAMES.join(', ')}) {'use strict'; {${js}\n}})`;
        fn = vm.runInThisContext(code, { filename: `${mode}:${file}` });
        scripts.set(key, fn);
    }
    return fn;
}
const JSON_BIGINT = () => {
    throw new Error('json-bigint is not installed');
};

class Loader {
    constructor(mode, env, stubs) {
        this.mode = mode;
        this.env = env;
        this.stubs = stubs || {};
        this.modules = new Map();
    }
    builtin(spec) {
        const name = spec.replace(/^node:/, '');
        if (Object.prototype.hasOwnProperty.call(this.stubs, name)) {
            const s = this.stubs[name];
            return s;
        }
        if (name === 'json-bigint') return { get default() { return JSON_BIGINT(); } };
        if (['fs', 'fs/promises', 'child_process', 'http', 'https', 'os', 'net'].includes(name) && !this.stubs['*real'])
            return new Proxy({}, {
                get(t, k) {
                    if (k === '__esModule' || typeof k === 'symbol' || k === 'then') return undefined;
                    return name === 'os' || k === 'constants' ? require(name)[k] : function blocked() {
                        throw new Error(`no stand-in for ${name}.${String(k)}`);
                    };
                }
            });
        return require(name);
    }
    load(file) {
        let m = this.modules.get(file);
        if (m) return m.exports;
        m = { exports: {} };
        this.modules.set(file, m);
        if (file.endsWith('.json')) {
            m.exports = JSON.parse(read(file));
            return m.exports;
        }
        if (path.basename(file) === 'index.ts') {
            const map = exportMap(file);
            if (map) {
                Object.defineProperty(m.exports, '__esModule', { value: true });
                for (const [k, [f, n]] of map)
                    Object.defineProperty(m.exports, k, { enumerable: true, configurable: true, get: () => this.load(f)[n] });
                return m.exports;
            }
        }
        const env = this.env;
        script(this.mode, file)(m.exports, spec => {
            const r = resolve(spec, file);
            return r ? this.load(r) : this.builtin(spec);
        }, m, file, path.dirname(file), rt.S, ...ENV_NAMES.map(n => env[n]));
        return m.exports;
    }
    // 'array/src/move' or 'array' (package index)
    repo(name) {
        const i = name.indexOf('/');
        const p = i < 0 ? path.join(PKG, name, 'src', 'index') : path.join(PKG, name);
        return this.load(resolve(p, '/'));
    }
}
module.exports = { Loader, resolve, REPO, PKG, script, ENV_NAMES };
