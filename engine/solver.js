'use strict';
// A persistent SMT solver process driven synchronously over FIFOs.
const fs = require('fs');
const os = require('os');
const path = require('path');
const cp = require('child_process');
const T = require('./terms');

let dirCounter = 0;

class SolverError extends Error {}

class Solver {
    constructor(cmd = ['z3-new', '-in'], opts = {}) {
        this.cmd = cmd;
        this.timeoutMs = opts.timeoutMs || 20000;
        this.stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, ms: 0 };
        this.start();
    }
    start() {
        const dir = fs.mkdtempSync(path.join(os.tmpdir(), `vsmt-${process.pid}-${dirCounter++}-`));
        const a = path.join(dir, 'in');
        const b = path.join(dir, 'out');
        cp.execFileSync('mkfifo', [a, b]);
        this.proc = cp.spawn('/bin/sh', ['-c', `exec "$@" < '${a}' > '${b}' 2>&1`, 'sh', ...this.cmd], {
            stdio: 'ignore'
        });
        this.proc.unref();
        this.inFd = fs.openSync(a, 'w');
        this.outFd = fs.openSync(b, 'r');
        fs.unlinkSync(a);
        fs.unlinkSync(b);
        fs.rmdirSync(dir);
        this.buf = Buffer.alloc(1 << 16);
        this.pending = '';
        this.out = [];
        this.declared = new Map();
        this.defined = new Set();
        this.raw('(set-option :global-declarations true)');
        this.raw('(set-option :produce-models true)');
        if (this.cmd[0].startsWith('z3')) this.raw(`(set-option :timeout ${this.timeoutMs})`);
        else this.raw('(set-logic ALL)');
        T.setDefSink(this);
    }
    raw(line) {
        this.out.push(line);
    }
    flush() {
        if (!this.out.length) return;
        const b = Buffer.from(this.out.join('\n') + '\n');
        this.out = [];
        let at = 0;
        while (at < b.length) at += fs.writeSync(this.inFd, b, at, b.length - at);
    }
    // read one complete s-expression / token
    readSexp() {
        this.flush();
        for (;;) {
            const r = this.tryParse();
            if (r !== null) return r;
            const n = fs.readSync(this.outFd, this.buf, 0, this.buf.length, null);
            if (n === 0) throw new SolverError('solver process ended');
            this.pending += this.buf.toString('utf8', 0, n);
        }
    }
    tryParse() {
        const s = this.pending;
        let i = 0;
        while (i < s.length && /\s/.test(s[i])) i++;
        if (i >= s.length) return null;
        if (s[i] !== '(') {
            let j = i;
            while (j < s.length && !/\s/.test(s[j])) j++;
            if (j >= s.length) return null;
            this.pending = s.slice(j);
            return s.slice(i, j);
        }
        let depth = 0;
        let inStr = false;
        for (let j = i; j < s.length; j++) {
            const ch = s[j];
            if (inStr) {
                if (ch === '"') inStr = false;
                continue;
            }
            if (ch === '"') inStr = true;
            else if (ch === '(') depth++;
            else if (ch === ')' && --depth === 0) {
                this.pending = s.slice(j + 1);
                return s.slice(i, j + 1);
            }
        }
        return null;
    }
    // definition sink used by the term printer
    var(name, sort) {
        if (!this.declared.has(name)) {
            this.declared.set(name, sort);
            if (sort === 'Float64') {
                this.raw(`(declare-const ${name}!b (_ BitVec 64))`);
                this.raw(`(define-fun ${name} () Float64 ((_ to_fp 11 53) ${name}!b))`);
            } else this.raw(`(declare-const ${name} ${sort})`);
        }
    }
    def(name, sort, body) {
        if (!this.defined.has(name)) {
            const b = body();
            this.defined.add(name);
            this.raw(`(define-fun ${name} () ${sort} ${b})`);
        }
        return name;
    }
    assert(t) {
        T.setDefSink(this);
        const e = T.smt(t);
        this.raw(`(assert ${e})`);
    }
    push() {
        this.raw('(push 1)');
    }
    pop(n = 1) {
        this.raw(`(pop ${n})`);
    }
    check() {
        const t0 = process.hrtime.bigint();
        this.raw('(check-sat)');
        let r = this.readSexp();
        while (r === 'unsupported') r = this.readSexp();
        this.stats.ms += Number(process.hrtime.bigint() - t0) / 1e6;
        this.stats.queries++;
        if (r === 'sat' || r === 'unsat' || r === 'unknown') {
            this.stats[r]++;
            return r;
        }
        if (r === 'timeout') {
            this.stats.unknown++;
            return 'unknown';
        }
        throw new SolverError('solver said: ' + r);
    }
    getValues(names) {
        if (!names.length) return {};
        const res = {};
        this.raw(`(get-value (${names.join(' ')}))`);
        const text = this.readSexp();
        if (text.startsWith('(error')) throw new SolverError(text);
        const toks = text.match(/\(|\)|[^\s()]+/g);
        let p = 0;
        const parse = () => {
            const t = toks[p++];
            if (t !== '(') return t;
            const l = [];
            while (toks[p] !== ')') l.push(parse());
            p++;
            return l;
        };
        for (const [n, v] of parse()) res[n] = decode(v);
        return res;
    }
    close() {
        try {
            fs.closeSync(this.inFd);
            fs.closeSync(this.outFd);
        } catch {}
        try {
            this.proc.kill('SIGKILL');
        } catch {}
    }
}

function bitsToFloat(sign, exp, mant) {
    const bin = sign + exp + mant;
    const b = Buffer.alloc(8);
    for (let i = 0; i < 8; i++) b[i] = parseInt(bin.slice(i * 8, i * 8 + 8), 2);
    return b.readDoubleBE();
}
const bitsOf = (s, n) => {
    if (s.startsWith('#b')) return s.slice(2);
    return BigInt('0x' + s.slice(2))
        .toString(2)
        .padStart(n, '0');
};
function decode(v) {
    if (v === 'true') return true;
    if (v === 'false') return false;
    if (typeof v === 'string') {
        if (/^-?\d+$/.test(v)) return Number(v);
        if (/^\d+\.0$/.test(v)) return Number(v);
        throw new SolverError('value ' + v);
    }
    if (v[0] === '-' && v.length === 2) return -decode(v[1]);
    if (v[0] === 'fp') return bitsToFloat(bitsOf(v[1], 1), bitsOf(v[2], 11), bitsOf(v[3], 52));
    if (v[0] === '_') {
        if (v[1] === '+zero') return 0;
        if (v[1] === '-zero') return -0;
        if (v[1] === '+oo') return Infinity;
        if (v[1] === '-oo') return -Infinity;
        if (v[1] === 'NaN') return NaN;
    }
    throw new SolverError('value ' + JSON.stringify(v));
}

module.exports = { Solver, SolverError };
