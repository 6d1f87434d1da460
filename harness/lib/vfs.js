'use strict';
// A file system in memory that stands in for fs and fs/promises: directories,
// files with a list of bytes each, links, others; every operation may fail as
// the schedule says; ordinary users need the x bit of a directory to enter it.
const NOW = 0;
// a buffer of bytes that may be symbolic
class Bytes extends Array {
    static isBuffer(x) { return x instanceof Bytes; }
    static make(list) {
        const b = new Bytes();
        for (const x of list) b.push(x);
        return b;
    }
    get byteLength() { return this.length; }
    set(i, v) { this[i] = v; }
    slice(a, b) { return Bytes.make([...this].slice(a, b)); }
    subarray(a, b) { return this.slice(a, b); }
    readUInt8(i = 0) { return this[i]; }
    compare(o, ts = 0, te = o.length, ss = 0, se = this.length) {
        const n = Math.min(se - ss, te - ts);
        for (let i = 0; i < n; i++) {
            const a = this[ss + i];
            const b = o[ts + i];
            if (a !== b) return a < b ? -1 : 1;
        }
        return se - ss === te - ts ? 0 : se - ss < te - ts ? -1 : 1;
    }
    equals(o) { return this.compare(o) === 0; }
    toString(encoding = 'utf8', a = 0, b = this.length) { return decode([...this].slice(a, b), encoding); }
}
const text = units => units.map(u => String.fromCharCode(u)).join('');
// bytes to text as Node does it: ill-formed parts become U+FFFD, one per maximal part
const decode = (b, encoding) => {
    const e = String(encoding).toLowerCase().replace('-', '');
    if (e === 'latin1' || e === 'binary') return text(b);
    if (e === 'ascii') return text(b.map(x => x % 128));
    if (e === 'hex') return b.map(x => '0123456789abcdef'[Math.floor(x / 16)] + '0123456789abcdef'[x % 16]).join('');
    if (e === 'utf16le' || e === 'ucs2') {
        const out = [];
        for (let i = 0; i + 1 < b.length; i += 2) out.push(b[i] + 256 * b[i + 1]);
        return text(out);
    }
    if (e !== 'utf8') throw new Error('no model of ' + encoding);
    const out = [];
    for (let i = 0; i < b.length; ) {
        const x = b[i];
        if (x < 0x80) {
            out.push(x);
            i++;
            continue;
        }
        const n = x >= 0xc2 && x <= 0xdf ? 1 : x >= 0xe0 && x <= 0xef ? 2 : x >= 0xf0 && x <= 0xf4 ? 3 : 0;
        let p = n === 1 ? x - 0xc0 : n === 2 ? x - 0xe0 : x - 0xf0;
        let k = 0;
        for (; k < n && i + k + 1 < b.length; k++) {
            const y = b[i + k + 1];
            const lo = k === 0 && x === 0xe0 ? 0xa0 : k === 0 && x === 0xf0 ? 0x90 : 0x80;
            const hi = k === 0 && x === 0xed ? 0x9f : k === 0 && x === 0xf4 ? 0x8f : 0xbf;
            if (y < lo || y > hi) break;
            p = p * 64 + (y - 0x80);
        }
        if (n === 0 || k < n) out.push(0xfffd);
        else if (p < 0x10000) out.push(p);
        else out.push(0xd800 + Math.floor((p - 0x10000) / 1024), 0xdc00 + ((p - 0x10000) % 1024));
        i += n === 0 ? 1 : k + 1;
    }
    return text(out);
};
// text to bytes as Node does it: lone surrogates become U+FFFD
const encode = (s, encoding = 'utf8') => {
    const e = String(encoding).toLowerCase().replace('-', '');
    const out = [];
    for (let i = 0; i < s.length; i++) {
        let c = s.charCodeAt(i);
        if (e === 'latin1' || e === 'binary' || e === 'ascii') out.push(c % 256);
        else if (e === 'utf16le' || e === 'ucs2') out.push(c % 256, Math.floor(c / 256));
        else if (e !== 'utf8') throw new Error('no model of ' + encoding);
        else if (c < 0x80) out.push(c);
        else if (c < 0x800) out.push(0xc0 + Math.floor(c / 64), 0x80 + (c % 64));
        else {
            if (c >= 0xd800 && c <= 0xdfff) {
                const n = c < 0xdc00 && i + 1 < s.length ? s.charCodeAt(i + 1) : 0;
                if (n >= 0xdc00 && n <= 0xdfff) {
                    i++;
                    c = 0x10000 + (c - 0xd800) * 1024 + (n - 0xdc00);
                    out.push(0xf0 + Math.floor(c / 262144), 0x80 + (Math.floor(c / 4096) % 64), 0x80 + (Math.floor(c / 64) % 64), 0x80 + (c % 64));
                    continue;
                }
                c = 0xfffd;
            }
            out.push(0xe0 + Math.floor(c / 4096), 0x80 + (Math.floor(c / 64) % 64), 0x80 + (c % 64));
        }
    }
    return out;
};
// what stands in for Buffer
const BytesBuffer = {
    alloc: (n, v = 0) => Bytes.make(new Array(n).fill(v)),
    allocUnsafe: n => Bytes.make(new Array(n).fill(170)),
    allocUnsafeSlow: n => Bytes.make(new Array(n).fill(85)),
    from: (x, e) => Bytes.make(Array.isArray(x) ? x : Buffer.from(x, e)),
    compare: (a, b) => a.compare(b),
    concat: list => Bytes.make(list.flatMap(b => [...b])),
    isBuffer: x => x instanceof Bytes,
    isEncoding: Buffer.isEncoding
};
const error = (code, op, path) => Object.assign(new Error(`${code}: ${op} '${path}'`), { code, syscall: op, path, errno: -1 });

class FS {
    // fault(op, path) -> an error code when this operation fails
    constructor({ fault = () => null, root = true, cwd = '/work', partial = () => null, umask = 0o022 } = {}) {
        this.fault = fault;
        this.partial = partial;
        this.root = root;
        this.umask = umask;
        this.cwd = cwd;
        this.tree = this.dir();
        this.fds = new Map();
        this.nextFd = 20;
        this.log = [];
        this.opened = 0;
        this.links = 0;
    }
    dir(mode = 0o755) { return { type: 'dir', mode, entries: new Map() }; }
    file(data, mode = 0o644) { return { type: 'file', mode, data }; }
    link(target) { return { type: 'link', mode: 0o777, target }; }
    other() { return { type: 'fifo', mode: 0o644 }; }
    // set up without faults: {'/a/b': node}
    put(path, node) {
        const parts = path.split('/').filter(Boolean);
        let d = this.tree;
        for (const p of parts.slice(0, -1)) {
            if (!d.entries.has(p)) d.entries.set(p, this.dir());
            d = d.entries.get(p);
        }
        d.entries.set(parts[parts.length - 1], node);
        return node;
    }
    abs(p) {
        if (typeof p !== 'string') {
            if (p instanceof URL) p = p.pathname;
            else throw Object.assign(new TypeError('The "path" argument must be of type string'), { code: 'ERR_INVALID_ARG_TYPE' });
        }
        if (p.includes('\0')) throw Object.assign(new TypeError('path with null bytes'), { code: 'ERR_INVALID_ARG_VALUE' });
        return p[0] === '/' ? p : this.cwd + '/' + p;
    }
    // -> {parent, name, node}; node is undefined when only the last part is missing
    walk(path, op, follow) {
        if (path === '') throw error('ENOENT', op, path);
        const full = this.abs(path);
        let depth = 0;
        const go = (base, parts, last) => {
            let stack = base;
            let node = stack[stack.length - 1].node;
            let parent = stack.length > 1 ? stack[stack.length - 2].node : node;
            let name = stack[stack.length - 1].name;
            for (let i = 0; i < parts.length; i++) {
                const p = parts[i];
                if (p === '' || p === '.') continue;
                if (node === undefined) throw error('ENOENT', op, path);
                if (node.type !== 'dir') throw error('ENOTDIR', op, path);
                if (p === '..') {
                    if (stack.length > 1) stack = stack.slice(0, -1);
                    ({ node, name } = stack[stack.length - 1]);
                    parent = stack.length > 1 ? stack[stack.length - 2].node : node;
                    continue;
                }
                if (!this.root && !(node.mode & 0o100)) throw error('EACCES', op, path);
                if (p.length > 255) throw error('ENAMETOOLONG', op, path);
                if (stack.length > 60) throw error('ENAMETOOLONG', op, path);
                parent = node;
                name = p;
                node = node.entries.get(p);
                const more = parts.slice(i + 1).some(q => q !== '' && q !== '.');
                if (node && node.type === 'link' && (more || last || parts[parts.length - 1] === '')) {
                    if (++depth > 40) throw error('ELOOP', op, path);
                    const r = go(node.target[0] === '/' ? [{ name: '', node: this.tree }] : stack, node.target.split('/'), true);
                    ({ node, parent, name } = r);
                    stack = r.stack;
                    if (node === undefined && more) throw error('ENOENT', op, path);
                    if (node !== undefined) continue;
                } else stack = [...stack, { name: p, node }];
            }
            return { node, parent, name, stack };
        };
        return go([{ name: '', node: this.tree }], full.split('/'), follow);
    }
    step(op, path) {
        const code = this.fault(op, path);
        if (code) throw error(code, op, path);
    }
    find(op, path, follow) {
        this.step(op, path);
        const r = this.walk(path, op, follow);
        if (r.node === undefined) throw error('ENOENT', op, path);
        return r;
    }
    changed(op, path) { this.log.push([op, path]); }
    stats(node) {
        const t = node.type;
        return {
            isDirectory: () => t === 'dir', isFile: () => t === 'file', isSymbolicLink: () => t === 'link', isFIFO: () => t === 'fifo',
            isSocket: () => false, isBlockDevice: () => false, isCharacterDevice: () => false,
            size: t === 'file' ? node.data.length : 4096, mode: node.mode | { dir: 0o40000, file: 0o100000, link: 0o120000, fifo: 0o10000 }[t], mtimeMs: NOW, nlink: 1
        };
    }
    stat(p) { return this.stats(this.find('stat', p, true).node); }
    lstat(p) { return this.stats(this.find('lstat', p, false).node); }
    access(p) { this.find('access', p, true); }
    readlink(p) {
        const { node } = this.find('readlink', p, false);
        if (node.type !== 'link') throw error('EINVAL', 'readlink', p);
        return node.target;
    }
    realpath(p) { return '/' + this.find('realpath', p, true).stack.slice(1).map(x => x.name).join('/'); }
    readdir(p, o) {
        const { node } = this.find('scandir', p, true);
        if (node.type !== 'dir') throw error('ENOTDIR', 'scandir', p);
        if (!this.root && !(node.mode & 0o400)) throw error('EACCES', 'scandir', p);
        const out = [];
        const go = (d, at, rel) => {
            for (const [name, n] of [...d.entries]) {
                out.push(o && o.withFileTypes ? { name, parentPath: at, path: at, ...this.stats(n) } : rel + name);
                if (o && o.recursive && n.type === 'dir') go(n, at + '/' + name, rel + name + '/');
            }
        };
        go(node, p, '');
        return out;
    }
    // where a new entry goes
    place(op, p, follow = false) {
        this.step(op, p);
        const r = this.walk(p, op, follow);
        if (r.node === undefined && !this.root && !(r.parent.mode & 0o100)) throw error('EACCES', op, p);
        if (r.node === undefined && !this.root && !(r.parent.mode & 0o200)) throw error('EACCES', op, p);
        return r;
    }
    mkdir(p, o) {
        if (typeof o === 'number') o = { mode: o };
        const { recursive = false, mode = 0o777 } = o || {};
        if (!recursive) {
            const r = this.place('mkdir', p);
            if (r.node !== undefined) throw error('EEXIST', 'mkdir', p);
            this.changed('mkdir', p);
            r.parent.entries.set(r.name, this.dir(mode & ~this.umask));
            return undefined;
        }
        this.step('mkdir', p);
        if (p === '') throw error('ENOENT', 'mkdir', p);
        const full = this.abs(p);
        const parts = full.split('/').filter(x => x !== '' && x !== '.');
        let first;
        for (let i = 1; i <= parts.length; i++) {
            const sub = '/' + parts.slice(0, i).join('/');
            const r = this.walk(sub, 'mkdir', true);
            if (r.node !== undefined) {
                if (r.node.type !== 'dir') throw error(i === parts.length ? 'EEXIST' : 'ENOTDIR', 'mkdir', p);
                continue;
            }
            if (!this.root && (!(r.parent.mode & 0o100) || !(r.parent.mode & 0o200))) throw error('EACCES', 'mkdir', p);
            this.changed('mkdir', sub);
            r.parent.entries.set(r.name, this.dir(mode & ~this.umask));
            first = first || sub;
        }
        return first;
    }
    remove(r, op, p) {
        this.changed(op, p);
        r.parent.entries.delete(r.name);
    }
    unlink(p) {
        const r = this.find('unlink', p, false);
        if (r.node.type === 'dir') throw error('EISDIR', 'unlink', p);
        this.remove(r, 'unlink', p);
    }
    rmdir(p, o) {
        if (o && o.recursive) {
            const r = this.find('rmdir', p, false);
            if (r.node.type !== 'dir' && r.node.type !== 'link') throw error('ENOTDIR', 'rmdir', p);
            this.remove(r, 'rmdir', p);
            return;
        }
        const r = this.find('rmdir', p, false);
        if (r.node.type !== 'dir') throw error('ENOTDIR', 'rmdir', p);
        if (r.node.entries.size) throw error('ENOTEMPTY', 'rmdir', p);
        this.remove(r, 'rmdir', p);
    }
    rm(p, o) {
        const { force = false, recursive = false } = o || {};
        let r;
        try {
            r = this.find('rm', p, false);
        } catch (e) {
            if (force && e.code === 'ENOENT') return;
            throw e;
        }
        if (r.node.type === 'dir' && !recursive) throw error('ERR_FS_EISDIR', 'rm', p);
        this.remove(r, 'rm', p);
    }
    symlink(target, p, kind) {
        const r = this.place('symlink', p);
        if (r.node !== undefined) throw error('EEXIST', 'symlink', p);
        this.changed('symlink', p);
        const l = this.link(target);
        l.kind = kind; // what Windows needs to be told
        r.parent.entries.set(r.name, l);
    }
    rename(a, b) {
        const r = this.find('rename', a, false);
        const to = this.place('rename', b);
        this.changed('rename', a);
        r.parent.entries.delete(r.name);
        to.parent.entries.set(to.name, r.node);
    }
    copyFile(a, b, mode = 0) {
        this.step('copyfile', a);
        const src = this.walk(a, 'copyfile', true);
        if (src.node === undefined) throw error('ENOENT', 'copyfile', a);
        if (src.node.type === 'dir') throw error('EISDIR', 'copyfile', a);
        const r = this.walk(b, 'copyfile', true);
        if (r.node === src.node) return;
        if (r.node !== undefined) {
            if (mode & 1) throw error('EEXIST', 'copyfile', b);
            if (r.node.type === 'dir') throw error('EISDIR', 'copyfile', b);
            if (!this.root && !(r.node.mode & 0o200)) throw error('EACCES', 'copyfile', b);
        } else if (!this.root && (r.parent.mode & 0o300) !== 0o300) throw error('EACCES', 'copyfile', b);
        this.changed('write', b);
        const cut = this.partial(a, b, src.node.data.length);
        if (r.node === undefined) r.parent.entries.set(r.name, this.file([], src.node.mode));
        const node = r.parent.entries.get(r.name);
        if (cut !== null) {
            node.data = src.node.data.slice(0, cut);
            throw error('ENOSPC', 'copyfile', b);
        }
        node.data = src.node.data.slice();
    }
    open(p, flags = 'r', mode = 0o666) {
        this.step('open', p);
        const r = this.walk(p, 'open', true);
        let { node } = r;
        const w = /[wa+]/.test(flags);
        if (node === undefined) {
            if (!/[wa]/.test(flags)) throw error('ENOENT', 'open', p);
            if (!this.root && (r.parent.mode & 0o300) !== 0o300) throw error('EACCES', 'open', p);
            this.changed('write', p);
            node = this.file([], mode & ~this.umask);
            r.parent.entries.set(r.name, node);
        } else {
            if (/x/.test(flags)) throw error('EEXIST', 'open', p);
            if (node.type === 'dir' && w) throw error('EISDIR', 'open', p);
            if (!this.root && w && !(node.mode & 0o200)) throw error('EACCES', 'open', p);
            if (!this.root && !/^[wa]x?$/.test(flags) && !(node.mode & 0o400)) throw error('EACCES', 'open', p);
            if (/w/.test(flags)) {
                this.changed('write', p);
                node.data = [];
            }
        }
        const fd = this.nextFd++;
        this.opened++;
        this.fds.set(fd, { node, pos: 0, append: /a/.test(flags), p });
        return fd;
    }
    close(fd) {
        if (!this.fds.has(fd)) throw error('EBADF', 'close', fd);
        this.fds.delete(fd);
        this.step('close', fd);
    }
    read(fd, buffer, offset = 0, length, position = null) {
        if (offset !== null && typeof offset === 'object') ({ offset = 0, length, position = null } = offset);
        const f = this.fds.get(fd);
        if (!f) throw error('EBADF', 'read', fd);
        this.step('read', f.p);
        if (f.node.type === 'dir') throw error('EISDIR', 'read', f.p);
        if (length === undefined || length === null) length = buffer.length - offset;
        if (offset + length > buffer.length) throw Object.assign(new RangeError('out of range'), { code: 'ERR_OUT_OF_RANGE' });
        const at = position === null || position === -1 || position === undefined ? f.pos : position;
        const rest = Math.max(f.node.data.length - at, 0);
        let n = Math.min(rest, length);
        if (n > 1 && this.short) n = this.short(n);
        for (let i = 0; i < n; i++) buffer.set(offset + i, f.node.data[at + i]);
        if (position === null || position === -1 || position === undefined) f.pos += n;
        return n;
    }
    bytes(data, encoding) {
        if (data instanceof Bytes) return [...data];
        if (typeof data === 'string') return encode(data, typeof encoding === 'string' ? encoding : 'utf8');
        if (ArrayBuffer.isView(data)) return [...new Uint8Array(data.buffer, data.byteOffset, data.byteLength)];
        if (data && typeof data === 'object' && typeof data[Symbol.iterator] === 'function') return [...data].flatMap(x => this.bytes(x, encoding));
        throw Object.assign(new TypeError('The "data" argument must be of type string'), { code: 'ERR_INVALID_ARG_TYPE' });
    }
    writeFile(p, data, o) {
        if (typeof o === 'string') o = { encoding: o };
        const { encoding = 'utf8', flag = 'w', mode = 0o666 } = o || {};
        const list = this.bytes(data, encoding);
        const fd = this.open(p, flag, mode);
        const { node, append } = this.fds.get(fd);
        this.fds.delete(fd);
        this.step('write', p);
        this.changed('write', p);
        node.data = append ? [...node.data, ...list] : [...list, ...node.data.slice(list.length)];
    }
    appendFile(p, data, o) { this.writeFile(p, data, { ...(typeof o === 'string' ? { encoding: o } : o), flag: 'a' }); }
    readFile(p, o) {
        if (typeof o === 'string') o = { encoding: o };
        const { encoding = null, flag = 'r' } = o || {};
        const fd = this.open(p, flag);
        const { node } = this.fds.get(fd);
        this.fds.delete(fd);
        this.step('read', p);
        if (node.type === 'dir') throw error('EISDIR', 'read', p);
        return encoding === null ? Bytes.make(node.data) : decode(node.data, encoding);
    }
    // a stream of chunks, split where the schedule says
    createReadStream(p, o) {
        if (typeof o === 'string') o = { encoding: o };
        const { encoding = null, flags = 'r', start = 0, end = Infinity } = o || {};
        for (const n of [start, end]) if (typeof n !== 'number' || n < 0 || (n !== Infinity && !Number.isSafeInteger(n))) throw Object.assign(new RangeError('out of range'), { code: 'ERR_OUT_OF_RANGE' });
        if (start > end) throw Object.assign(new RangeError('start <= end'), { code: 'ERR_OUT_OF_RANGE' });
        const on = {};
        const self = this;
        let destroyed = false;
        let fd = null;
let as = encoding;
        const emit = (k, ...a) => {
            if (k === 'error' && !(on.error && on.error.length)) {
                self.uncaught = a[0];
                return;
            }
            for (const f of [...(on[k] || [])]) f.apply(stream, a);
        };
        const finish = () => {
            if (fd !== null) self.fds.delete(fd);
            fd = null;
            emit('close');
        };
        const run = async () => {
            await null;
            try {
                fd = self.open(p, flags);
                const { node } = self.fds.get(fd);
                emit('open', fd);
                emit('ready');
                self.step('read', p);
                if (node.type === 'dir') throw error('EISDIR', 'read', p);
                const data = node.data.slice(start, end === Infinity ? undefined : end + 1);
                // text comes in pieces that are cut between characters
                const all = as ? decode(data, as) : Bytes.make(data);
                let at = 0;
                while (at < all.length && !destroyed) {
                    const n = self.short && all.length - at > 1 ? self.short(all.length - at) : all.length - at;
                    at += n;
                    emit('data', all.slice(at - n, at));
                    await null;
                    if (!destroyed) self.step('read', p);
                }
                if (destroyed) return;
                emit('end');
                await null;
                if (!destroyed) finish();
            } catch (e) {
                if (fd !== null) self.fds.delete(fd);
                fd = null;
                if (e && e.code) {
                    emit('error', e);
                    emit('close');
                } else throw e;
            }
        };
        let started = false;
        const stream = {
            path: p,
            on(k, f) {
                (on[k] = on[k] || []).push(f);
                if (k === 'data' && !started) {
                    started = true;
                    run();
                }
                return stream;
            },
            once(k, f) {
                const g = (...a) => {
                    stream.off(k, g);
                    f.apply(stream, a);
                };
                return stream.on(k, g);
            },
            off(k, f) {
                on[k] = (on[k] || []).filter(x => x !== f);
                return stream;
            },
            pause: () => stream, resume: () => stream,
            setEncoding(e) {
                as = e;
                return stream;
            },
            removeAllListeners(k) {
                if (k) delete on[k];
                else for (const n of Object.keys(on)) delete on[n];
                return stream;
            },
            destroy(e) {
                if (destroyed) return stream;
                destroyed = true;
                if (fd !== null) self.fds.delete(fd);
                fd = null;
                Promise.resolve().then(() => {
                    if (e) emit('error', e);
                    emit('close');
                });
                return stream;
            },
            close() { return stream.destroy(); },
            start() {
                if (!started) {
                    started = true;
                    run();
                }
            },
            async *[Symbol.asyncIterator]() {
                const queue = [];
                let wake;
                const push = x => {
                    queue.push(x);
                    if (wake) wake();
                };
                stream.on('error', e => push({ e }));
                stream.on('end', () => push({ done: true }));
                stream.on('data', c => push({ c }));
                try {
                    for (;;) {
                        while (!queue.length) await new Promise(r => (wake = r));
                        const x = queue.shift();
                        if (x.e) throw x.e;
                        if (x.done) return;
                        yield x.c;
                    }
                } finally {
                    stream.destroy();
                }
            }
        };
        stream.addListener = stream.on;
        stream.removeListener = stream.off;
        return stream;
    }
    // the modules fs and fs/promises
    modules() {
        const self = this;
        const names = ['stat', 'lstat', 'access', 'readlink', 'realpath', 'readdir', 'mkdir', 'unlink', 'rmdir', 'rm', 'symlink', 'rename', 'copyFile', 'writeFile', 'appendFile', 'readFile'];
        const promises = {};
        const fs = { constants: require('fs').constants };
        for (const n of names) {
            promises[n] = async (...a) => self[n](...a);
            fs[n + 'Sync'] = (...a) => self[n](...a);
            fs[n] = (...a) => {
                const cb = a.pop();
                promises[n](...a).then(v => cb(null, v), cb);
            };
        }
        fs.existsSync = p => {
            try {
                self.stat(p);
                return true;
            } catch (e) {
                if (!e.code) throw e;
                return false;
            }
        };
        promises.open = async (...a) => {
            const fd = self.open(...a);
            return {
                fd,
                close: async () => self.close(fd),
                stat: async () => self.stats(self.fds.get(fd).node),
                read: async (b, ...r) => {
                    if (!(b instanceof Bytes)) ({ buffer: b = BytesBuffer.alloc(16384), ...r[0] } = b || {});
                    return { bytesRead: self.read(fd, b, ...r), buffer: b };
                },
                readFile: async o => {
                    const f = self.fds.get(fd);
                    self.step('read', f.p);
                    if (f.node.type === 'dir') throw error('EISDIR', 'read', f.p);
                    return o ? decode(f.node.data, o.encoding || o) : Bytes.make(f.node.data);
                },
                [Symbol.asyncDispose]: async () => self.close(fd)
            };
        };
        fs.openSync = (...a) => self.open(...a);
        fs.closeSync = fd => self.close(fd);
        fs.readSync = (...a) => self.read(...a);
        fs.fstatSync = fd => self.stats(self.fds.get(fd).node);
        fs.read = (fd, b, o, l, p, cb) => {
            let n;
            Promise.resolve().then(() => (n = self.read(fd, b, o, l, p))).then(() => cb(null, n, b), cb);
        };
        fs.createReadStream = (...a) => self.createReadStream(...a);
        fs.promises = promises;
        return { fs, promises };
    }
    // the module path, relative to the current folder of this file system
    path() {
        const path = require('path');
        const abs = p => path.resolve(this.cwd, p);
        const out = { ...path, resolve: (...a) => path.resolve(this.cwd, ...a), relative: (a, b) => path.relative(abs(a), abs(b)) };
        return { ...out, posix: out };
    }
    // what readline.createInterface makes of such a stream
    readline() {
        const self = this;
        return {
            createInterface(o, input) {
                const stream = (o && o.input) || o || input;
                const on = {};
                let rest = '';
                let cr = false;
                let closed = false;
                const emit = (k, ...a) => [...(on[k] || [])].forEach(f => f(...a));
                const close = () => {
                    if (closed) return;
                    closed = true;
                    emit('close');
                };
                const api = {
                    on(k, f) {
                        (on[k] = on[k] || []).push(f);
                        return api;
                    },
                    once(k, f) {
                        const g = (...a) => {
                            api.off(k, g);
                            f(...a);
                        };
                        return api.on(k, g);
                    },
                    off(k, f) {
                        on[k] = (on[k] || []).filter(x => x !== f);
                        return api;
                    },
                    removeAllListeners() {
                        for (const k of Object.keys(on)) delete on[k];
                        return api;
                    },
                    close
                };
                api.addListener = api.on;
                api.removeListener = api.off;
                stream.on('data', c => {
                    if (closed) return;
                    let s = String(c);
                    if (cr && s[0] === '\n') s = s.slice(1);
                    cr = s.length ? s[s.length - 1] === '\r' : false;
                    const lines = (rest + s).split(/\r\n|\n|\r/);
                    rest = lines.pop();
                    lines.forEach(l => emit('line', l));
                });
                // newer versions of Node pass the errors of the input on
                if (self.forward)
                    stream.on('error', e => {
                        if (on.error && on.error.length) emit('error', e);
                        else self.uncaught = e;
                    });
                stream.on('end', () => {
                    if (rest.length) emit('line', rest);
                    close();
                });
                return api;
            }
        };
    }
    // everything there is, as a list of [path, kind, content]
    list(at = '/') {
        const out = [];
        const go = (d, p) => {
            for (const [n, x] of d.entries) {
                out.push([p + n, x.type, x.type === 'file' ? x.data : x.type === 'link' ? x.target : null]);
                if (x.type === 'dir') go(x, p + n + '/');
            }
        };
        const r = at === '/' ? this.tree : this.walk(at, 'list', false).node;
        if (r && r.type === 'dir') go(r, at === '/' ? '/' : at + '/');
        return out.sort((a, b) => (a[0] < b[0] ? -1 : 1));
    }
    node(path) {
        try {
            return this.walk(path, 'look', false).node;
        } catch (e) {
            if (e.code) return undefined;
            throw e;
        }
    }
}
module.exports = { encode, FS, Bytes, BytesBuffer, error };
