"""Memory model: objects with immutable update chains, typed loads and stores, pointer resolution, globals."""
import z3
from core import *
from ir import PTR


class MemMixin:
    def fresh(self, name, w):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def fresh_init(self, name, axiom=None):
        self.fresh_n += 1
        return Init('%s!%d' % (name, self.fresh_n), axiom)

    def new_obj(self, st, size, name, kind, node=None, const=False):
        self.nobj += 1
        o = Obj(self.nobj, size, name, kind, const=const)
        self.objs[o.id] = o
        if node is None:
            node = self.fresh_init(name)
        st.mem[o.id] = (node, False)
        return o

    def base(self, oid):
        return oid << BASE_SHIFT

    def addr(self, p):
        if p.o is None:
            return p.off
        b = self.base(p.o)
        if isint(p.off):
            return (b + p.off) & M64
        return z3.BitVecVal(b, 64) + p.off

    def bits(self, v, w):
        """value as python int / BV of width w"""
        if isinstance(v, Ptr):
            return self.addr(v)
        if type(v) is bool:
            return int(v)
        if isint(v):
            return v & mask(w)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def bitz(self, v, w):
        return bv(self.bits(v, w), w)

    def to_ptr(self, v):
        if isinstance(v, Ptr):
            return v
        v = isz(v)
        if isint(v):
            if v == 0:
                return NULL
            o = v >> BASE_SHIFT
            if o in self.objs:
                return Ptr(o, v - self.base(o))
            return Ptr(None, v)
        if z3.is_app_of(v, z3.Z3_OP_BADD):
            ch = v.children()
            for i, c in enumerate(ch):
                if z3.is_bv_value(c):
                    a = c.as_long()
                    o = a >> BASE_SHIFT
                    if o in self.objs:
                        rest = [x for j, x in enumerate(ch) if j != i]
                        e = rest[0]
                        for x in rest[1:]:
                            e = e + x
                        d = a - self.base(o)
                        return Ptr(o, e + d if d else e)
        return Ptr(None, v)

    # -------------------------------------------------------- reads
    def initf(self, init):
        if init.f is None:
            init.f = z3.Function('mem_' + init.name, z3.BitVecSort(64), z3.BitVecSort(8))
        return init.f

    def read_init(self, st, init, off, n):
        f = self.initf(init)
        bs = []
        for i in range(n):
            o = (off + i) & M64 if isint(off) else (off + i if i else off)
            oz = z3.simplify(bv(o, 64))
            if init.axiom is not None:
                k = (init.name, oz.get_id())
                if k not in st.seen_ax:
                    st.seen_ax = st.seen_ax | {k}
                    self.keepalive.append(oz)
                    c = init.axiom(self, st, oz)
                    if c is not None and not isint(c):
                        self.define(st, c)
            bs.append(f(oz))
        if n == 1:
            return bs[0]
        return z3.Concat(*reversed(bs))

    def diff(self, a, b):
        """a - b as signed int or BV"""
        if isint(a) and isint(b):
            return sgn(a - b, 64)
        if not isint(a) and not isint(b) and a.eq(b):
            return 0
        d = simp(bv(a, 64) - bv(b, 64))
        if isint(d):
            return sgn(d, 64)
        return d

    def read(self, st, node, off, n):
        while True:
            t = type(node)
            if t is Store:
                d = self.diff(off, node.off)
                if isint(d):
                    if d == 0 and n == node.n:
                        return node.v
                    if d >= node.n or d <= -n:
                        node = node.prev
                        continue
                    if 0 <= d and d + n <= node.n:
                        b = self.bits(node.v, 8 * node.n)
                        if isint(b):
                            return (b >> (8 * d)) & mask(8 * n)
                        return z3.Extract(8 * (d + n) - 1, 8 * d, b)
                    return self.bytewise(st, node, off, n)
                ov = z3.Or(z3.ULT(d, node.n), z3.ULT(-d, n)) if n > 1 else z3.ULT(d, node.n)
                if not self.feasible(st, ov):
                    node = node.prev
                    continue
                if n == node.n:
                    if n == 1 or not self.feasible(st, z3.And(ov, d != 0)):
                        if not self.feasible(st, d != 0):
                            return node.v
                        rest = self.read(st, node.prev, off, n)
                        return self.ite(d == 0, node.v, rest, 8 * n)
                if n == 1:
                    if not self.feasible(st, z3.UGE(d, node.n)):
                        return self.dynbyte(node, d)
                    rest = self.read(st, node.prev, off, 1)
                    return self.ite(z3.ULT(d, node.n), self.dynbyte(node, d), rest, 8)
                return self.bytewise(st, node, off, n)
            if t is Copy or t is Set or t is Havoc:
                d = self.diff(off, node.off)
                ln = node.n
                if isint(d) and isint(ln):
                    if d >= ln or d <= -n:
                        node = node.prev
                        continue
                    if not (d >= 0 and d + n <= ln):
                        return self.bytewise(st, node, off, n)
                else:
                    if isint(d) and d <= -n:
                        node = node.prev
                        continue
                    dz, lz = bv(d, 64), bv(ln, 64)
                    if n > 1:
                        ov = z3.Or(z3.ULT(dz, lz), z3.And(z3.ULT(-dz, n), lz != 0))
                        ins = z3.And(z3.ULT(dz, lz), z3.UGE(lz - dz, n))
                    else:
                        ov = ins = z3.ULT(dz, lz)
                    if not self.feasible(st, ov):
                        node = node.prev
                        continue
                    if self.feasible(st, z3.Not(ins)):
                        if n == 1 or not self.feasible(st, z3.And(ov, z3.Not(ins))):
                            a = self.inner(st, node, off, d, n)
                            b = self.read(st, node.prev, off, n)
                            return self.ite(ins, a, b, 8 * n)
                        return self.bytewise(st, node, off, n)
                if t is Copy:
                    if isint(d) and isint(node.soff):
                        off = (node.soff + d) & M64
                    elif isint(d) and d == 0:
                        off = node.soff
                    else:
                        off = simp(bv(node.soff, 64) + bv(d & M64 if isint(d) else d, 64))
                    node = node.src
                    continue
                if t is Set:
                    return self.setval(node, n)
                return self.read_init(st, node.init, off, n)
            if t is Init:
                return self.read_init(st, node, off, n)
            if t is Zero:
                return 0
            if t is Bytes:
                return self.read_bytes(st, node, off, n)
            raise Unsupported('node %r' % node)

    def setval(self, node, n):
        v = node.v
        if isint(v):
            return int.from_bytes(bytes([v & 255]) * n, 'little')
        return v if n == 1 else z3.Concat(*([v] * n))

    def inner(self, st, node, off, d, n):
        t = type(node)
        if t is Copy:
            so = simp(bv(node.soff, 64) + bv(d & M64 if isint(d) else d, 64))
            return self.read(st, node.src, so, n)
        if t is Set:
            return self.setval(node, n)
        return self.read_init(st, node.init, off, n)

    def dynbyte(self, node, d):
        b = self.bitz(node.v, 8 * node.n)
        if node.n == 1:
            return b
        w = 8 * node.n
        sh = z3.Extract(w - 1, 0, d) if w < 64 else (d if w == 64 else z3.ZeroExt(w - 64, d))
        return z3.Extract(7, 0, z3.LShR(b, sh * 8))

    def bytewise(self, st, node, off, n):
        bs = []
        for i in range(n):
            o = (off + i) & M64 if isint(off) else off + i
            bs.append(self.bits(self.read(st, node, o, 1), 8))
        if all(isint(b) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if n == 1:
            return bs[0]
        return z3.Concat(*[bv(b, 8) for b in reversed(bs)])

    def read_bytes(self, st, node, off, n):
        if isint(off):
            if n == 8 and off in node.ptrs:
                return node.ptrs[off]
            for po in node.ptrs:
                if po < off + n and off < po + 8:
                    bs = []
                    for i in range(n):
                        o = off + i
                        hit = [q for q in node.ptrs if q <= o < q + 8]
                        if hit:
                            bs.append((self.addr(node.ptrs[hit[0]]) >> (8 * (o - hit[0]))) & 255)
                        else:
                            bs.append(node.data[o])
                    return int.from_bytes(bytes(bs), 'little')
            return int.from_bytes(node.data[off:off + n], 'little')
        size = len(node.data)
        step = n if n == 1 or self.valid(st, z3.URem(off, bv(n, 64)) == 0) else 1
        idxs = range(0, size - n + 1, step)
        if len(idxs) > 4096:
            raise Unsupported('symbolic read of large constant')
        vals = [self.bits(self.read_bytes(st, node, i, n), 8 * n) for i in idxs]
        if not vals:
            return self.fresh('oob', 8 * n)
        idx = off if step == 1 else z3.LShR(off, (step - 1).bit_length())
        return self.table(simp(idx), vals, 8 * n)

    def table(self, idx, vals, w):
        if isint(idx):
            return vals[idx] if idx < len(vals) else vals[-1]
        bits = max(1, (len(vals) - 1).bit_length())
        m = 1 << bits
        vals = list(vals) + [vals[-1]] * (m - len(vals))

        def rec(lo, n, b):
            if n == 1 or all(v == vals[lo] for v in vals[lo:lo + n]):
                return z3.BitVecVal(vals[lo], w)
            h = n // 2
            a, c = rec(lo, h, b - 1), rec(lo + h, h, b - 1)
            return z3.If(z3.Extract(b - 1, b - 1, idx) == 1, c, a)
        return rec(0, m, bits)

    def ite(self, c, a, b, w):
        if isint(c):
            return a if c else b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o and same(a.off, b.off):
                return a
            if a.o == b.o and a.o is not None:
                return Ptr(a.o, z3.If(c, bv(a.off, 64), bv(b.off, 64)))
        if isinstance(a, list) or isinstance(b, list):
            raise Unsupported('ite of aggregates')
        A, B = self.bits(a, w), self.bits(b, w)
        if same(A, B):
            return a
        return z3.If(c, bv(A, w), bv(B, w))

    # -------------------------------------------------------- writes
    def write(self, st, oid, off, n, v):
        node, fr = st.mem[oid]
        if not isint(off):
            off = simp(off)
        if isint(off):
            if type(node) is Store and isint(node.off) and node.off == off and node.n == n:
                node = node.prev
            else:
                node = self.compact(node, off, n)
        st.mem[oid] = (Store(node, off, n, v), fr)
        if st.loops:
            st.wlog = ((oid, off, n), st.wlog)
        if n == 1 and isint(v) and v == 0:
            st.nul[oid] = st.nul.get(oid, ()) + (off,)

    def compact(self, node, off, n):
        """drop an older store to exactly the same concrete cell if only concrete disjoint stores lie above it"""
        chain = []
        cur = node
        for _ in range(64):
            if type(cur) is Store and isint(cur.off):
                if cur.off == off and cur.n == n:
                    res = cur.prev
                    for c in reversed(chain):
                        res = Store(res, c.off, c.n, c.v)
                    return res
                if cur.off < off + n and off < cur.off + cur.n:
                    return node
                chain.append(cur)
                cur = cur.prev
            else:
                return node
        return node

    def bulk(self, st, kind, p, n, src=None, val=None):
        """memcpy/memset/havoc of n bytes (int or BV) at resolved p"""
        node, fr = st.mem[p.o]
        if isint(n) and n == 0:
            return
        off = p.off if isint(p.off) else simp(p.off)
        if kind == 'copy':
            s, so = src
            if isint(n) and n in (1, 2, 4, 8):
                self.write(st, p.o, off, n, self.read(st, s, so, n))
                return
            nn = Copy(node, off, n, s, so)
        elif kind == 'set':
            if isint(n) and n in (1, 2, 4, 8) and isint(val):
                self.write(st, p.o, off, n, int.from_bytes(bytes([val & 255]) * n, 'little'))
                return
            nn = Set(node, off, n, val)
        else:
            nn = Havoc(node, off, n, val)
        st.mem[p.o] = (nn, fr)
        if st.loops:
            st.wlog = ((p.o, off, n), st.wlog)

    # -------------------------------------------------------- pointers
    def resolve(self, st, p):
        """(state, Ptr) alternatives for a raw pointer"""
        if p.o is not None:
            return [(st, p)]
        q = self.to_ptr(p.off if isint(p.off) else simp(p.off))
        if q.o is not None or isint(q.off):
            return [(st, q)]
        e = q.off
        out = []
        excl = []
        for _ in range(24):
            c = z3.And(*[z3.Not(x) for x in excl]) if excl else z3.BoolVal(True)
            r = self.sol.check(st.pc, c, 5.0, want_model=True)
            if r == 'unknown':
                r = self.sol.check_hard(st.pc, c, 20.0)
            if r == 'unsat':
                break
            if r != 'sat' or self.sol.model is None:
                raise Unsupported('pointer resolution timeout')
            a = self.sol.model.eval(e, model_completion=True).as_long()
            o = a >> BASE_SHIFT
            if a == 0:
                inb = e == 0
                q2 = NULL
            elif o in self.objs:
                inb = z3.LShR(e, BASE_SHIFT) == o
                q2 = Ptr(o, simp(e - self.base(o)))
            else:
                inb = z3.And(e != 0, *[z3.LShR(e, BASE_SHIFT) != k for k in self.objs])
                q2 = Ptr(None, e)
            s2 = st.copy()
            s2.pc.append(inb)
            if q2.o is not None and not isint(q2.off):
                # a unique offset is common (pointer tables)
                m = self.base(o)
                if self.sol.check(s2.pc, e != a, 1.0) == 'unsat':
                    q2 = Ptr(o, a - m)
            out.append((s2, q2))
            excl.append(inb)
        else:
            raise Unsupported('pointer resolves to too many objects')
        return out

    def with_ptr(self, st, p, k):
        """resolve p (forking) then continue with k(state, frame, ptr); k returns False when the state is consumed"""
        if p.o is not None:
            return k(st, st.frames[-1], p)
        if isint(p.off):
            return k(st, st.frames[-1], self.to_ptr(p.off))
        alts = self.resolve(st, p)
        if len(alts) == 1 and alts[0][0] is st:
            return k(st, st.frames[-1], alts[0][1])
        for s2, q in alts:
            if k(s2, s2.frames[-1], q) is not False:
                self.work.append(s2)
        return False

    def access(self, st, p, n, what, write=False):
        """obligation that [p, p+n) is a live object region; p must be resolved"""
        if isint(n) and n == 0:
            return True
        zero = False if isint(n) else (n == 0)
        if p.o is None:
            return self.obligation(st, zero, 'memory', what + ' through an invalid or null pointer')
        o = self.objs[p.o]
        if o.kind == 'func':
            return self.obligation(st, zero, 'memory', what + ' of a function')
        if p.o not in st.mem and not self.global_mem(st, p.o):
            return self.obligation(st, zero, 'memory', what + ' of a dead stack object')
        if st.mem[p.o][1]:
            return self.obligation(st, zero, 'memory', what + ' of freed memory')
        if write and o.const:
            return self.obligation(st, zero, 'memory', what + ' of a constant')
        size, off = o.size, p.off
        if isint(size) and isint(off) and isint(n):
            c = off + n <= size
        else:
            sz, of, nn = bv(size, 64), bv(off, 64), bv(n, 64)
            c = z3.And(z3.ULE(of, sz), z3.ULE(nn, sz - of))
            if not isint(n):
                c = z3.Or(nn == 0, c)
            c = simp(c)
        if st.guards and self.origin(st.frames[-1].fn) == 'repo':
            for (go, goff, gn, cell) in st.guards:
                if go != p.o:
                    continue
                inreg = True
                if gn is not None:
                    if isint(p.off):
                        inreg = goff <= p.off < goff + gn
                    else:
                        inreg = z3.ULT(p.off - goff, gn)
                if isint(inreg) and not inreg:
                    continue
                held = self.bits(self.read(st, st.mem[cell.o][0], cell.off, 4), 32)
                hc = self.cmp('eq', held, 1, 32)
                if not self.obligation(st, b_imp(inreg, hc), 'lock', 'access to shared state while holding the lock'):
                    return False
        return self.obligation(st, c, 'memory', what + ' in bounds')

    # -------------------------------------------------------- typed access
    def load(self, st, p, t, mod):
        t = mod.rt(t)
        if t[0] == 's':
            offs, _ = mod.layout(t)
            return [self.load(st, self.padd(p, o), ft, mod) for o, ft in zip(offs, t[3])]
        if t[0] == 'a':
            es = mod.size(t[2])
            return [self.load(st, self.padd(p, i * es), t[2], mod) for i in range(t[1])]
        n = mod.size(t)
        off = p.off if isint(p.off) else simp(p.off)
        return self.retype(self.read(st, st.mem[p.o][0], off, n), t)

    def retype(self, v, t):
        if t[0] == 'ptr':
            return self.to_ptr(v if isinstance(v, Ptr) else simp(self.bits(v, 64)))
        if t[0] == 'i':
            w = t[1]
            if w == 1:
                b = self.bits(v, 8)
                if isint(b):
                    return bool(b & 1)
                return simp(z3.Extract(0, 0, b) == 1)
            full = (w + 7) // 8 * 8
            b = isz(self.bits(v, full))
            if full != w:
                b = b & mask(w) if isint(b) else z3.Extract(w - 1, 0, b)
            return b
        if t[0] == 'f':
            return isz(self.bits(v, t[1]))
        raise Unsupported('load type %r' % (t,))

    def store_val(self, st, p, t, v, mod):
        t = mod.rt(t)
        if isinstance(v, list):
            if t[0] == 's':
                offs, _ = mod.layout(t)
                for o, ft, x in zip(offs, t[3], v):
                    self.store_val(st, self.padd(p, o), ft, x, mod)
            else:
                es = mod.size(t[2])
                for i, x in enumerate(v):
                    self.store_val(st, self.padd(p, i * es), t[2], x, mod)
            return
        n = mod.size(t)
        if t[0] == 'i' and t[1] % 8:
            full = 8 * n
            b = self.bits(v, full)
            if not isint(b) and b.size() != full:
                b = z3.ZeroExt(full - b.size(), b)
            v = b
        elif type(v) is bool:
            v = int(v)
        self.write(st, p.o, p.off, n, v)

    def padd(self, p, d):
        if isint(d) and d == 0:
            return p
        return Ptr(p.o, self.oadd(p.off, d))

    def oadd(self, a, b):
        if isint(a) and isint(b):
            return (a + b) & M64
        if isint(b) and b == 0:
            return a
        if isint(a) and a == 0:
            return b
        return bv(a & M64 if isint(a) else a, 64) + bv(b & M64 if isint(b) else b, 64)

    # -------------------------------------------------------- globals and constants
    def global_ptr(self, mod, name):
        if name in mod.funcs:
            return self.func_ptr(mod.funcs[name])
        if name in mod.globals and mod.globals[name][1] is not None:
            return self.gobj_ptr(mod, name)
        if name in self.gdef:
            return self.func_ptr(self.gdef[name])
        for m in self.mods:
            if name in m.globals and m.globals[name][1] is not None and not m.globals[name][3]:
                return self.gobj_ptr(m, name)
        if name in mod.globals:
            return self.gobj_ptr(mod, name)
        return self.func_ptr(name)

    def func_ptr(self, f):
        k = f if isinstance(f, str) else id(f)
        if k not in self.fobj:
            self.nobj += 1
            o = Obj(self.nobj, 1, f if isinstance(f, str) else f.name, 'func', fn=f)
            self.objs[o.id] = o
            self.fobj[k] = o
        return Ptr(self.fobj[k].id, 0)

    def gobj_ptr(self, mod, name):
        k = (mod.path, name)
        if k not in self.gobj:
            t, init, const, internal, tl = mod.globals[name]
            size = mod.size(t)
            self.nobj += 1
            o = Obj(self.nobj, size, name, 'global', const=const)
            self.objs[o.id] = o
            self.gobj[k] = o
            if init is None:
                self.init_mem[o.id] = Init('ext_' + name)
            else:
                data = bytearray(size)
                ptrs = {}
                self.ginit(mod, t, init, 0, data, ptrs)
                self.init_mem[o.id] = Bytes(bytes(data), ptrs)
        return Ptr(self.gobj[k].id, 0)

    def global_mem(self, st, oid):
        if oid in st.mem:
            return True
        if oid in self.init_mem:
            st.mem[oid] = (self.init_mem[oid], False)
            return True
        return False

    def ginit(self, mod, t, v, off, data, ptrs):
        t = mod.rt(t)
        k = v[0]
        if k in ('zero', 'undef', 'null'):
            return
        if k == 'str':
            data[off:off + len(v[1])] = v[1]
        elif k == 'agg':
            if t[0] == 's':
                offs, _ = mod.layout(t)
                for o, (et, ev) in zip(offs, v[1]):
                    self.ginit(mod, et, ev, off + o, data, ptrs)
            else:
                es = mod.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.ginit(mod, et, ev, off + i * es, data, ptrs)
        elif k == 'c':
            n = mod.size(t)
            data[off:off + n] = (int(v[1]) & mask(8 * n)).to_bytes(n, 'little')
        elif k == 'f':
            n = v[2] // 8
            data[off:off + n] = v[1].to_bytes(n, 'little')
        elif k in ('g', 'ce'):
            p = self.const(mod, t, v)
            if isinstance(p, Ptr):
                ptrs[off] = p
            else:
                n = mod.size(t)
                data[off:off + n] = (p & mask(8 * n)).to_bytes(n, 'little')
        else:
            raise Unsupported('global init %r' % (v,))

    def const(self, mod, t, v):
        k = v[0]
        if k == 'c':
            if t[0] == 'i' and t[1] == 1:
                return bool(v[1])
            if t[0] == 'ptr':
                return self.to_ptr(v[1])
            return int(v[1]) & mask(t[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(mod, v[1])
        if k == 'f':
            return v[1]
        if k == 'undef':
            return self.undef(mod, t)
        if k == 'zero':
            return self.zero(mod, t)
        if k == 'agg':
            return [self.const(mod, et, ev) for et, ev in v[1]]
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                args = v[3]
                basep = self.const(mod, PTR, args[0][1])
                return self.gep(mod, v[2], basep, [(t2, self.const(mod, t2, x)) for t2, x in args[1:]])
            if op == 'ptrtoint':
                return self.addr(self.const(mod, v[2], v[3]))
            if op == 'inttoptr':
                return self.to_ptr(self.const(mod, v[2], v[3]))
            if op == 'bitcast':
                return self.const(mod, v[2], v[3])
        raise Unsupported('const %r' % (v,))

    def undef(self, mod, t):
        t = mod.rt(t)
        if t[0] == 's':
            return [self.undef(mod, x) for x in t[3]]
        if t[0] == 'a':
            return [self.undef(mod, t[2]) for _ in range(t[1])]
        if t[0] == 'ptr':
            return Ptr(None, self.fresh('undef', 64))
        if t[0] == 'i' and t[1] == 1:
            self.fresh_n += 1
            return z3.Bool('undef!%d' % self.fresh_n)
        return self.fresh('undef', t[1])

    def zero(self, mod, t):
        t = mod.rt(t)
        if t[0] == 's':
            return [self.zero(mod, x) for x in t[3]]
        if t[0] == 'a':
            return [self.zero(mod, t[2]) for _ in range(t[1])]
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'i' and t[1] == 1:
            return False
        return 0

    def gep(self, mod, bt, base, idx):
        t = bt
        off = base.off
        first = True
        for it, iv in idx:
            w = it[1]
            if first:
                es = mod.size(t)
                first = False
            else:
                rt = mod.rt(t)
                if rt[0] == 's':
                    offs, _ = mod.layout(rt)
                    off = self.oadd(off, offs[iv])
                    t = rt[3][iv]
                    continue
                t = rt[2]
                es = mod.size(t)
            if isint(iv):
                off = self.oadd(off, sgn(iv, w) * es)
            else:
                x = iv if w == 64 else (z3.SignExt(64 - w, iv) if w < 64 else z3.Extract(63, 0, iv))
                off = self.oadd(off, x * es if es != 1 else x)
        return Ptr(base.o, off)
