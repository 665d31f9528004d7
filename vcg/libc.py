"""Models of compiler intrinsics and libc, and the specification intrinsics (vp_*)."""
import z3
from core import *


class LibMixin:
    MODELLED = ()

    # -------------------------------------------------------- llvm intrinsics
    def intrinsic(self, st, fr, ins, name, args):
        base = name.split('.')[1]
        if base in ('lifetime', 'dbg', 'assume', 'donothing', 'stackrestore', 'prefetch', 'experimental', 'va_start', 'va_end'):
            return None
        vals = [self.val(st, t, v) for t, v in args]
        if base in ('memcpy', 'memmove'):
            return self.mem_copy(st, vals[0], vals[1], vals[2], base == 'memmove')
        if base == 'memset':
            return self.mem_set(st, vals[0], vals[1], vals[2])
        if base == 'stacksave':
            fr.regs[ins.dst] = NULL
            return None
        w = args[0][0][1] if args and args[0][0][0] in ('i', 'f') else None
        if base == 'expect':
            r = vals[0]
        elif base == 'bswap':
            x = vals[0]
            if isint(x):
                r = int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
            else:
                r = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])
        elif base in ('fshl', 'fshr'):
            a, b, c = vals
            if not isint(c):
                raise Unsupported('funnel shift by symbolic amount')
            c %= w
            x = z3.Concat(bv(a, w), bv(b, w))
            r = simp(z3.Extract(2 * w - 1 - c, w - c, x) if base == 'fshl' else z3.Extract(w - 1 + c, c, x))
        elif base in ('umin', 'umax', 'smin', 'smax'):
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[base]
            r = self.ite(self.cmp(pred, vals[0], vals[1], w), vals[0], vals[1], w)
        elif base == 'abs':
            r = self.ite(self.cmp('slt', vals[0], 0, w), self.arith(st, 'sub', 0, vals[0], w), vals[0], w)
        elif base == 'objectsize':
            r = mask(ins.a[0][1])
        elif base == 'trap':
            self.obligation(st, False, 'trap', 'trap is not reached')
            return False
        elif base == 'fabs':
            r = self.arith(st, 'and', vals[0], mask(w - 1), w)
        elif '.with.overflow' in name:
            sx = base[0] == 's'
            e = (lambda v: z3.SignExt(w, bv(v, w))) if sx else (lambda v: z3.ZeroExt(w, bv(v, w)))
            A, B = e(vals[0]), e(vals[1])
            R = {'add': A + B, 'sub': A - B, 'mul': A * B}[base[1:]]
            lo = z3.Extract(w - 1, 0, R)
            r = [simp(lo), simp(e(lo) != R)]
        elif base == 'usub' and '.sat' in name:
            r = self.ite(self.cmp('ult', vals[0], vals[1], w), 0, self.arith(st, 'sub', vals[0], vals[1], w), w)
        elif base == 'ctpop':
            x = bv(vals[0], w)
            r = simp(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)], z3.BitVecVal(0, w)))
        elif base in ('ctlz', 'cttz'):
            x = bv(vals[0], w)
            r = z3.BitVecVal(w, w)
            for i in (range(w) if base == 'ctlz' else range(w - 1, -1, -1)):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if base == 'ctlz' else i, w), r)
            r = simp(r)
        else:
            raise Unsupported('intrinsic ' + name)
        self.setret(fr, ins, r)
        return None

    def mem_copy(self, st, d, s, n, move):
        if not isint(n):
            n = simp(n)
        if isint(n) and n == 0:
            return None

        def k1(st1, f1, dq):
            def k2(st2, f2, sq):
                if not self.access(st2, sq, n, 'copy source'):
                    return False
                if not self.access(st2, dq, n, 'copy destination', True):
                    return False
                if sq.o is None or dq.o is None or sq.o not in st2.mem or dq.o not in st2.mem:      # n == 0 on this path
                    return None
                if not move and sq.o == dq.o:
                    a, b, ln = bv(sq.off, 64), bv(dq.off, 64), bv(n, 64)
                    ok = z3.Or(ln == 0, z3.And(z3.UGE(a - b, ln), z3.UGE(b - a, ln)), a == b)
                    if not self.obligation(st2, simp(ok), 'memory', 'memcpy regions do not overlap'):
                        return False
                self.bulk(st2, 'copy', dq, n, src=(st2.mem[sq.o][0], sq.off if isint(sq.off) else simp(sq.off)))
            return self.with_ptr(st1, s, k2)
        return self.with_ptr(st, d, k1)

    def mem_set(self, st, d, v, n):
        if not isint(n):
            n = simp(n)
        if isint(n) and n == 0:
            return None

        def k(s, f, q):
            if not self.access(s, q, n, 'memset destination', True):
                return False
            if q.o is None or q.o not in s.mem:
                return None
            self.bulk(s, 'set', q, n, val=v)
        return self.with_ptr(st, d, k)

    # -------------------------------------------------------- allocation
    def x_malloc(self, st, fr, ins, vals):
        return self.do_alloc(st, fr, ins, vals[0], None)

    x_valloc = x_malloc

    def x_calloc(self, st, fr, ins, vals):
        n = self.arith(st, 'mul', vals[0], vals[1], 64)
        return self.do_alloc(st, fr, ins, n, Zero())

    def do_alloc(self, st, fr, ins, size, node):
        if not isint(size):
            size = simp(size)
        st.nalloc += 1
        mf = st.flags.get('mayfail')
        big = (size > (1 << 43)) if isint(size) else z3.UGT(size, 1 << 43)
        maybig = self.feasible(st, big)
        if mf or maybig:
            s2 = st.copy()
            if not mf:
                if not isint(big):
                    s2.pc.append(big)
                s2.inputs = (('malloc#%d' % s2.nalloc, 'mfail', 1, 0), s2.inputs)
            else:
                s2.inputs = (('malloc#%d' % s2.nalloc, 'mfail', 1, 0), s2.inputs)
            s2.flags['failed_alloc'] = True
            self.setret(s2.frames[-1], ins, NULL)
            self.work.append(s2)
            if maybig:
                if isint(big) or not self.feasible(st, b_not(big)):
                    return False
                st.pc.append(b_not(big))
        o = self.new_obj(st, size, 'heap', 'heap', node)
        st.live += 1
        self.setret(fr, ins, Ptr(o.id, 0))
        return None

    def x_realloc(self, st, fr, ins, vals):
        p, n = vals
        if not isint(n):
            n = simp(n)

        def k(s, f, q):
            if q.o is None and isint(q.off) and q.off == 0:
                return self.do_alloc(s, f, ins, n, None)
            if not self.check_free(s, q, 'realloc'):
                return False
            node, _ = s.mem[q.o]
            old = self.objs[q.o].size
            if isint(old) and isint(n):
                m = min(old, n)
            else:
                m = simp(z3.If(z3.ULT(bv(old, 64), bv(n, 64)), bv(old, 64), bv(n, 64)))
                for cand in (old, n):
                    if self.valid(s, self.cmp('eq', m, cand, 64)):
                        m = cand
                        break
            nn = Copy(self.fresh_init('realloc'), 0, m, node, 0) if not (isint(m) and m == 0) else None
            live0 = s.live
            if self.do_alloc(s, f, ins, n, nn) is False:
                return False
            s.mem[q.o] = (node, True)
            s.live = live0
            if ins.dst:
                s.nul[f.regs[ins.dst].o] = s.nul.get(q.o, ())
            return None
        return self.with_ptr(st, p, k)

    def check_free(self, st, q, what):
        if q.o is None or self.objs[q.o].kind != 'heap':
            return self.obligation(st, False, 'memory', what + ' only of a heap block')
        if st.mem[q.o][1]:
            return self.obligation(st, False, 'memory', what + ' only of a block not freed before')
        return self.obligation(st, self.cmp('eq', q.off, 0, 64), 'memory', what + ' only of the start of a block')

    def x_free(self, st, fr, ins, vals):
        def k(s, f, q):
            if q.o is None and isint(q.off) and q.off == 0:
                return None
            if not self.check_free(s, q, 'free'):
                return False
            s.mem[q.o] = (s.mem[q.o][0], True)
            s.live -= 1
        return self.with_ptr(st, vals[0], k)

    def x_memcpy(self, st, fr, ins, vals):
        self.setret(fr, ins, vals[0])
        return self.mem_copy(st, vals[0], vals[1], vals[2], False)

    def x_memmove(self, st, fr, ins, vals):
        self.setret(fr, ins, vals[0])
        return self.mem_copy(st, vals[0], vals[1], vals[2], True)

    def x_memset(self, st, fr, ins, vals):
        self.setret(fr, ins, vals[0])
        v = vals[1]
        return self.mem_set(st, vals[0], v & 255 if isint(v) else z3.Extract(7, 0, v), vals[2])

    # -------------------------------------------------------- pointwise facts
    def add_index(self, st, t):
        """new index term: instantiate every known pointwise fact at it"""
        if not isint(t):
            t = simp(t)
        for u in st.universe:
            if same(u, t):
                return
        st.universe = st.universe + (t,)
        for f in st.facts:
            c = f(self, st, t)
            if not isint(c):
                self.define(st, c)

    def add_fact(self, st, f):
        st.facts = st.facts + (f,)
        for t in st.universe:
            c = f(self, st, t)
            if not isint(c):
                self.define(st, c)

    # -------------------------------------------------------- comparison and strings
    def x_memcmp(self, st, fr, ins, vals):
        a, b, n = vals
        if not isint(n):
            n = simp(n)

        def k1(st1, f1, aq):
            def k2(st2, f2, bq):
                if not self.access(st2, aq, n, 'memcmp first operand'):
                    return False
                if not self.access(st2, bq, n, 'memcmp second operand'):
                    return False
                if (isint(n) and n == 0) or aq.o is None or bq.o is None or aq.o not in st2.mem or bq.o not in st2.mem:
                    self.setret(f2, ins, 0)
                    return None
                self.setret(f2, ins, self.cmp_bytes(st2, st2.mem[aq.o][0], aq.off, st2.mem[bq.o][0], bq.off, n))
                return None
            return self.with_ptr(st1, b, k2)
        return self.with_ptr(st, a, k1)

    x_bcmp = x_memcmp

    def cmp_bytes(self, st, na, ao, nb, bo, n):
        """sign-only result of memcmp over two memory snapshots"""
        ao, bo = simp(ao), simp(bo)
        if isint(n) and n <= 24:
            A = [self.bitz(self.read(st, na, self.oadd(ao, i), 1), 8) for i in range(n)]
            B = [self.bitz(self.read(st, nb, self.oadd(bo, i), 1), 8) for i in range(n)]
            x = z3.Concat(*A) if n > 1 else A[0]
            y = z3.Concat(*B) if n > 1 else B[0]
            e, l = simp(x == y), simp(z3.ULT(x, y))
            if isint(e) and e:
                return 0
            r = self.fresh('memcmp', 32)
            self.define(st, z3.If(tobool(e), r == 0, z3.If(tobool(l), r < 0, r > 0)))
            return r
        memo = st.flags.get('memcmp', ())
        for (xa, xo, ya, yo, m, r) in memo:
            if same(m, n):
                if xa is na and ya is nb and same(xo, ao) and same(yo, bo):
                    return r
                if xa is nb and ya is na and same(xo, bo) and same(yo, ao):
                    r2 = self.fresh('memcmp', 32)
                    self.define(st, z3.And((r == 0) == (r2 == 0), (r < 0) == (r2 > 0)))
                    return r2
        if na is nb and same(ao, bo):
            return 0
        d = self.fresh('diffat', 64)
        r = self.fresh('memcmp', 32)
        nz = bv(n, 64)
        av = self.bitz(self.read(st, na, self.oadd(ao, d), 1), 8)
        bb = self.bitz(self.read(st, nb, self.oadd(bo, d), 1), 8)
        self.define(st, z3.And(z3.ULE(d, nz), (r == 0) == (d == nz),
                               z3.Implies(z3.ULT(d, nz), z3.And(av != bb, (r < 0) == z3.ULT(av, bb)))))

        def fact(E, s, j):
            jz = bv(j, 64)
            x = E.bitz(E.read(s, na, simp(E.oadd(ao, jz)), 1), 8)
            y = E.bitz(E.read(s, nb, simp(E.oadd(bo, jz)), 1), 8)
            return z3.Implies(z3.ULT(jz, d), x == y)
        self.add_fact(st, fact)
        self.add_index(st, d)
        st.flags['memcmp'] = memo + ((na, ao, nb, bo, n, r),)
        return r

    def known_nul(self, st, q):
        """a position z >= q.off in bounds known to hold a zero byte, or None"""
        size = self.objs[q.o].size
        for z in reversed(st.nul.get(q.o, ())):
            v = self.bits(self.read(st, st.mem[q.o][0], z, 1), 8)
            c = b_and(self.cmp('eq', v, 0, 8), self.cmp('ule', q.off, z, 64), self.cmp('ult', z, size, 64))
            if self.valid(st, c):
                return z
        return None

    def do_strlen(self, st, q, what, maxn=None):
        """length of the C string at resolved q, or min(length, maxn); None if the path ends"""
        if q.o is None or not self.global_mem(st, q.o) or st.mem[q.o][1]:
            self.obligation(st, False, 'memory', what + ' of a valid string')
            return None
        node = st.mem[q.o][0]
        o = self.objs[q.o]
        off0 = q.off if isint(q.off) else simp(q.off)
        if isint(off0) and isint(o.size):
            i = 0
            ok = True
            while off0 + i < o.size and (not isint(maxn) or i < maxn) and i < 4096:
                v = isz(self.bits(self.read(st, node, off0 + i, 1), 8))
                if not isint(v):
                    ok = False
                    break
                if v == 0:
                    return i if maxn is None else (min(i, maxn) if isint(maxn) else self.ite(self.cmp('ult', i, maxn, 64), i, maxn, 64))
                i += 1
            if ok and isint(maxn) and i == maxn:
                return i
        z = self.known_nul(st, q)
        if z is None:
            if maxn is None:
                if not self.obligation(st, False, 'memory', what + ' finds a terminator in bounds'):
                    return None
            if not self.access(st, q, maxn, what):
                return None
        L = self.fresh('len', 64)
        cs = []
        if z is not None:
            cs.append(z3.ULE(L, bv(z, 64) - bv(off0, 64)))
        if maxn is not None:
            cs.append(z3.ULE(L, bv(maxn, 64)))
        self.define(st, z3.And(*cs))
        end = self.bitz(self.read(st, node, simp(self.oadd(off0, L)), 1), 8)
        self.define(st, end == 0 if maxn is None else z3.Or(L == bv(maxn, 64), end == 0))

        def fact(E, s, j):
            jz = bv(j, 64)
            x = E.bitz(E.read(s, node, simp(E.oadd(off0, jz)), 1), 8)
            return z3.Implies(z3.ULT(jz, L), x != 0)
        self.add_fact(st, fact)
        self.define(st, fact(self, st, 0))
        self.add_index(st, L)
        return L

    def x_strlen(self, st, fr, ins, vals):
        def k(s, f, q):
            L = self.do_strlen(s, q, 'strlen')
            if L is None:
                return False
            self.setret(f, ins, L)
        return self.with_ptr(st, vals[0], k)

    def x_strnlen(self, st, fr, ins, vals):
        def k(s, f, q):
            L = self.do_strlen(s, q, 'strnlen', vals[1])
            if L is None:
                return False
            self.setret(f, ins, L)
        return self.with_ptr(st, vals[0], k)

    def x_strdup(self, st, fr, ins, vals):
        def k(s, f, q):
            L = self.do_strlen(s, q, 'strdup')
            if L is None:
                return False
            n = self.oadd(L, 1)
            nn = Copy(self.fresh_init('strdup'), 0, n, s.mem[q.o][0], q.off)
            if self.do_alloc(s, f, ins, n, nn) is False:
                return False
            s.nul[f.regs[ins.dst].o] = (L,)
        return self.with_ptr(st, vals[0], k)

    def x_strndup(self, st, fr, ins, vals):
        mx = vals[1]

        def k(s, f, q):
            L = 0 if (isint(mx) and mx == 0) else self.do_strlen(s, q, 'strndup', mx)
            if L is None:
                return False
            nn = self.fresh_init('strndup')
            if not (isint(L) and L == 0):
                nn = Copy(nn, 0, L, s.mem[q.o][0], q.off)
            nn = Store(nn, L, 1, 0)
            if self.do_alloc(s, f, ins, self.oadd(L, 1), nn) is False:
                return False
            s.nul[f.regs[ins.dst].o] = (L,)
        return self.with_ptr(st, vals[0], k)

    def x_strcpy(self, st, fr, ins, vals):
        def k(s, f, sq):
            def k2(s2, f2, dq):
                L = self.do_strlen(s2, sq, 'strcpy')
                if L is None:
                    return False
                n = self.oadd(L, 1)
                if not self.access(s2, dq, n, 'strcpy destination', True):
                    return False
                self.bulk(s2, 'copy', dq, n, src=(s2.mem[sq.o][0], sq.off))
                s2.nul[dq.o] = s2.nul.get(dq.o, ()) + (self.oadd(dq.off, L),)
                self.setret(f2, ins, dq)
            return self.with_ptr(s, vals[0], k2)
        return self.with_ptr(st, vals[1], k)

    def x_strcmp(self, st, fr, ins, vals):
        def k(s, f, aq):
            def k2(s2, f2, bq):
                la = self.do_strlen(s2, aq, 'strcmp')
                if la is None:
                    return False
                lb = self.do_strlen(s2, bq, 'strcmp')
                if lb is None:
                    return False
                m = self.ite(self.cmp('ult', la, lb, 64), la, lb, 64)
                n = simp(self.oadd(m, 1))
                self.setret(f2, ins, self.cmp_bytes(s2, s2.mem[aq.o][0], aq.off, s2.mem[bq.o][0], bq.off, n))
            return self.with_ptr(s, vals[1], k2)
        return self.with_ptr(st, vals[0], k)

    # -------------------------------------------------------- the rest
    def x_abort(self, st, fr, ins, vals):
        self.obligation(st, False, 'abort', 'abort is not reached')
        return False

    def x___assert_fail(self, st, fr, ins, vals):
        self.obligation(st, False, 'assert', 'assertion in the code holds')
        return False

    def _ret0(self, st, fr, ins, vals):
        self.setret(fr, ins, 0)

    x_pthread_mutex_init = x_pthread_mutex_destroy = x_pthread_mutex_lock = x_pthread_mutex_unlock = _ret0
    x_pthread_cond_init = x_pthread_cond_destroy = x_pthread_cond_signal = x_pthread_cond_broadcast = _ret0
    x_pthread_mutexattr_init = x_pthread_mutexattr_settype = x_pthread_mutexattr_destroy = _ret0

    # -------------------------------------------------------- specification intrinsics
    def cstring(self, st, p):
        node = st.mem[p.o][0] if p.o in st.mem else self.init_mem[p.o]
        return node.data[p.off:].split(b'\0')[0].decode()

    def occ_name(self, st, p):
        nm_ = self.cstring(st, p)
        k = st.occ.get(nm_, 0)
        st.occ[nm_] = k + 1
        return nm_ if k == 0 else '%s#%d' % (nm_, k)

    def vp_call(self, st, fr, ins, name, vals):
        m = getattr(self, name, None)
        if m is None:
            raise Unsupported('unknown specification intrinsic ' + name)
        return m(st, fr, ins, vals)

    def _vp_int(w, kind):
        def f(self, st, fr, ins, vals):
            nm_ = self.occ_name(st, vals[0])
            x = self.fresh(nm_, w)
            st.inputs = ((nm_, kind, x, w), st.inputs)
            self.setret(fr, ins, x)
        return f
    vp_u8, vp_u16, vp_u32, vp_u64 = _vp_int(8, 'int'), _vp_int(16, 'size'), _vp_int(32, 'size'), _vp_int(64, 'size')

    def vp_bool(self, st, fr, ins, vals):
        nm_ = self.occ_name(st, vals[0])
        self.fresh_n += 1
        b = z3.Bool('%s!%d' % (nm_, self.fresh_n))
        st.inputs = ((nm_, 'int', b, 1), st.inputs)
        self.setret(fr, ins, b)

    def _cond(self, v):
        if isint(v):
            return bool(v)
        if not z3.is_bool(v):
            v = v != 0
        return simp(v)

    def vp_assume(self, st, fr, ins, vals):
        c = self._cond(vals[0])
        if isint(c):
            return None if c else False
        if not self.feasible(st, c):
            return False
        st.pc.append(c)

    def vp_assert(self, st, fr, ins, vals):
        return None if self.obligation(st, self._cond(vals[0]), 'post', self.cstring(st, vals[1])) else False

    def vp_cover(self, st, fr, ins, vals):
        lab = self.cstring(st, vals[0])
        if self.quiet or self.covers.get(lab):
            return
        r = self.sol.check(st.pc, True, 10.0)
        if r == 'unknown':
            r = self.sol.check_hard(st.pc, True, 20.0)
        if r == 'sat':
            self.covers[lab] = True
        else:
            self.covers.setdefault(lab, False if r == 'unsat' else None)

    def vp_obj(self, st, fr, ins, vals):
        size = simp(vals[0])
        nm_ = self.occ_name(st, vals[1])
        init = self.fresh_init(nm_)
        self._mkobj(st, fr, ins, nm_, init, size, size, 'obj')

    def vp_cstr(self, st, fr, ins, vals):
        size = simp(vals[0])
        nm_ = self.occ_name(st, vals[1])
        L = bv(size, 64)

        def ax(E, s, i):
            v = E.initf(init)(i)
            return z3.And(z3.Implies(z3.ULT(i, L), v != 0), z3.Implies(i == L, v == 0))
        init = self.fresh_init(nm_, ax)
        o = self._mkobj(st, fr, ins, nm_, init, size, self.oadd(size, 1), 'cstr')
        st.nul[o.id] = (size,)

    def vp_obj_where(self, st, fr, ins, vals):
        """block of arbitrary content in which every byte satisfies pred(offset, byte)"""
        size = simp(vals[0])
        nm_ = self.occ_name(st, vals[1])
        pred = self.objs[vals[2].o].fn

        def ax(E, s, i):
            return E.eval_pred(s, pred, [i, z3.ZeroExt(56, E.initf(init)(bv(i, 64)))])
        init = self.fresh_init(nm_, ax)
        self._mkobj(st, fr, ins, nm_, init, size, size, 'obj')

    def _mkobj(self, st, fr, ins, nm_, init, n, size, kind):
        size = simp(size)
        if not isint(n):
            st.pc.append(z3.ULT(n, 1 << 43))
            self.assumptions.add('memory blocks are smaller than 2^43 bytes')
        o = self.new_obj(st, size, nm_, 'heap', init)
        st.inputs = ((nm_, kind, (init, n), 0), st.inputs)
        st.live += 1
        self.setret(fr, ins, Ptr(o.id, 0))
        return o

    def vp_snap(self, st, fr, ins, vals):
        """ghost copy of the whole object p points into; returns the corresponding pointer"""
        def k(s, f, q):
            if q.o is None or not self.global_mem(s, q.o):
                self.setret(f, ins, q)
                return None
            o = self.new_obj(s, self.objs[q.o].size, 'snap', 'ghost', s.mem[q.o][0])
            self.setret(f, ins, Ptr(o.id, q.off))
        return self.with_ptr(st, vals[0], k)

    def vp_havoc(self, st, fr, ins, vals):
        n = vals[1]

        def k(s, f, q):
            if not self.access(s, q, n, 'havoc', True):
                return False
            if q.o is not None and q.o in s.mem:
                self.bulk(s, 'havoc', q, n, val=self.fresh_init('havoc'))
        return self.with_ptr(st, vals[0], k)

    def vp_freed(self, st, fr, ins, vals):
        def k(s, f, q):
            self.setret(f, ins, False if q.o is None else bool(not self.global_mem(s, q.o) or s.mem[q.o][1]))
        return self.with_ptr(st, vals[0], k)

    def vp_range(self, st, fr, ins, vals):
        nm_ = self.occ_name(st, vals[0])
        x = self.fresh(nm_, 64)
        st.inputs = ((nm_, 'size', x, 64), st.inputs)
        lo, hi = vals[1], vals[2]
        if self.opt['mode'] == 'bounded' and isint(lo) and isint(hi):
            hi = min(hi, lo + self.opt.get('small', 3))
        c = z3.And(z3.ULE(bv(lo, 64), x), z3.ULE(x, bv(hi, 64)))
        if not self.feasible(st, c):
            return False
        st.pc.append(c)
        self.setret(fr, ins, x)

    def vp_valid(self, st, fr, ins, vals):
        n = vals[1]

        def k(s, f, q):
            if q.o is None or self.objs[q.o].kind == 'func' or not self.global_mem(s, q.o) or s.mem[q.o][1]:
                r = self.cmp('eq', n, 0, 64)
            else:
                sz = self.objs[q.o].size
                if isint(sz) and isint(q.off) and isint(n):
                    r = q.off + n <= sz
                else:
                    z, o = bv(sz, 64), bv(q.off, 64)
                    r = simp(z3.And(z3.ULE(o, z), z3.ULE(bv(n, 64), z - o)))
            self.setret(f, ins, r)
        return self.with_ptr(st, vals[0], k)

    def vp_guard_sync(self, st, fr, ins, vals):
        pass

    def vp_room(self, st, fr, ins, vals):
        """bytes from p to the end of its live block; 0 when there is none"""
        def k(s, f, q):
            if q.o is None or not self.global_mem(s, q.o) or s.mem[q.o][1]:
                r = 0
            else:
                sz = self.objs[q.o].size
                if isint(sz) and isint(q.off):
                    r = max(0, sz - q.off)
                else:
                    r = simp(z3.If(z3.ULE(bv(q.off, 64), bv(sz, 64)), bv(sz, 64) - q.off, z3.BitVecVal(0, 64)))
            self.setret(f, ins, r)
        return self.with_ptr(st, vals[0], k)

    def vp_heap(self, st, fr, ins, vals):
        """p is the start of a live heap block"""
        def k(s, f, q):
            ok = q.o is not None and self.objs[q.o].kind == 'heap' and not s.mem[q.o][1]
            self.setret(f, ins, self.cmp('eq', q.off, 0, 64) if ok else False)
        return self.with_ptr(st, vals[0], k)

    def vp_live(self, st, fr, ins, vals):
        if st.flags.get('live_unknown'):
            raise Unsupported('live block count after a loop that allocates or frees')
        self.setret(fr, ins, st.live & M64)

    def vp_alloc_may_fail(self, st, fr, ins, vals):
        st.flags['mayfail'] = bool(vals[0])

    def vp_alloc_failed(self, st, fr, ins, vals):
        self.setret(fr, ins, bool(st.flags.get('failed_alloc')))

    def _inv(kind):
        def f(self, st, fr, ins, vals):
            st.tmpl = st.tmpl + ((kind, self.objs[vals[0].o].fn),)
        return f
    vp_inv_n, vp_inv_v, vp_inv_nv = _inv('n'), _inv('v'), _inv('nv')

    def vp_inv_clear(self, st, fr, ins, vals):
        st.tmpl = ()

    def vp_witness(self, st, fr, ins, vals):
        st.wits = st.wits + (vals[0],)
        self.add_index(st, vals[0])

    def vp_unroll(self, st, fr, ins, vals):
        st.flags['unroll'] = vals[0] if vals[0] else None

    def vp_bounded(self, st, fr, ins, vals):
        self.setret(fr, ins, self.opt['mode'] == 'bounded')

    def vp_native(self, st, fr, ins, vals):
        self.setret(fr, ins, False)

    def _uf(k):
        def f(self, st, fr, ins, vals):
            nm_ = self.cstring(st, vals[0])
            if nm_ not in self.uf:
                self.uf[nm_] = z3.Function('uf_' + nm_, *([z3.BitVecSort(64)] * (k + 1)))
            args = [bv(simp(self.bitz(v, 64)), 64) for v in vals[1:1 + k]]
            r = self.uf[nm_](*args)
            st.inputs = ((nm_, 'uf', (args, r), 64), st.inputs)
            self.setret(fr, ins, r)
        return f
    vp_uf1, vp_uf2, vp_uf3 = _uf(1), _uf(2), _uf(3)

    def vp_shared(self, st, fr, ins, vals):
        """vp_shared(cell, width, rely): other threads may change the cell as rely(old, new) allows"""
        q = vals[0]
        st.flags['shared'] = st.flags.get('shared', ()) + ((q.o, q.off, vals[1], self.objs[vals[2].o].fn),)

    def vp_shared_clear(self, st, fr, ins, vals):
        st.flags.pop('shared', None)

    def vp_guard(self, st, fr, ins, vals):
        """vp_guard(p, n, lock): the region (n == 0: whole object) may be accessed only while *lock == 1"""
        q = vals[0]
        st.guards = st.guards + ((q.o, q.off, vals[1] or None, vals[2]),)

    def vp_guard_clear(self, st, fr, ins, vals):
        st.guards = ()

    def vp_trace(self, st, fr, ins, vals):
        if self.opt['verbose']:
            print('TRACE', self.cstring(st, vals[0]), vals[1] if isinstance(vals[1], Ptr) else simp(vals[1]), flush=True)

    def vp_note(self, st, fr, ins, vals):
        self.assumptions.add(self.cstring(st, vals[0]))

    def vp_split(self, st, fr, ins, vals):
        """case split on the possible values of a term with at most vals[1] values"""
        v, limit = vals[0], vals[1]
        if not isint(v):
            v = simp(v)
        if isint(v):
            self.setret(fr, ins, v)
            return None
        excl = []
        for _ in range(limit + 1):
            c = b_and(*[v != e for e in excl])
            r = self.sol.check(st.pc, c, 5.0, want_model=True)
            if r == 'unsat':
                break
            if r != 'sat':
                raise Unsupported('case split timeout')
            excl.append(self.sol.model.eval(v, model_completion=True).as_long())
        else:
            raise Unsupported('case split: too many values')
        if not excl:
            return False
        for e in excl[1:]:
            s2 = st.copy()
            s2.pc.append(v == e)
            self.setret(s2.frames[-1], ins, e)
            self.work.append(s2)
        st.pc.append(v == excl[0])
        self.setret(fr, ins, excl[0])
        return None
