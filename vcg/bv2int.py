"""Exact translation of linear bit-vector goals (with uninterpreted functions) to integer arithmetic.

Every bit-vector term of width w becomes an integer in [0, 2^w); a sum is reduced by an integer multiple of 2^w that is
left out when interval analysis shows the sum cannot wrap.  Terms outside the fragment raise NoTrans."""
import z3


class NoTrans(Exception):
    pass


class Tr:
    def __init__(self):
        self.memo = {}
        self.rng = {}
        self.side = []
        self.nq = 0
        self.bounds = {}
        self.keep = []
        self.vars = {}
        self.funcs = {}

    # ---- bounds from top-level facts
    def learn(self, f):
        k = f.decl().kind()
        if k == z3.Z3_OP_AND:
            for c in f.children():
                self.learn(c)
            return
        neg = False
        if k == z3.Z3_OP_NOT:
            neg = True
            f = f.arg(0)
            k = f.decl().kind()
            if k == z3.Z3_OP_OR:
                for c in f.children():
                    self.learn(z3.Not(c))
                return
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = f.children()
            if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                a, b = b, a
                k = z3.Z3_OP_ULEQ if k == z3.Z3_OP_UGEQ else z3.Z3_OP_ULT
            strict = k == z3.Z3_OP_ULT
            if neg:
                a, b, strict = b, a, not strict
            if z3.is_bv_value(b):
                self.bound(a, None, b.as_long() - (1 if strict else 0))
            if z3.is_bv_value(a):
                self.bound(b, a.as_long() + (1 if strict else 0), None)
        elif k == z3.Z3_OP_EQ and not neg and z3.is_bv(f.arg(0)):
            a, b = f.children()
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b):
                # Extract(63, k, x) == 0 bounds x
                if a.decl().kind() == z3.Z3_OP_EXTRACT and b.as_long() == 0:
                    hi, lo = a.params()
                    x = a.arg(0)
                    if hi == x.size() - 1:
                        self.bound(x, None, (1 << lo) - 1)
                else:
                    self.bound(a, b.as_long(), b.as_long())

    def bound(self, t, lo, hi):
        self.keep.append(t)
        l, h = self.bounds.get(t.get_id(), (0, (1 << t.size()) - 1))
        self.bounds[t.get_id()] = (max(l, lo) if lo is not None else l, min(h, hi) if hi is not None else h)
        if t.decl().kind() == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and hi is not None:
            self.bound(t.arg(1), None, min(hi, (1 << t.arg(1).size()) - 1))

    def clip(self, t, lo, hi):
        b = self.bounds.get(t.get_id())
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def fresh(self, lo, hi):
        self.nq += 1
        q = z3.Int('q!%d' % self.nq)
        self.side.append(q >= lo)
        self.side.append(q <= hi)
        return q

    def wrap(self, t, e, lo, hi, w):
        """e with lo <= e <= hi, reduced modulo 2^w"""
        M = 1 << w
        ql, qh = lo // M, hi // M
        if ql == qh:
            e = e if ql == 0 else e - ql * M
            lo, hi = lo - ql * M, hi - ql * M
        else:
            q = self.fresh(ql, qh)
            e = e - M * q
            r = z3.Int('r!%d' % self.nq)
            self.side += [r == e, r >= 0, r < M]
            e = r
            lo, hi = 0, M - 1
        l2, h2 = self.clip(t, lo, hi)
        return e, l2, h2

    def tr(self, t):
        """-> (int expr, lo, hi)"""
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            self.keep.append(t)
            r = self.memo[i] = self.tr1(t)
        return r

    def tr1(self, t):
        w = t.size()
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_long()
            return z3.IntVal(v), v, v
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                v = z3.Int('v_' + t.decl().name())
            else:
                args = [self.tr(a)[0] for a in t.children()]
                f = z3.Function('f_' + t.decl().name(), *([z3.IntSort()] * (len(args) + 1)))
                v = f(*args)
            self.side += [v >= 0, v < (1 << w)]
            lo, hi = self.clip(t, 0, (1 << w) - 1)
            return v, lo, hi
        if k == z3.Z3_OP_BADD:
            e, lo, hi = None, 0, 0
            for c in t.children():
                x, l, h = self.lin(c)
                e = x if e is None else e + x
                lo, hi = lo + l, hi + h
            return self.wrap(t, e, lo, hi, w)
        if k in (z3.Z3_OP_BMUL, z3.Z3_OP_BNEG):
            x, l, h = self.lin(t)
            return self.wrap(t, x, l, h, w)
        if k == z3.Z3_OP_BSUB:
            x, l, h = self.tr(t.arg(0))
            for c in t.children()[1:]:
                y, l2, h2 = self.tr(c)
                x, l, h = x - y, l - h2, h - l2
            return self.wrap(t, x, l, h, w)
        if k == z3.Z3_OP_CONCAT:
            e, lo, hi = None, 0, 0
            for c in t.children():
                x, l, h = self.tr(c)
                s = c.size()
                if z3.is_int_value(x) and e is None and x.as_long() == 0:
                    continue
                e = x if e is None else e * (1 << s) + x
                lo, hi = (lo << s) + l, (hi << s) + h
            if e is None:
                e = z3.IntVal(0)
            lo, hi = self.clip(t, lo, hi)
            return e, lo, hi
        if k == z3.Z3_OP_ZERO_EXT:
            x, l, h = self.tr(t.arg(0))
            l, h = self.clip(t, l, h)
            return x, l, h
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = t.params()
            x, l, h = self.tr(t.arg(0))
            if lo_:
                M = 1 << lo_
                if h < M:
                    return z3.IntVal(0), 0, 0
                q = self.fresh(l // M, h // M)
                self.side += [x - M * q >= 0, x - M * q < M]
                x, l, h = q, l // M, h // M
            return self.wrap(t, x, l, h, w)
        if k == z3.Z3_OP_ITE:
            c = self.form(t.arg(0))
            a, l, h = self.tr(t.arg(1))
            b, l2, h2 = self.tr(t.arg(2))
            return z3.If(c, a, b), min(l, l2), max(h, h2)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            s = t.arg(1).as_long()
            x, l, h = self.tr(t.arg(0))
            return self.wrap(t, x * (1 << s), l << s, h << s, w)
        if k == z3.Z3_OP_SIGN_EXT:
            w0 = t.arg(0).size()
            x, l, h = self.tr(t.arg(0))
            H = 1 << (w0 - 1)
            if h < H:
                return x, l, h
            if l >= H:
                d = (1 << w) - (1 << w0)
                return x + d, l + d, h + d
            return z3.If(x < H, x, x + ((1 << w) - (1 << w0))), 0, (1 << w) - 1
        if k == z3.Z3_OP_BNOT:
            x, l, h = self.tr(t.arg(0))
            M = (1 << w) - 1
            return M - x, M - h, M - l
        raise NoTrans(str(t.decl()))

    def lin(self, t):
        """summand, with negative constant factors kept negative"""
        k = t.decl().kind()
        w = t.size()
        if k == z3.Z3_OP_BMUL and t.num_args() == 2:
            a, b = t.children()
            if z3.is_bv_value(b):
                a, b = b, a
            if z3.is_bv_value(a):
                c = a.as_long()
                if c >> (w - 1):
                    c -= 1 << w
                x, l, h = self.tr(b)
                return c * x, min(c * l, c * h), max(c * l, c * h)
            raise NoTrans('product')
        if k == z3.Z3_OP_BNEG:
            x, l, h = self.tr(t.arg(0))
            return -x, -h, -l
        if z3.is_bv_value(t):
            c = t.as_long()
            if c >> (w - 1):
                c -= 1 << w
            return z3.IntVal(c), c, c
        return self.tr(t)

    def form(self, f):
        i = f.get_id()
        r = self.memo.get(i)
        if r is None:
            self.keep.append(f)
            r = self.memo[i] = self.form1(f)
        return r

    def form1(self, f):
        k = f.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return f
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.form(c) for c in f.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.form(c) for c in f.children()])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.form(f.arg(0)))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(f.arg(0)), self.form(f.arg(1)))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.form(f.arg(0)), self.form(f.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.form(f.arg(0)), self.form(f.arg(1)), self.form(f.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            a, b = f.children()
            if z3.is_bool(a):
                e = self.form(a) == self.form(b)
            elif z3.is_bv(a):
                e = self.tr(a)[0] == self.tr(b)[0]
            else:
                raise NoTrans('sort')
            return e if k == z3.Z3_OP_EQ else z3.Not(e)
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.tr(f.arg(0))[0], self.tr(f.arg(1))[0]
            return {z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_ULT: a < b, z3.Z3_OP_UGEQ: a >= b, z3.Z3_OP_UGT: a > b}[k]
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            H = 1 << (f.arg(0).size() - 1)

            def s(t):
                x, l, h = self.tr(t)
                if h < H:
                    return x
                if l >= H:
                    return x - 2 * H
                return z3.If(x < H, x, x - 2 * H)
            a, b = s(f.arg(0)), s(f.arg(1))
            return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k]
        if k == z3.Z3_OP_UNINTERPRETED and f.num_args() == 0:
            return f
        raise NoTrans(str(f.decl()))


def translate(goal):
    goal = [z3.simplify(g, elim_and=False) for g in goal]
    t = Tr()
    for _ in range(2):
        for g in goal:
            t.learn(g)
    out = [t.form(g) for g in goal]
    return out + t.side
