"""Verification-condition generator: symbolic execution of LLVM IR with contracts and loop invariants, discharged by Z3/cvc5."""
import os, time
import z3
from core import *
from mem import MemMixin
from loops import LoopMixin
from libc import LibMixin
from ir import PTR, VOID


class Engine(MemMixin, LoopMixin, LibMixin):
    def __init__(self, modules, repo_prefix='/repo/', opt=None):
        self.opt = dict(t_inc=3.0, t_hard=30.0, bound=6, mode='proof', max_states=400000, deadline=None, hdr_unroll=300,
                        t_feas=2.0, verbose=0, recursion=3, max_fail=4)
        self.opt.update(opt or {})
        self.mods = modules
        self.repo = repo_prefix
        self.gdef = {}
        self.stubs = {}
        self.recs = {}         # contracts used for calls of a function that is already active (induction hypothesis)
        for m in modules:
            for n, f in m.funcs.items():
                if not f.internal and n not in self.gdef:
                    self.gdef[n] = f
                if n.startswith('vp_stub__'):
                    self.stubs[n[9:]] = f
                if n.startswith('vp_rec__'):
                    self.recs[n[8:]] = f
        self.objs = {}
        self.nobj = 0
        self.gobj = {}
        self.fobj = {}
        self.fresh_n = 0
        self.init_mem = {}
        self.sol = Solver(self.opt)
        self.work = []
        self.quiet = 0
        self.specfalse = False
        self.spec_dead = []
        self.obl = {}          # (kind, loc, label) -> [proved, failed, unknown]
        self.failures = []
        self.covers = {}
        self.assumptions = set()
        self.externals = set()
        self.used_funcs = {}
        self.used_stubs = set()
        self.bound_hit = False
        self.loop_notes = {}
        self.nstates = 0
        self.npaths = 0
        self.steps = 0
        self.origin_cache = {}
        self.backends = {'folded': 0, 'z3_inc': 0, 'z3_int': 0, 'z3_fresh': 0, 'cvc5': 0}
        self.uf = {}
        self.defids = set()
        self.keepalive = []

    def origin(self, fn):
        """'repo' or 'spec'"""
        k = id(fn)
        if k not in self.origin_cache:
            f = fn.mod.file_of(fn.dbg) if fn.dbg is not None else None
            self.origin_cache[k] = 'repo' if (f and os.path.realpath(f).startswith(self.repo)) else 'spec'
        return self.origin_cache[k]

    # -------------------------------------------------------- solver front
    def define(self, st, c):
        """conservative extension: axiom or definition of a fresh symbol"""
        self.defids.add(c.get_id())
        self.keepalive.append(c)
        st.pc.append(c)

    def feasible(self, st, c):
        if isint(c):
            return bool(c)
        return self.sol.check(st.pc, c, self.opt['t_feas']) != 'unsat'

    def valid(self, st, c, timeout=None):
        if isint(c):
            return bool(c)
        return self.sol.check(st.pc, z3.Not(c), timeout or self.opt['t_feas']) == 'unsat'

    def valid_hard(self, st, c):
        if isint(c):
            return bool(c)
        neg = z3.Not(c)
        r = self.sol.check(st.pc, neg, self.opt['t_inc'])
        if r == 'unknown':
            r = self.sol.check_hard(st.pc, neg, self.opt['t_hard'])
        return r == 'unsat'

    def locstr(self, st):
        if not st.frames:
            return '?'
        f = st.frames[-1]
        blk = f.fn.blocks[f.blk]
        ins = blk[max(0, min(f.idx, len(blk)) - 1)]
        l = f.fn.mod.loc(ins.dbg)
        if l and l[0]:
            return '%s:%d %s' % (os.path.basename(l[0]), l[1], f.fn.name)
        return f.fn.name

    def stack(self, st):
        out = []
        for f in reversed(st.frames):
            blk = f.fn.blocks[f.blk]
            ins = blk[max(0, min(f.idx, len(blk)) - 1)]
            l = f.fn.mod.loc(ins.dbg)
            out.append('%s%s' % (f.fn.name, ' (%s:%d)' % (os.path.basename(l[0] or '?'), l[1]) if l else ''))
        return out

    def obligation(self, st, cond, kind, label=''):
        """prove cond in st and assume it afterwards; False if the path is dead afterwards"""
        if self.quiet and self.specfalse:
            # evaluating a specification predicate: an unsafe access makes the predicate false
            if isint(cond):
                if not cond:
                    st.flags['specfalse'] = True
                    self.spec_dead.append(st)
                return bool(cond)
            if not self.valid(st, cond):
                s2 = st.copy()
                s2.pc.append(z3.Not(cond))
                self.spec_dead.append(s2)
                if not self.feasible(st, cond):
                    return False
                st.pc.append(cond)
            return True
        if self.quiet:
            if isint(cond):
                return bool(cond)
            st.pc.append(cond)
            return True
        key = (kind, self.locstr(st), label)
        ent = self.obl.setdefault(key, [0, 0, 0])
        if isint(cond) and cond:
            ent[0] += 1
            self.backends['folded'] += 1
            return True
        neg = b_not(cond)
        r = self.sol.check(st.pc, neg, self.opt['t_inc'], want_model=True)
        model = self.sol.model
        if r == 'unknown':
            r = self.sol.check_hard(st.pc, neg, self.opt['t_hard'])
            model = self.sol.model
        if r == 'unsat':
            ent[0] += 1
            self.backends[self.sol.backend] += 1
            if isint(cond):
                return False          # path infeasible
            st.pc.append(cond)
            return True
        ent[1 if r == 'sat' else 2] += 1
        inp = self.small_model(st, neg, model) if r == 'sat' else None
        fl = Failure(label or kind, kind, key[1], r, inp, str(cond)[:1500], self.opt['mode'] != 'proof', self.stack(st))
        fl.cut = bool(st.nl or st.flags.get('cut') or any(not L.trial for L in st.loops))
        self.failures.append(fl)
        if self.opt['verbose']:
            print('FAIL', kind, label, key[1], r, fl.trace, flush=True)
        if self.opt['verbose'] > 1:
            print('   ', fl.detail, inp, flush=True)
        if len(self.failures) >= self.opt['max_fail']:
            raise StopFirst()
        if isint(cond) or not self.feasible(st, cond):
            return False
        st.pc.append(cond)
        return True

    def small_model(self, st, neg, model):
        """prefer small values of the size-like inputs"""
        ins = lst(st.inputs)
        for lim in (4, 16, 64, 1024):
            cs = [tobool(neg)]
            for (nm_, kind, t, w) in ins:
                if kind == 'size' and not isint(t) and z3.is_bv(t):
                    cs.append(z3.ULE(t, lim))
            if len(cs) > 1 and self.sol.check(st.pc, z3.And(*cs), 3.0, want_model=True) == 'sat':
                model = self.sol.model
                break
        return self.extract(st, model)

    def extract(self, st, model):
        if model is None:
            return None
        out = []

        def ev(t):
            if isint(t):
                return int(t)
            v = model.eval(t, model_completion=True)
            if z3.is_bv_value(v):
                return v.as_long()
            return 1 if z3.is_true(v) else 0
        for (nm_, kind, t, w) in lst(st.inputs):
            if kind in ('int', 'size'):
                out.append([nm_, 'int', ev(t)])
            elif kind in ('obj', 'cstr'):
                init, size = t
                n = ev(size)
                data = []
                if init.f is not None:
                    for i in range(min(n, 1 << 13)):
                        x = ev(init.f(z3.BitVecVal(i, 64)))
                        data.append(97 if kind == 'cstr' and x == 0 else x)
                elif kind == 'cstr':
                    data = [97] * min(n, 1 << 13)
                out.append([nm_, 'obj', n, bytes(data).hex()])
            elif kind == 'uf':
                args, val = t
                out.append([nm_, 'uf', [ev(a) for a in args], ev(val)])
            elif kind == 'mfail':
                out.append([nm_, 'mfail', t])
        return out

    # -------------------------------------------------------- execution
    def val(self, st, t, v):
        if v[0] == 'r':
            return st.frames[-1].regs[v[1]]
        return self.const(st.frames[-1].fn.mod, t, v)

    def explore(self, sts):
        """run states to completion; returns the finished ones (frame stack empty)"""
        saved = self.work
        self.work = list(sts)
        done = []
        try:
            while self.work:
                st = self.work.pop()
                self.nstates += 1
                if self.nstates > self.opt['max_states']:
                    raise Budget('too many states')
                r = self.run_state(st)
                if r is not None:
                    done.append(r)
        finally:
            self.work = saved
        return done

    def call_fn(self, st, fn, args, ret=None):
        fn.parse()
        if not self.specfalse:
            self.used_funcs[fn.name] = self.origin(fn)
        f = Frame(fn)
        for (t, pn), a in zip(fn.params, args):
            f.regs[pn] = a
        f.ret = ret
        st.frames.append(f)

    def run_state(self, st):
        while True:
            self.steps += 1
            if self.steps % 64 == 0 and self.opt['deadline'] and time.time() > self.opt['deadline']:
                raise Budget('time limit')
            if not st.frames:
                self.npaths += 1
                return st
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.idx]
            fr.idx += 1
            if getattr(self, 'i_' + ins.op)(st, fr, ins) is False:
                return None

    def i_nop(self, st, fr, ins):
        pass

    def i_copy(self, st, fr, ins):
        fr.regs[ins.dst] = self.val(st, ins.a[0], ins.a[1])

    def i_asm(self, st, fr, ins):
        raise Unsupported('inline asm ' + ins.text)

    def i_unreachable(self, st, fr, ins):
        self.obligation(st, False, 'unreachable', 'unreachable code is not reached')
        return False

    def i_alloca(self, st, fr, ins):
        t, n = ins.a
        size = fr.fn.mod.size(t)
        if n is not None:
            c = self.val(st, n[0], n[1])
            if isint(c):
                size = size * c
            else:
                c64 = z3.ZeroExt(64 - n[0][1], c) if n[0][1] < 64 else c
                size = simp(c64 * size if size != 1 else c64)
                if not isint(size) and not self.valid(st, z3.ULT(size, 1 << 43)):
                    st.pc.append(z3.ULT(size, 1 << 43))
                    self.assumptions.add('stack allocations succeed')
        o = self.new_obj(st, size, fr.fn.name + ins.dst, 'stack')
        fr.allocas = fr.allocas + (o.id,)
        fr.regs[ins.dst] = Ptr(o.id, 0)

    def i_br(self, st, fr, ins):
        return self.goto(st, ins.a[0])

    def trial_check(self, st, fr, targets):
        for L in st.loops:
            if L.trial and L.depth == len(st.frames) and fr.blk in L.blocks:
                if len({t in L.blocks for t in targets}) > 1:
                    raise AbortTrial(L)

    def i_cbr(self, st, fr, ins):
        c = self.val(st, ('i', 1), ins.a[0])
        if not isint(c):
            c = simp(c)
        if isint(c):
            return self.goto(st, ins.a[1] if c else ins.a[2])
        if ins.a[1] == ins.a[2]:
            return self.goto(st, ins.a[1])
        nc = b_not(c)
        t = self.feasible(st, c)
        f = self.feasible(st, nc)
        if not t and not f:
            return False
        if t and f:
            self.trial_check(st, fr, ins.a[1:3])
            s2 = st.copy()
            s2.pc.append(nc)
            if self.goto(s2, ins.a[2]) is not False:
                self.work.append(s2)
            st.pc.append(c)
            return self.goto(st, ins.a[1])
        return self.goto(st, ins.a[1] if t else ins.a[2])

    def i_switch(self, st, fr, ins):
        t, v, dflt, cases = ins.a
        x = self.val(st, t, v)
        if not isint(x):
            x = simp(x)
        m = mask(t[1])
        if isint(x):
            for cv, b in cases:
                if (cv & m) == x:
                    return self.goto(st, b)
            return self.goto(st, dflt)
        by = {}
        for cv, b in cases:
            by.setdefault(b, []).append(cv & m)
        by.pop(dflt, None)
        alts = [(b_or(*[x == c for c in cvs]), b) for b, cvs in by.items()]
        alts.append((b_and(*[b_not(c) for c, _ in alts]), dflt))
        feas = [(c, b) for c, b in alts if self.feasible(st, c)]
        if not feas:
            return False
        if len(feas) > 1:
            self.trial_check(st, fr, [b for _, b in feas])
        for c, b in feas[1:]:
            s2 = st.copy()
            s2.pc.append(c)
            if self.goto(s2, b) is not False:
                self.work.append(s2)
        if len(feas) > 1:
            st.pc.append(feas[0][0])
        return self.goto(st, feas[0][1])

    def goto(self, st, blk):
        self.enter_block(st, blk)
        return self.arrive(st)

    def enter_block(self, st, blk):
        fr = st.frames[-1]
        prev = fr.blk
        insts = fr.fn.blocks[blk]
        news = []
        i = 0
        while insts[i].op == 'phi':
            ins = insts[i]
            for v, b in ins.a[1]:
                if b == prev:
                    news.append((ins.dst, self.val(st, ins.a[0], v)))
                    break
            i += 1
        for d, v in news:
            fr.regs[d] = v
        fr.prev, fr.blk, fr.idx = prev, blk, i

    def i_ret(self, st, fr, ins):
        v = None if ins.a[1] is None else self.val(st, ins.a[0], ins.a[1])
        depth = len(st.frames)
        cut = []
        while st.loops and st.loops[-1].depth == depth:
            cut.append(st.loops[-1])
            st.loops = st.loops[:-1]
        st.frames.pop()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        st.retval = v
        if st.frames and fr.ret is not None and v is not None:
            st.frames[-1].regs[fr.ret] = v
        if cut:
            # a return out of the loops: an exit of the innermost one, passed on to the outer ones
            st.loops = st.loops + tuple(reversed(cut[1:]))
            if cut[1:]:
                st.flags['_ret_through'] = len(cut) - 1
            st.flags['_returned'] = 1
            cut[0].exits.append(st)
            return False
        return None

    # -------------------------------------------------------- arithmetic
    def i_bin(self, st, fr, ins):
        op, t, a, b = ins.a
        if t[0] == 'v':
            raise Unsupported('vector operation')
        w = t[1]
        A, B = self.val(st, t, a), self.val(st, t, b)
        if t[0] == 'f':
            fr.regs[ins.dst] = self.fbin(op, A, B, w)
            return
        if w == 1:
            fr.regs[ins.dst] = self.boolop(op, A, B)
            return
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            c = simp(B != 0) if not isint(B) else B != 0
            if not self.obligation(st, c, 'arith', 'divisor is not zero'):
                return False
        fr.regs[ins.dst] = self.arith(st, op, A, B, w)

    def boolop(self, op, A, B):
        if op == 'and':
            return b_and(A, B)
        if op == 'or':
            return b_or(A, B)
        if op in ('xor', 'add', 'sub'):
            if isint(A) and isint(B):
                return bool(A) != bool(B)
            if isint(A):
                return b_not(B) if A else B
            if isint(B):
                return b_not(A) if B else A
            return z3.Xor(A, B)
        raise Unsupported('i1 ' + op)

    def arith(self, st, op, A, B, w):
        m = mask(w)
        if isint(A) and isint(B):
            if op == 'add': return (A + B) & m
            if op == 'sub': return (A - B) & m
            if op == 'mul': return (A * B) & m
            if op == 'and': return A & B
            if op == 'or': return A | B
            if op == 'xor': return A ^ B
            if op == 'shl': return (A << B) & m if B < w else 0
            if op == 'lshr': return A >> B if B < w else 0
            if op == 'ashr': return (sgn(A, w) >> min(B, w - 1)) & m
            if op == 'udiv': return A // B
            if op == 'urem': return A % B
            sa, sb = sgn(A, w), sgn(B, w)
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            if op == 'sdiv': return q & m
            if op == 'srem': return (sa - q * sb) & m
        if isint(B):
            if B == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return A
            if B == 1 and op in ('mul', 'udiv'):
                return A
            if B == 0 and op in ('mul', 'and'):
                return 0
            if B == m and op == 'and':
                return A
        if isint(A):
            if A == 0 and op in ('add', 'or', 'xor'):
                return B
            if A == 0 and op in ('mul', 'and', 'shl', 'lshr', 'udiv', 'urem'):
                return 0
            if A == 1 and op == 'mul':
                return B
        if op in ('mul', 'urem') and not isint(A) and not isint(B) and self.opt['mode'] == 'proof' and w in (32, 64):
            r = self.nonlinear(st, op, A, B, w)
            if r is not None:
                return r
        if op in ('udiv', 'urem') and isint(B) and B & (B - 1) and w in (32, 64) and self.opt['mode'] == 'proof':
            return self.divconst(st, op, A, B, w)
        a, b = bv(A, w), bv(B, w)
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return a << b
        if op == 'lshr': return z3.LShR(a, b)
        if op == 'ashr': return a >> b
        if op == 'udiv': return z3.UDiv(a, b)
        if op == 'urem': return z3.URem(a, b)
        if op == 'sdiv': return a / b
        if op == 'srem': return z3.SRem(a, b)
        raise Unsupported(op)

    def divconst(self, st, op, A, c, w):
        """quotient and remainder by a constant, by their definition"""
        A = simp(A)
        if isint(A):
            return A // c if op == 'udiv' else A % c
        for (o2, x, y, r, w2) in st.nl0:
            if w2 == w and y == c and x.eq(A):
                return r[0] if op == 'udiv' else r[1]
        q, m = self.fresh('quo', w), self.fresh('rem', w)
        self.define(st, z3.And(z3.ULE(q, mask(w) // c), z3.ULT(m, c), A == q * c + m, z3.ULE(q * c, A)))
        st.nl0 = st.nl0 + (('div', A, c, (q, m), w),)
        return q if op == 'udiv' else m

    def pow2_bound(self, st, x):
        for e in range(4, 33, 2):
            if self.valid(st, z3.ULE(x, 1 << e)):
                return e
        return 33

    def nonlinear(self, st, op, A, B, w):
        """products and remainders of two symbolic values: fresh result constrained by theorems about the operation"""
        A, B = simp(A), simp(B)
        if isint(A) or isint(B):
            return self.arith(st, op, A, B, w)
        self.sol.has_nl = True
        for (o2, x, y, r, w2) in st.nl:
            if o2 == op and w2 == w and ((x.eq(A) and y.eq(B)) or (op == 'mul' and x.eq(B) and y.eq(A))):
                return r
        if op == 'urem':
            lim = z3.And(z3.ULT(B, 1 << (w - 1)), B != 0)
            if not self.valid(st, lim):
                return None
            m = self.fresh('rem', w)
            fs = [z3.ULT(m, B), z3.ULE(m, A), z3.Implies(z3.ULT(A, B), m == A),
                  z3.Implies(z3.And(z3.UGE(A, B), z3.ULT(A - B, B)), m == A - B)]
            for (o2, x, y, r, w2) in st.nl:
                if o2 == 'urem' and w2 == w and y.eq(B):
                    for (p, mp, q, mq) in ((x, r, A, m), (A, m, x, r)):
                        d = q - p
                        fs.append(z3.Implies(z3.And(z3.ULE(p, q), z3.ULT(d, B)),
                                             z3.If(z3.ULT(mp + d, B), mq == mp + d, mq == mp + d - B)))
                        fs.append(z3.Implies(z3.And(z3.ULE(p, q), d == B), mq == mp))
            self.define(st, z3.Implies(lim, z3.And(*fs)))
            st.nl = st.nl + (('urem', A, B, m, w),)
            return m
        if w == 32:
            A64, B64 = simp(z3.ZeroExt(32, A)), simp(z3.ZeroExt(32, B))
        else:
            A64, B64 = A, B
        # below these limits the 64-bit product is exact and all the sums in the lemmas are too
        lim = z3.And(z3.ULT(A64, 1 << 32), z3.ULT(B64, 1 << 32), z3.Or(z3.ULT(A64, 1 << 30), z3.ULT(B64, 1 << 30)))
        if not self.valid(st, lim):
            return None
        P = None
        for (o2, x, y, r, w2) in st.nl:
            if o2 == 'mul64' and ((x.eq(A64) and y.eq(B64)) or (x.eq(B64) and y.eq(A64))):
                P = r
        if P is None:
            P = self.fresh('prod', 64)
            fs = [z3.ULT(P, 1 << 62), z3.Implies(A64 == 0, P == 0), z3.Implies(B64 == 0, P == 0),
                  z3.Implies(A64 == 1, P == B64), z3.Implies(B64 == 1, P == A64),
                  z3.Implies(z3.And(A64 != 0, B64 != 0), z3.And(z3.UGE(P, A64), z3.UGE(P, B64)))]
            ea, eb = self.pow2_bound(st, A64), self.pow2_bound(st, B64)
            fs.append(z3.Implies(z3.And(z3.ULE(A64, 1 << ea), z3.ULE(B64, 1 << eb)), z3.ULE(P, 1 << (ea + eb))))
            prods = [(x, y, r, l2) for (o2, x, y, r, l2) in st.nl if o2 == 'mul64']
            for (x, y, r, l2) in prods:
                for (a, e) in ((A64, B64), (B64, A64)):
                    for (c, e2) in ((x, y), (y, x)):
                        if not e2.eq(e):
                            continue
                        g = [z3.Implies(a == c, P == r), z3.Implies(z3.ULT(a, c), z3.ULE(P + e, r)),
                             z3.Implies(z3.ULT(c, a), z3.ULE(r + e, P)), z3.Implies(a == c + 1, P == r + e),
                             z3.Implies(c == a + 1, r == P + e), z3.Implies(a == c + c, P == r + r),
                             z3.Implies(c == a + a, r == P + P)]
                        for (x3, y3, r3, l3) in prods:
                            for (d, e3) in ((x3, y3), (y3, x3)):
                                if e3.eq(e):
                                    g.append(z3.Implies(l3, z3.And(z3.Implies(a + c == d, P + r == r3), z3.Implies(c + d == a, r + r3 == P))))
                        fs.append(z3.Implies(l2, z3.And(*g)))
            self.define(st, z3.Implies(lim, z3.And(*fs)))
            st.nl = st.nl + (('mul64', A64, B64, P, lim),)
        R = P if w == 64 else z3.Extract(31, 0, P)
        st.nl = st.nl + (('mul', A, B, R, w),)
        return R

    FS = {32: z3.Float32(), 64: z3.Float64()}

    def fp(self, v, w):
        return z3.fpBVToFP(bv(v, w), self.FS[w])

    def fbits(self, e):
        return simp(z3.fpToIEEEBV(e))

    def fbin(self, op, A, B, w):
        a, b = self.fp(A, w), self.fp(B, w)
        rm = z3.RNE()
        f = {'fadd': lambda: z3.fpAdd(rm, a, b), 'fsub': lambda: z3.fpSub(rm, a, b), 'fmul': lambda: z3.fpMul(rm, a, b),
             'fdiv': lambda: z3.fpDiv(rm, a, b)}
        if op not in f:
            raise Unsupported(op)
        return self.fbits(f[op]())

    def i_fneg(self, st, fr, ins):
        t, v = ins.a
        fr.regs[ins.dst] = self.arith(st, 'xor', self.val(st, t, v), 1 << (t[1] - 1), t[1])

    def i_fcmp(self, st, fr, ins):
        pred, t, a, b = ins.a
        w = t[1]
        x, y = self.fp(self.val(st, t, a), w), self.fp(self.val(st, t, b), w)
        nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        o = {'eq': z3.fpEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y),
             'ne': z3.And(z3.Not(nan), z3.Not(z3.fpEQ(x, y)))}
        if pred == 'ord':
            r = z3.Not(nan)
        elif pred == 'uno':
            r = nan
        elif pred[0] == 'o':
            r = o[pred[1:]]
        elif pred[0] == 'u':
            r = z3.Or(nan, o[pred[1:]])
        else:
            r = z3.BoolVal(pred == 'true')
        fr.regs[ins.dst] = simp(r)

    def cmp(self, pred, A, B, w):
        if isint(A) and isint(B):
            sa, sb = sgn(A, w), sgn(B, w)
            A &= mask(w)
            B &= mask(w)
            return {'eq': A == B, 'ne': A != B, 'ult': A < B, 'ule': A <= B, 'ugt': A > B, 'uge': A >= B,
                    'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        a, b = bv(A, w), bv(B, w)
        if a.eq(b):
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()

    def i_icmp(self, st, fr, ins):
        pred, t, a, b = ins.a
        A, B = self.val(st, t, a), self.val(st, t, b)
        if t[0] == 'ptr':
            fr.regs[ins.dst] = self.pcmp(pred, A, B)
            return
        w = t[1]
        if w == 1:
            if pred == 'eq':
                fr.regs[ins.dst] = b_not(self.boolop('xor', A, B))
            elif pred == 'ne':
                fr.regs[ins.dst] = self.boolop('xor', A, B)
            else:
                fr.regs[ins.dst] = self.cmp(pred, self.bits(A, 1), self.bits(B, 1), 1)
            return
        fr.regs[ins.dst] = self.cmp(pred, A, B, w)

    def pcmp(self, pred, A, B):
        if pred in ('eq', 'ne'):
            if A.o is not None and A.o == B.o:
                r = self.cmp('eq', A.off, B.off, 64)
            elif A.o is not None and (B.o is not None or isint(B.off)):
                r = False
            elif B.o is not None and isint(A.off):
                r = False
            else:
                r = self.cmp('eq', self.addr(A), self.addr(B), 64)
            return r if pred == 'eq' else b_not(r)
        return self.cmp(pred, self.addr(A), self.addr(B), 64)

    def i_cast(self, st, fr, ins):
        op, t, v, dt = ins.a
        fr.regs[ins.dst] = self.cast(op, t, self.val(st, t, v), dt)

    def cast(self, op, t, x, dt):
        if op in ('bitcast', 'addrspacecast'):
            return x
        if op == 'ptrtoint':
            a = self.addr(x)
            return a if dt[1] == 64 else self.cast('trunc', ('i', 64), a, dt)
        if op == 'inttoptr':
            if t[1] < 64:
                x = self.cast('zext', t, x, ('i', 64))
            return self.to_ptr(simp(x))
        if op in ('zext', 'sext', 'trunc'):
            w, dw = t[1], dt[1]
            if w == 1:
                one = 1 if op == 'zext' else mask(dw)
                if isint(x):
                    return one if x else 0
                return z3.If(x, z3.BitVecVal(one, dw), z3.BitVecVal(0, dw))
            if op == 'trunc':
                if dw == 1:
                    return bool(x & 1) if isint(x) else simp(z3.Extract(0, 0, x) == 1)
                return x & mask(dw) if isint(x) else z3.Extract(dw - 1, 0, x)
            if isint(x):
                return x if op == 'zext' else sgn(x, w) & mask(dw)
            return z3.ZeroExt(dw - w, x) if op == 'zext' else z3.SignExt(dw - w, x)
        rm = z3.RNE()
        if op in ('fpext', 'fptrunc'):
            return self.fbits(z3.fpFPToFP(rm, self.fp(x, t[1]), self.FS[dt[1]]))
        if op in ('sitofp', 'uitofp'):
            y = self.bitz(x, t[1])
            return self.fbits(z3.fpSignedToFP(rm, y, self.FS[dt[1]]) if op == 'sitofp' else z3.fpUnsignedToFP(rm, y, self.FS[dt[1]]))
        if op in ('fptosi', 'fptoui'):
            f = self.fp(x, t[1])
            s = z3.BitVecSort(dt[1])
            return simp(z3.fpToSBV(z3.RTZ(), f, s) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), f, s))
        raise Unsupported('cast ' + op)

    def i_select(self, st, fr, ins):
        t, c, a, b = ins.a
        C = self.val(st, ('i', 1), c)
        A, B = self.val(st, t, a), self.val(st, t, b)
        if not isint(C):
            C = simp(C)
        if isint(C):
            fr.regs[ins.dst] = A if C else B
            return
        rt = fr.fn.mod.rt(t)
        if rt[0] in ('ptr', 's', 'a'):
            if rt[0] == 'ptr' and (A.o is not None and A.o == B.o or same(self.addr(A), self.addr(B))):
                fr.regs[ins.dst] = self.ite(C, A, B, 64)
                return
            tt, ff = self.feasible(st, C), self.feasible(st, b_not(C))
            if tt and ff:
                s2 = st.copy()
                s2.pc.append(b_not(C))
                s2.frames[-1].regs[ins.dst] = B
                self.work.append(s2)
                st.pc.append(C)
            fr.regs[ins.dst] = A if tt else B
            return
        if rt[0] == 'i' and rt[1] == 1:
            fr.regs[ins.dst] = simp(b_or(b_and(C, A), b_and(b_not(C), B)))
            return
        fr.regs[ins.dst] = self.ite(C, A, B, rt[1])

    def i_gep(self, st, fr, ins):
        bt, base, idx = ins.a
        fr.regs[ins.dst] = self.gep(fr.fn.mod, bt, self.val(st, PTR, base), [(t, self.val(st, t, v)) for t, v in idx])

    def i_extractvalue(self, st, fr, ins):
        t, v, ix = ins.a
        x = self.val(st, t, v)
        for i in ix:
            x = x[i]
        fr.regs[ins.dst] = x

    def i_insertvalue(self, st, fr, ins):
        t, v, et, ev, ix = ins.a

        def upd(x, ix, y):
            if not ix:
                return y
            x = list(x)
            x[ix[0]] = upd(x[ix[0]], ix[1:], y)
            return x
        fr.regs[ins.dst] = upd(self.val(st, t, v), list(ix), self.val(st, et, ev))

    # -------------------------------------------------------- memory instructions
    def env_step(self, st, q, n):
        """rely step: before an access of the code under proof to a shared cell the environment may change it"""
        if self.origin(st.frames[-1].fn) != 'repo':
            return
        for (oid, off, w, fn) in st.flags['shared']:
            if q.o == oid and isint(q.off) and q.off < off + w and off < q.off + n:
                old = self.bitz(self.read(st, st.mem[oid][0], off, w), 8 * w)
                new = self.fresh('env', 8 * w)
                st.inputs = (('env', 'int', new, 8 * w), st.inputs)
                e = self.eval_pred(st, fn, [old, new])
                if not isint(e):
                    st.pc.append(e)
                self.write(st, oid, off, w, new)

    def i_load(self, st, fr, ins):
        t, pv, atomic = ins.a

        def k(s, f, q):
            n = f.fn.mod.size(t)
            if not self.access(s, q, n, 'read'):
                return False
            if s.flags.get('shared'):
                self.env_step(s, q, n)
            f.regs[ins.dst] = self.load(s, q, t, f.fn.mod)
        return self.with_ptr(st, self.val(st, PTR, pv), k)

    def i_store(self, st, fr, ins):
        t, v, pv, atomic = ins.a

        def k(s, f, q):
            n = f.fn.mod.size(t)
            if not self.access(s, q, n, 'write', True):
                return False
            if s.flags.get('shared'):
                self.env_step(s, q, n)
            self.store_val(s, q, t, self.val(s, t, v), f.fn.mod)
        return self.with_ptr(st, self.val(st, PTR, pv), k)

    def i_atomicrmw(self, st, fr, ins):
        op, pv, t, v = ins.a

        def k(s, f, q):
            n = f.fn.mod.size(t)
            if not self.access(s, q, n, 'atomic update', True):
                return False
            if s.flags.get('shared'):
                self.env_step(s, q, n)
            old = self.load(s, q, t, f.fn.mod)
            x = self.val(s, t, v)
            if op == 'xchg':
                new = x
            elif op in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.arith(s, op, old, x, t[1])
            else:
                raise Unsupported('atomicrmw ' + op)
            self.store_val(s, q, t, new, f.fn.mod)
            f.regs[ins.dst] = old
        return self.with_ptr(st, self.val(st, PTR, pv), k)

    def i_cmpxchg(self, st, fr, ins):
        pv, t, c, v = ins.a

        def k(s, f, q):
            n = f.fn.mod.size(t)
            if not self.access(s, q, n, 'atomic update', True):
                return False
            if s.flags.get('shared'):
                self.env_step(s, q, n)
            old = self.load(s, q, t, f.fn.mod)
            C, V = self.val(s, t, c), self.val(s, t, v)
            eq = self.pcmp('eq', old, C) if t[0] == 'ptr' else self.cmp('eq', old, C, t[1])
            new = self.ite(eq, V, old, 64 if t[0] == 'ptr' else t[1])
            self.store_val(s, q, t, new, f.fn.mod)
            f.regs[ins.dst] = [old, eq]
        return self.with_ptr(st, self.val(st, PTR, pv), k)

    # -------------------------------------------------------- calls
    def i_call(self, st, fr, ins):
        rt, callee, args = ins.a
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('llvm.'):
                return self.intrinsic(st, fr, ins, name, args)
            vals = [self.val(st, t, v) for t, v in args]
            return self.dispatch(st, fr, ins, name, fr.fn.mod.funcs.get(name) or self.gdef.get(name), vals, args)
        p = self.val(st, PTR, callee)
        vals = [self.val(st, t, v) for t, v in args]

        def k(s, f, q):
            if q.o is None or self.objs[q.o].kind != 'func':
                self.obligation(s, False, 'memory', 'call through an invalid function pointer')
                return False
            fn = self.objs[q.o].fn
            nm_ = fn if isinstance(fn, str) else fn.name
            return self.dispatch(s, f, ins, nm_, None if isinstance(fn, str) else fn, vals, args)
        return self.with_ptr(st, p, k)

    def dispatch(self, st, fr, ins, name, fn, vals, args):
        if fn is None and name.startswith('vp_static__'):
            fs = [f for m in self.mods for n, f in m.funcs.items() if n == name[11:] and self.origin(f) == 'repo']
            if not fs or len(fs[0].params) != len(vals):
                raise Unsupported('no function ' + name[11:])
            self.call_fn(st, fs[0], vals, ins.dst)
            return None
        if fn is None and name.startswith('vp_'):
            return self.vp_call(st, fr, ins, name, vals)
        stub = self.stubs.get(name)
        if stub is None and name in self.recs and self.opt['mode'] != 'bounded' and any(f.fn is fn for f in st.frames):
            stub = self.recs[name]
        if stub is not None and (self.origin(fr.fn) == 'repo' or fn is None):
            self.used_stubs.add(name)
            if stub.vararg:
                raise Unsupported('variadic stub ' + name)
            if fn is not None and len(fn.params) != len(stub.params):
                raise Unsupported('the contract of %s has another signature' % name)
            self.call_fn(st, stub, vals[:len(stub.params)], ins.dst)
            return None
        if fn is not None and not (name in self.MODELLED):
            n = sum(1 for f in st.frames if f.fn is fn)
            if n > self.opt['recursion']:
                if self.opt['mode'] == 'bounded':
                    self.bound_hit = True
                    return False
                raise Unsupported('recursion in ' + fn.name)
            if fn.vararg and len(args) > len(fn.params) and self.uses_va(fn):
                raise Unsupported('variadic function ' + fn.name)
            if name.startswith('sp_') and self.origin(fn) != 'repo':
                return self.merged_call(st, fr, ins, fn, vals)
            self.call_fn(st, fn, vals, ins.dst)
            return None
        m = getattr(self, 'x_' + name, None)
        if m is not None:
            return m(st, fr, ins, vals)
        self.externals.add(name)
        rt = ins.a[0]
        if rt != VOID and ins.dst:
            fr.regs[ins.dst] = self.undef(fr.fn.mod, rt)
        return None

    def merged_call(self, st, fr, ins, fn, vals):
        """pure specification function (name sp_*): its paths are joined into one value"""
        s = st.copy()
        s.frames = []
        s.loops = ()
        base = len(s.pc)
        sd = self.spec_dead
        self.spec_dead = []
        try:
            self.call_fn(s, fn, vals)
            done = self.explore([s])
            dead = self.spec_dead
        finally:
            self.spec_dead = sd
        for d in dead:
            # unsafe in a predicate: reported at the level of the caller's state
            e = st.copy()
            e.pc = e.pc + d.pc[base:]
            e.flags['specfalse'] = True
            self.spec_dead.append(e)
        if not done:
            return False
        for d in done:
            for o, m in st.mem.items():
                if d.mem[o] != m:
                    raise Unsupported('specification function %s writes memory' % fn.name)
        have = {c.get_id() for c in st.pc}
        res = None
        for d in done:
            conds = []
            for c in d.pc[base:]:
                if c.get_id() in self.defids:
                    if conds or c.get_id() not in have:
                        have.add(c.get_id())
                        self.define(st, z3.Implies(z3.And(*conds), c) if conds else c)
                else:
                    conds.append(c)
            for a in ('nl', 'nl0', 'facts'):
                old = getattr(st, a)
                setattr(st, a, old + tuple(x for x in getattr(d, a) if x not in old))
            st.universe = st.universe + tuple(x for x in d.universe if not any(same(x, y) for y in st.universe))
            old = lst(st.inputs)
            for e in lst(d.inputs)[len(old):]:
                st.inputs = (e, st.inputs)
            r = d.retval
            c = b_and(*conds)
            if res is None:
                res = r
            elif isinstance(r, bool) or isinstance(res, bool) or (not isint(r) and not isinstance(r, Ptr) and z3.is_bool(r)):
                res = r if isint(c) and c else z3.If(tobool(c), tobool(r), tobool(res))
            elif not isint(c) or c:
                res = self.ite(c, r, res, 64 if isinstance(r, Ptr) else fn.rett[1])
        if res is not None and not isint(res) and not isinstance(res, Ptr):
            res = simp(res)
        self.setret(fr, ins, res)
        return None

    def uses_va(self, fn):
        fn.parse()
        return any(i.op == 'call' and i.a[1][0] == 'g' and i.a[1][1].startswith('llvm.va_start') for b in fn.blocks.values() for i in b)

    def setret(self, fr, ins, v):
        if ins.dst:
            fr.regs[ins.dst] = v

    def run_harness(self, fn):
        st = State()
        self.call_fn(st, fn, [])
        try:
            return self.explore([st])
        except StopFirst:
            return []
