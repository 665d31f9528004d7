"""Values, memory nodes, execution state and the solver front end of the VC generator."""
import os, sys, time, subprocess, tempfile
import z3
import bv2int

sys.setrecursionlimit(100000)

BASE_SHIFT = 44
M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class StopFirst(Exception):
    pass


class AbortTrial(Exception):
    def __init__(self, ctx):
        Exception.__init__(self)
        self.ctx = ctx


# ------------------------------------------------------------------ values
class Ptr:
    """o: object id or None (raw address); off: python int or BV64"""
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


NULL = Ptr(None, 0)


def isint(v):
    return type(v) is int or type(v) is bool


def mask(w):
    return (1 << w) - 1


def bv(v, w):
    return z3.BitVecVal(v, w) if isint(v) else v


def tobool(v):
    return z3.BoolVal(bool(v)) if isint(v) else v


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def isz(e):
    """constant-fold without simplification"""
    if isint(e):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp(e):
    if isint(e):
        return e
    return isz(z3.simplify(e))


def b_and(*cs):
    out = []
    for c in cs:
        if isint(c):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*cs):
    out = []
    for c in cs:
        if isint(c):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(c):
    if isint(c):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def b_imp(a, b):
    return b_or(b_not(a), b)


def same(a, b):
    """syntactically identical"""
    if isint(a) or isint(b):
        return isint(a) and isint(b) and a == b
    return a.eq(b)


# ------------------------------------------------------------------ memory nodes (immutable)
class Init:
    """arbitrary content: uninterpreted byte function; axiom(off) is assumed on reads"""
    __slots__ = ('f', 'name', 'axiom')

    def __init__(self, name, axiom=None):
        self.name, self.f, self.axiom = name, None, axiom


class Zero:
    __slots__ = ()


class Bytes:
    """constant initial content, with pointers at some offsets"""
    __slots__ = ('data', 'ptrs')

    def __init__(self, data, ptrs):
        self.data, self.ptrs = data, ptrs


class Store:
    __slots__ = ('prev', 'off', 'n', 'v')

    def __init__(self, prev, off, n, v):
        self.prev, self.off, self.n, self.v = prev, off, n, v


class Copy:
    __slots__ = ('prev', 'off', 'n', 'src', 'soff')

    def __init__(self, prev, off, n, src, soff):
        self.prev, self.off, self.n, self.src, self.soff = prev, off, n, src, soff


class Set:
    __slots__ = ('prev', 'off', 'n', 'v')

    def __init__(self, prev, off, n, v):
        self.prev, self.off, self.n, self.v = prev, off, n, v


class Havoc:
    """bytes [off, off+n) become arbitrary"""
    __slots__ = ('prev', 'off', 'n', 'init')

    def __init__(self, prev, off, n, init):
        self.prev, self.off, self.n, self.init = prev, off, n, init


class Obj:
    __slots__ = ('id', 'size', 'name', 'kind', 'fn', 'const')

    def __init__(self, id, size, name, kind, fn=None, const=False):
        self.id, self.size, self.name, self.kind, self.fn, self.const = id, size, name, kind, fn, const


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'regs', 'ret', 'allocas', 'cnt')

    def __init__(self, fn):
        self.fn, self.blk, self.idx, self.prev, self.regs, self.ret = fn, fn.order[0], 0, None, {}, None
        self.allocas = ()
        self.cnt = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.idx, f.prev, f.ret, f.allocas = self.fn, self.blk, self.idx, self.prev, self.ret, self.allocas
        f.regs = dict(self.regs)
        f.cnt = dict(self.cnt)
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'wlog', 'inputs', 'tmpl', 'wits', 'facts', 'universe', 'nul', 'nl', 'flags',
                 'loops', 'guards', 'seen_ax', 'retval', 'nalloc', 'trace', 'occ', 'live', 'nl0')

    def __init__(self):
        self.frames = []
        self.mem = {}      # oid -> (node, freed)
        self.pc = []
        self.wlog = None
        self.inputs = None
        self.tmpl = ()
        self.wits = ()
        self.facts = ()
        self.universe = ()
        self.nul = {}
        self.nl = ()
        self.nl0 = ()
        self.flags = {}
        self.loops = ()
        self.guards = ()
        self.seen_ax = frozenset()
        self.retval = None
        self.nalloc = 0
        self.trace = None
        self.occ = {}
        self.live = 0

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.wlog, s.inputs, s.tmpl, s.wits = self.wlog, self.inputs, self.tmpl, self.wits
        s.facts, s.universe = self.facts, self.universe
        s.nul = dict(self.nul)
        s.nl = self.nl
        s.nl0 = self.nl0
        s.flags = dict(self.flags)
        s.loops = self.loops
        s.guards = self.guards
        s.seen_ax = self.seen_ax
        s.retval = self.retval
        s.nalloc = self.nalloc
        s.trace = self.trace
        s.occ = dict(self.occ)
        s.live = self.live
        return s


def lst(l):
    out = []
    while l is not None:
        out.append(l[0])
        l = l[1]
    out.reverse()
    return out


class LoopCtx:
    def __init__(self, depth, header, blocks, trial=False):
        self.depth, self.header, self.blocks = depth, header, blocks
        self.latches, self.exits = [], []
        self.trial = trial


class Failure:
    def __init__(self, name, kind, loc, status, inputs, detail, bounded, trace):
        self.name, self.kind, self.loc, self.status = name, kind, loc, status
        self.inputs, self.detail, self.bounded, self.trace = inputs, detail, bounded, trace


# ------------------------------------------------------------------ solver
class Solver:
    def __init__(self, opt):
        self.opt = opt
        self.stats = {'queries': 0, 'z3_fresh': 0, 'cvc5': 0, 'time': 0.0}
        self.backend = 'z3_inc'
        self.model = None
        self.has_nl = False     # set once products of unknowns occur: integer translation is tried early
        self.reset()

    def reset(self):
        self.s = z3.Solver()
        self.ids = []
        self.keep = []
        self.n = 0

    def sync(self, pc):
        k = 0
        ids = self.ids
        n = min(len(pc), len(ids))
        while k < n and ids[k] == pc[k].get_id():
            k += 1
        if k < len(ids):
            self.s.pop(len(ids) - k)
            del ids[k:]
            del self.keep[k:]
        for c in pc[k:]:
            self.s.push()
            self.s.add(c)
            ids.append(c.get_id())
            self.keep.append(c)

    def check(self, pc, extra, timeout=None, want_model=False):
        """'sat' / 'unsat' / 'unknown'"""
        self.model = None
        if isint(extra):
            if not extra:
                return 'unsat'
            extra = z3.BoolVal(True)
        self.stats['queries'] += 1
        t0 = time.time()
        self.n += 1
        if self.n % 3000 == 0:
            self.reset()
        self.sync(pc)
        to = timeout or self.opt['t_inc']
        self.s.push()
        self.s.add(extra)
        first = min(to, 0.3)
        self.s.set('timeout', int(1000 * first))
        r = self.s.check()
        self.backend = 'z3_inc'
        if r == z3.unknown:
            r = self.check_int(list(pc) + [extra], to)
            if r == z3.unknown and not self.has_nl:
                self.backend = 'z3_inc'
                self.s.set('timeout', int(1000 * to))
                r = self.s.check()
        if r == z3.sat and want_model:
            self.model = self.s.model()
        self.s.pop()
        dt = time.time() - t0
        self.stats['time'] += dt
        if dt > 3 and self.opt.get('verbose', 0) > 1:
            print('slow query %.1fs %s: %s' % (dt, r, str(extra)[:300].replace('\n', ' ')), flush=True)
        return str(r)

    def check_int(self, goal, timeout):
        """only 'unsat' answers are used: a model of the integer goal is not mapped back"""
        try:
            f = bv2int.translate(goal)
        except bv2int.NoTrans:
            return z3.unknown
        s = z3.Solver()
        s.set('timeout', int(1000 * timeout))
        s.add(*f)
        self.stats['z3_int'] = self.stats.get('z3_int', 0) + 1
        r = s.check()
        if r == z3.unsat:
            self.backend = 'z3_int'
            return r
        return z3.unknown

    def check_hard(self, pc, extra, timeout):
        """fresh solvers with a larger limit, then cvc5"""
        t0 = time.time()
        goal = list(pc) + [tobool(extra)]
        r = 'unknown'
        self.model = None
        if self.check_int(goal, timeout * 0.5) == z3.unsat:
            self.stats['time'] += time.time() - t0
            return 'unsat'
        for logic, to in ((None, timeout * 0.5), ('QF_UFBV', timeout)):
            s = z3.SolverFor(logic) if logic else z3.Solver()
            s.set('timeout', int(1000 * to))
            s.add(*goal)
            q = s.check()
            self.stats['z3_fresh'] += 1
            if q != z3.unknown:
                r = str(q)
                if q == z3.sat:
                    self.model = s.model()
                self.backend = 'z3_fresh'
                break
        if r == 'unknown':
            r = self.cvc5(goal, timeout)
        self.stats['time'] += time.time() - t0
        return r

    def cvc5(self, goal, timeout):
        s = z3.Solver()
        s.add(*goal)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True,
                               timeout=timeout + 10)
            o = p.stdout.strip().split('\n')[0]
            self.stats['cvc5'] += 1
            if o in ('sat', 'unsat'):
                self.backend = 'cvc5'
                return o
        except Exception:
            pass
        finally:
            os.unlink(f.name)
        return 'unknown'
