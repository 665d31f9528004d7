"""Loops: concrete unrolling when possible, otherwise cut points with Houdini-selected inductive invariants."""
import os
import z3
from core import *
from ir import PTR


class LoopMixin:
    def do_loop(self, st, fn, header):
        """st is at the header (phis evaluated), arriving from outside.  Consumes st; pushes continuation states."""
        blocks = fn.loops[header]
        depth = len(st.frames)
        # 1. concrete unrolling if every exit decision is determined
        trial = LoopCtx(depth, header, blocks, trial=True)
        s = st.copy()
        s.frames[-1].cnt[header] = 0
        s.loops = s.loops + (trial,)
        save = (dict((k, list(v)) for k, v in self.obl.items()), len(self.failures), dict(self.backends))
        try:
            self.explore([s])
        except AbortTrial as e:
            if e.ctx is not trial:
                raise
            self.obl = save[0]
            del self.failures[save[1]:]
            self.backends = save[2]
        else:
            for e in trial.exits:
                self.forward(e)
            return False
        if os.environ.get('VP_DEBUG'):
            print('CUT', fn.name, self.loop_line(fn, header), 'quiet', self.quiet, flush=True)
        ctx = self.cut_loop(st, fn, header, blocks, depth)
        for e in ctx.exits:
            self.forward(e)
        return False

    def forward(self, st):
        """a state that left a loop: deliver it to an enclosing loop context it also reaches the edge of, or go on"""
        k = st.flags.pop('_ret_through', 0)
        if k:
            L = st.loops[-1]
            st.loops = st.loops[:-1]
            if k > 1:
                st.flags['_ret_through'] = k - 1
            L.exits.append(st)
            return
        if st.flags.pop('_returned', 0):
            self.work.append(st)
            return
        if st.frames and self.arrive(st) is not False:
            self.work.append(st)

    def arrive(self, st):
        """block entry bookkeeping after enter_block (phis done); False when the state was consumed"""
        fr = st.frames[-1]
        blk = fr.blk
        depth = len(st.frames)
        if st.loops and st.loops[-1].depth == depth:
            L = st.loops[-1]
            if blk == L.header:
                if L.trial:
                    fr.cnt[blk] = fr.cnt.get(blk, 0) + 1
                    if fr.cnt[blk] > self.opt['hdr_unroll']:
                        raise AbortTrial(L)
                    return None
                L.latches.append(st)
                return False
            if blk not in L.blocks:
                st.loops = st.loops[:-1]
                L.exits.append(st)
                return False
        if blk not in fr.fn.loops:
            return None
        back = fr.prev in fr.fn.loops[blk]
        if self.opt['mode'] == 'bounded':
            fr.cnt[blk] = fr.cnt.get(blk, 0) + 1 if back else 0
            if fr.cnt[blk] > self.opt['bound']:
                self.bound_hit = True
                return False
            return None
        un = st.flags.get('unroll')
        if un is not None:
            fr.cnt[blk] = fr.cnt.get(blk, 0) + 1 if back else 0
            if fr.cnt[blk] > un:
                self.obligation(st, False, 'unwind', 'loop is completely unrolled %d times' % un)
                return False
            return None
        return self.do_loop(st, fr.fn, blk)

    def phis(self, fn, header):
        return [i for i in fn.blocks[header] if i.op == 'phi']

    def loop_line(self, fn, header):
        for b in [header] + sorted(fn.loops[header]):
            for i in fn.blocks[b]:
                l = fn.mod.loc(i.dbg)
                if l and l[1]:
                    return '%s:%d' % (os.path.basename(l[0] or '?'), l[1])
        return header

    def cut_loop(self, st, fn, header, blocks, depth):
        phis = self.phis(fn, header)
        regs = st.frames[-1].regs
        v0 = {p.dst: regs[p.dst] for p in phis}
        npc0 = len(st.pc)
        cells = {}          # (oid, off, n) -> value on entry
        whole = set()
        rng = {}            # oid -> [(off, n)] irregular concrete ranges
        stride = {}
        self.fresh_n += 1
        fresh0 = self.fresh_n
        tag = 'L%d' % self.fresh_n
        nvar = z3.BitVec(tag + '.n', 64)
        syms = {}
        odd = []

        def hav(key, nm_):
            if key not in syms:
                syms[key] = self.fresh_init('%s.%s' % (tag, nm_))
            return syms[key]

        def generic():
            g = st.copy()
            g.wlog = None
            g.flags['cut'] = True
            if odd:
                g.flags['live_unknown'] = True
            L = LoopCtx(depth, header, blocks)
            vals = {}
            for p in phis:
                k = p.dst
                vals[k] = self.loopval(tag, k, v0[k], p.a[0], stride.get(k, 'new'), nvar, syms, fn.mod)
                g.frames[-1].regs[k] = vals[k]
            for oid in whole:
                g.mem[oid] = (hav(('W', oid), self.objs[oid].name), g.mem[oid][1])
            for oid, rs in rng.items():
                if oid not in whole:
                    for (o, n) in rs:
                        g.mem[oid] = (Havoc(g.mem[oid][0], o, n, hav(('R', oid, o, n), self.objs[oid].name)), g.mem[oid][1])
            for (oid, o, n), iv in cells.items():
                if oid in whole:
                    continue
                k = (oid, o, n)
                ty = PTR if isinstance(iv, Ptr) else ('i', 8 * n)
                vals[k] = self.loopval(tag, '%s+%d.%d' % (self.objs[oid].name, o, oid), iv, ty, stride.get(k, 'new'), nvar, syms, fn.mod)
                nd, fz = g.mem[oid]
                g.mem[oid] = (Store(self.compact(nd, o, n), o, n, vals[k]), fz)
            for oid in list(g.nul):
                if oid in whole:
                    g.nul[oid] = ()
            g.loops = g.loops + (L,)
            return g, L, vals

        def latchval(s, k):
            if isinstance(k, tuple):
                oid, o, n = k
                if oid not in s.mem:
                    return None
                return self.read(s, s.mem[oid][0], o, n)
            return s.frames[-1].regs[k]

        self.quiet += 1
        try:
            for rnd in range(16):
                g, L, vals = generic()
                self.explore([g])
                changed = False
                for s in L.latches:
                    for (oid, o, n) in set_of(lst(s.wlog)):
                        if oid not in st.mem and not self.global_mem(st, oid):
                            continue
                        if oid in whole:
                            continue
                        if not (isint(o) and isint(n)):
                            whole.add(oid)
                            for c in [c for c in cells if c[0] == oid]:
                                del cells[c]
                                stride.pop(c, None)
                            changed = True
                            continue
                        if (oid, o, n) in cells or any(ro <= o and o + n <= ro + rn for ro, rn in rng.get(oid, ())):
                            continue
                        ovl = [c for c in cells if c[0] == oid and c[1] < o + n and o < c[1] + c[2]]
                        rs = rng.setdefault(oid, [])
                        rov = [r for r in rs if r[0] < o + n and o < r[0] + r[1]]
                        if ovl or rov or n > 8:
                            lo = min([o] + [c[1] for c in ovl] + [r[0] for r in rov])
                            hi = max([o + n] + [c[1] + c[2] for c in ovl] + [r[0] + r[1] for r in rov])
                            for c in ovl:
                                del cells[c]
                                stride.pop(c, None)
                            for r in rov:
                                rs.remove(r)
                            rs.append((lo, hi - lo))
                        else:
                            iv = self.read(st, st.mem[oid][0], o, n)
                            cells[(oid, o, n)] = iv if isinstance(iv, Ptr) else isz(self.bits(iv, 8 * n))
                        changed = True
                    if s.live != st.live and not odd:
                        odd.append(1)
                        changed = True
                    if bool(s.flags.get('failed_alloc')) != bool(st.flags.get('failed_alloc')):
                        raise Unsupported('allocation failure inside a loop that needs an invariant')
                    for oid in st.mem:
                        if oid in s.mem and s.mem[oid][1] != st.mem[oid][1]:
                            raise Unsupported('object %s freed inside a loop that needs an invariant' % self.objs[oid].name)
                for k in list(vals):
                    if isinstance(k, tuple) and k not in cells:
                        continue
                    if not L.latches:
                        continue
                    ds = [self.stride_of(vals[k], latchval(s, k)) for s in L.latches]
                    if all(isint(d) and d == ds[0] for d in ds):
                        new = ds[0]
                    elif all(isint(d) or d == 'obj' for d in ds) and isinstance(vals[k], Ptr) and vals[k].o is not None:
                        new = 'obj'
                    else:
                        new = 'any'
                    old = stride.get(k, 'new')
                    if old == 'new':
                        stride[k] = new
                        changed = True
                    elif old == new or old == 'any':
                        pass
                    elif isint(old):
                        stride[k] = 'any' if new == 'any' else 'obj' if isinstance(v0.get(k, cells.get(k)), Ptr) else 'any'
                        changed = True
                    elif old == 'obj' and new == 'any':
                        stride[k] = 'any'
                        changed = True
                if not changed:
                    break
            else:
                raise Unsupported('loop discovery did not stabilize in ' + fn.name)
            cands = []
            live = []
            if L.latches:
                cands = self.candidates(st, fn, stride, v0, cells, L, nvar, phis, npc0, syms, fresh0)
                s0 = st.copy()
                for c in cands:
                    e = c.at(self, s0, 0, lambda k: (cells[k] if isinstance(k, tuple) else v0[k]))
                    if e is not None and self.cand_valid(c, s0, e, 'on entry'):
                        live.append(c)
                while True:
                    g, L, vals = generic()
                    self.assume_inv(g, live, nvar, vals)
                    self.explore([g])
                    bad = set()
                    for s in L.latches:
                        n1 = z3.simplify(nvar + 1)
                        for c in live:
                            if c in bad:
                                continue
                            e = c.at(self, s, n1, lambda k: latchval(s, k))
                            if e is None or not self.cand_valid(c, s, e, 'preservation'):
                                bad.add(c)
                    if not bad:
                        break
                    live = [c for c in live if c not in bad]
        finally:
            self.quiet -= 1
        if os.environ.get('VP_DEBUG'):
            print('INV', fn.name, self.loop_line(fn, header), 'modified', [nm(self, k) for k in stride], 'whole',
                  [self.objs[o].name for o in whole], 'strides', {nm(self, k): v for k, v in stride.items()}, 'kept', len(live), [c.name for c in live if c.name.startswith('spec')],
                  'dropped', [c.name for c in cands if c not in live], flush=True)
        # ---- final pass with obligations
        g, L, vals = generic()
        self.assume_inv(g, live, nvar, vals)
        self.explore([g])
        if not self.quiet:
            key = '%s loop at %s' % (fn.name, self.loop_line(fn, header))
            self.loop_notes[key] = {'invariants': sorted({c.name for c in live}), 'candidates_rejected': len(cands) - len(live)}
            for c in live:
                ent = self.obl.setdefault(('invariant', key, c.name), [0, 0, 0])
                ent[0] += 2
                self.backends['z3_inc'] += 2
        # writes of this loop, for enclosing loops
        if st.loops:
            acc = st.wlog
            for s in L.latches:
                for e in set_of(lst(s.wlog)):
                    acc = (e, acc)
            for s in L.exits:
                own = set_of(lst(s.wlog))
                s.wlog = acc
                for e in own:
                    s.wlog = (e, s.wlog)
        return L

    def cand_valid(self, c, s, e, what):
        ok = self.valid_hard(s, e) if c.name.startswith('spec') else self.valid(s, e, self.opt['t_inc'])
        if not ok and c.name.startswith('spec') and os.environ.get('VP_DEBUG'):
            r = self.sol.check(s.pc, z3.Not(tobool(e)), 10, want_model=True)
            print('DROP', c.name, what, r, flush=True)
            if os.environ['VP_DEBUG'] > '1' and self.sol.model is not None:
                m = self.sol.model
                print('   ', {str(d): m[d] for d in m.decls() if d.arity() == 0}, '\n    goal', str(e)[:3000], flush=True)
        return ok

    def stride_of(self, gv, lv):
        """latch value - header value when constant; 'obj' when both point into one object"""
        if lv is None:
            return None
        if isinstance(gv, Ptr) or isinstance(lv, Ptr):
            if isinstance(gv, Ptr) and not isinstance(lv, Ptr):
                lv = self.to_ptr(lv)
            if not (isinstance(gv, Ptr) and isinstance(lv, Ptr)):
                return None
            if gv.o != lv.o:
                return None
            d = self.diff(lv.off, gv.off)
            return d if isint(d) else ('obj' if gv.o is not None else None)
        if isinstance(gv, list) or isinstance(lv, list):
            return None
        if isinstance(gv, bool) or isinstance(lv, bool) or (not isint(gv) and z3.is_bool(gv)) or (not isint(lv) and z3.is_bool(lv)):
            return 0 if same(gv, lv) else None
        if isint(gv) and isint(lv):
            return lv - gv
        w = (lv if isint(gv) else gv).size()
        d = simp(bv(lv, w) - bv(gv, w))
        return sgn(d, w) if isint(d) else None

    def loopval(self, tag, name, v0, t, stride, nvar, syms, mod):
        t = mod.rt(t)
        if isint(stride) and stride == 0:
            return v0

        def sym(kind, w):
            key = (kind, name)
            if key not in syms:
                syms[key] = self.fresh('%s.%s' % (tag, name), w)
            return syms[key]
        if isinstance(v0, Ptr) or t[0] == 'ptr':
            if isinstance(v0, Ptr) and v0.o is not None:
                if isint(stride):
                    return Ptr(v0.o, bv(v0.off, 64) + nvar * (stride & M64))
                if stride in ('obj', 'new'):
                    return Ptr(v0.o, sym('p', 64))
            return Ptr(None, sym('r', 64))
        if t[0] in ('s', 'a'):
            raise Unsupported('aggregate loop variable')
        w = t[1]
        if w == 1:
            key = ('b', name)
            if key not in syms:
                self.fresh_n += 1
                syms[key] = z3.Bool('%s.%s!%d' % (tag, name, self.fresh_n))
            return syms[key]
        if isint(stride):
            n = nvar if w == 64 else (z3.Extract(w - 1, 0, nvar) if w < 64 else z3.ZeroExt(w - 64, nvar))
            return bv(v0, w) + n * (stride & mask(w))
        return sym('i', w)

    def assume_inv(self, g, live, nvar, vals):
        for c in live:
            e = c.at(self, g, nvar, lambda k: vals[k])
            if e is not None and not isint(e):
                g.pc.append(e)

    def candidates(self, st, fn, stride, v0, cells, L, nvar, phis, base, syms, fresh0):
        out = []
        init = {**v0, **cells}

        def width_of(k):
            if isinstance(k, tuple):
                return 8 * k[2]
            for p in phis:
                if p.dst == k:
                    t = fn.mod.rt(p.a[0])
                    return t[1] if t[0] in ('i', 'f') else None

        def isb(v):
            return isinstance(v, bool) or (not isint(v) and not isinstance(v, Ptr) and z3.is_bool(v))

        out.append(Cand('iteration count below 2^40', lambda E, S, n, get: b_ult(n, 1 << 40)))
        for k, iv in init.items():
            s = stride.get(k)
            if isinstance(iv, Ptr):
                if iv.o is None or s == 0 and isint(s):
                    continue
                sz = self.objs[iv.o].size
                out.append(Cand('%s inside its object' % nm(self, k), lambda E, S, n, get, k=k, sz=sz, o=iv.o: ptr_le(E, get(k), sz, o)))
                if not isint(s):
                    out.append(Cand('%s at or after its start' % nm(self, k), lambda E, S, n, get, k=k, iv=iv: ptr_ge(E, get(k), iv)))
                continue
            if isb(iv):
                continue
            w = width_of(k)
            if w is None or w < 8 or w > 64:
                continue
            if isint(s):
                if s == 0:
                    continue

                def nowrap(E, S, n, get, iv=iv, w=w, c=abs(s), up=(s > 0)):
                    room = (bv(mask(w), w) - bv(iv, w)) if up else bv(iv, w)
                    if w < 64:
                        room = z3.ZeroExt(64 - w, room)
                    return z3.ULE(bv(n, 64) * c, room) if c < 1 << 20 else None
                out.append(Cand('%s does not wrap (unsigned)' % nm(self, k), nowrap))

                def nowraps(E, S, n, get, iv=iv, w=w, c=abs(s), up=(s > 0)):
                    x = z3.SignExt(64 - w, bv(iv, w)) if w < 64 else bv(iv, w)
                    hi, lo = (1 << (w - 1)) - 1, -(1 << (w - 1))
                    room = (z3.BitVecVal(hi & M64, 64) - x) if up else (x - z3.BitVecVal(lo & M64, 64))
                    return z3.ULE(bv(n, 64) * c, room) if c < 1 << 20 else None
                if w < 64:
                    out.append(Cand('%s does not wrap (signed)' % nm(self, k), nowraps))
                if s < 0:
                    out.append(Cand('%s >= -1' % nm(self, k), lambda E, S, n, get, k=k, w=w: E.bitz(get(k), w) >= z3.BitVecVal(mask(w), w)))
            else:
                for nme, f in (('>=u entry', z3.UGE), ('<=u entry', z3.ULE), ('>=s entry', lambda a, b: a >= b), ('<=s entry', lambda a, b: a <= b)):
                    out.append(Cand('%s %s' % (nm(self, k), nme), lambda E, S, n, get, k=k, iv=iv, w=w, f=f: f(E.bitz(get(k), w), bv(iv, w))))
                out.append(Cand('%s - entry <= n' % nm(self, k), lambda E, S, n, get, k=k, iv=iv, w=w: z3.ULE(
                    zx64(E.bitz(get(k), w) - bv(iv, w), w), bv(n, 64))))
        # the loop guard held in the previous iteration, and at each registered witness below the counter
        hav = havoc_names(syms)
        guards = None
        for s in L.latches:
            gs = {}
            for c in s.pc[base:]:
                if refs_ok(c, hav, fresh0, str(nvar)):
                    gs[c.get_id()] = c
            guards = gs if guards is None else {i: c for i, c in guards.items() if i in gs}
        guards = list((guards or {}).values())[:40]
        for i, gd in enumerate(guards):
            if not mentions(gd, nvar):
                continue

            def prev(E, S, n, get, gd=gd):
                if isint(n) and n == 0:
                    return True
                nn = bv(n, 64)
                return z3.Or(nn == 0, z3.substitute(gd, (nvar, z3.simplify(nn - 1))))
            out.append(Cand('guard %d held in the previous iteration' % i, prev))
            for w in st.wits:
                def wit(E, S, n, get, gd=gd, w=w):
                    if isint(n) and n == 0:
                        return True
                    return z3.Implies(z3.ULT(bv(w, 64), bv(n, 64)), z3.substitute(gd, (nvar, bv(w, 64))))
                out.append(Cand('guard %d held at the witness' % i, wit))
        # bounds of irregular variables by loop-invariant comparands of the body's conditions
        bounds = {}
        for s in L.latches:
            for c in s.pc[base:]:
                for t in comparands(c):
                    if not mentions(t, nvar) and refs_ok(t, hav, fresh0, str(nvar)):
                        bounds[t.get_id()] = t
        bounds = list(bounds.values())[:16]
        for k, iv in init.items():
            if isinstance(iv, Ptr) or isb(iv) or isint(stride.get(k)):
                continue
            w = width_of(k)
            if w is None or w < 8 or w > 64:
                continue
            for t in bounds:
                if t.size() == w:
                    out.append(Cand('%s <=u %s' % (nm(self, k), short(t)), lambda E, S, n, get, k=k, w=w, t=t: z3.ULE(E.bitz(get(k), w), t)))
                    out.append(Cand('%s >=u %s' % (nm(self, k), short(t)), lambda E, S, n, get, k=k, w=w, t=t: z3.UGE(E.bitz(get(k), w), t)))
                    out.append(Cand('%s <=s %s' % (nm(self, k), short(t)), lambda E, S, n, get, k=k, w=w, t=t: E.bitz(get(k), w) <= t))
                elif t.size() == 64 and w == 32:
                    out.append(Cand('%s <=u %s' % (nm(self, k), short(t)), lambda E, S, n, get, k=k, w=w, t=t: z3.ULE(zx64(E.bitz(get(k), w), w), t)))
        # specification templates
        for (kind, tf) in st.tmpl:
            if kind == 'n':
                out.append(Cand('spec %s(n)' % tf.name, lambda E, S, n, get, tf=tf: E.eval_pred(S, tf, [n])))
                continue
            for k, iv in init.items():
                if isint(stride.get(k)) and stride.get(k) == 0 or isb(iv):
                    continue
                w = 64 if isinstance(iv, Ptr) else width_of(k)
                if w is None or w > 64 or w < 8:
                    continue

                def tv(E, S, n, get, tf=tf, k=k, w=w, kind=kind):
                    x = get(k)
                    if x is None:
                        return None
                    x = E.bits(x, w)
                    if not isint(x):
                        x = zx64(x, w)
                    return E.eval_pred(S, tf, [x] if kind == 'v' else [n, x])
                out.append(Cand('spec %s(%s)' % (tf.name, nm(self, k)), tv))
        return out

    def eval_pred(self, st, fn, args):
        """value of a C predicate in st as a formula valid under st.pc"""
        s = st.copy()
        s.loops = ()
        s.guards = ()
        s.flags.pop('shared', None)
        s.flags.pop('unroll', None)
        base = len(s.pc)
        saved_frames, s.frames = s.frames, []
        sf, self.specfalse = self.specfalse, True
        self.quiet += 1
        sd = self.spec_dead
        self.spec_dead = []
        try:
            ps = []
            for (t, _), a in zip(fn.params, args):
                w = t[1] if t[0] == 'i' else 64
                if t[0] == 'ptr':
                    a = self.to_ptr(a)
                elif isint(a):
                    a &= mask(w)
                elif a.size() > w:
                    a = z3.Extract(w - 1, 0, a)
                ps.append(a)
            self.call_fn(s, fn, ps)
            done = self.explore([s])
            dead = self.spec_dead
        finally:
            self.quiet -= 1
            self.specfalse = sf
            self.spec_dead = sd
        cs = []
        have = {c.get_id() for c in st.pc}

        def split(d):
            conds = []
            for c in d.pc[base:]:
                if c.get_id() in self.defids:
                    e = z3.Implies(z3.And(*conds), c) if conds else c
                    if not conds and c.get_id() in have:
                        continue
                    have.add(c.get_id())
                    self.define(st, e)
                else:
                    conds.append(c)
            for x in d.nl:
                if x not in st.nl:
                    st.nl = st.nl + (x,)
            for x in d.nl0:
                if x not in st.nl0:
                    st.nl0 = st.nl0 + (x,)
            for x in d.facts:
                if x not in st.facts:
                    st.facts = st.facts + (x,)
            for x in d.universe:
                if not any(same(x, y) for y in st.universe):
                    st.universe = st.universe + (x,)
            return conds
        for d in done:
            conds = split(d)
            r = d.retval
            if d.flags.get('specfalse'):
                r = False
            if not isint(r) and not z3.is_bool(r):
                r = r != 0
            cs.append(b_imp(b_and(*conds), r))
        for d in dead:
            cs.append(b_not(b_and(*split(d))))
        return b_and(*cs) if cs else True


class Cand:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def at(self, E, S, n, get):
        try:
            r = self.f(E, S, n, get)
        except z3.Z3Exception:
            return None
        if r is None:
            return None
        return simp(r)


def zx64(e, w):
    return z3.ZeroExt(64 - w, e) if w < 64 else e


def set_of(l):
    out, seen = [], set()
    for (oid, o, n) in l:
        k = (oid, o if isint(o) else 's', n if isint(n) else 's')
        if k not in seen:
            seen.add(k)
            out.append((oid, o, n))
    return out


def nm(E, k):
    if isinstance(k, tuple):
        return '%s+%d' % (E.objs[k[0]].name, k[1])
    return k


def short(t):
    return str(t).replace('\n', ' ')[:40]


def b_ult(n, lim):
    if isint(n):
        return n < lim
    return z3.ULT(n, lim)


def ptr_ge(E, p, iv):
    if not isinstance(p, Ptr) or p.o != iv.o:
        return None
    return z3.UGE(bv(p.off, 64), bv(iv.off, 64))


def ptr_le(E, p, size, o):
    if not isinstance(p, Ptr) or p.o != o:
        return None
    return z3.ULE(bv(p.off, 64), bv(size, 64))


def havoc_names(syms):
    out = set()
    for k, v in syms.items():
        out.add('mem_' + v.name if isinstance(v, Init) else str(v))
    return out


_vis = {}


def symbols(e):
    k = e.get_id()
    if k in _vis and _vis[k][0].eq(e):
        return _vis[k][1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
    _vis[k] = (e, out)
    return out


def refs_ok(e, hav, fresh0, nname):
    """no loop-varying symbols other than the counter: neither havoced ones nor ones created by the body"""
    for s in symbols(e):
        if s in hav:
            return False
        if s == nname:
            continue
        if '!' in s:
            try:
                if int(s.rsplit('!', 1)[1]) >= fresh0:
                    return False
            except ValueError:
                pass
        elif s.startswith('L') and s.endswith('.n') and int(s[1:-2]) >= fresh0:
            return False
    return True


def mentions(e, v):
    return str(v) in symbols(e)


def comparands(c):
    out = []
    st = [c]
    while st:
        x = st.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
            st.extend(x.children())
        elif z3.is_app(x) and x.num_args() == 2 and z3.is_bv(x.arg(0)):
            out.extend(x.children())
    return out
