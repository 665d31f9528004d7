"""Parser for the subset of textual LLVM IR (version 18, opaque pointers) that clang emits for C."""
import re

# ---------------------------------------------------------------- types
# ('i', w) ('ptr',) ('f',32|64) ('a', n, t) ('s', name|None, packed, [t..]) ('void',) ('v', n, t)

class ParseError(Exception):
    pass

PTR = ('ptr',)
VOID = ('void',)

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<lname>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KMHL]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[-a-zA-Z$._][-a-zA-Z$._0-9]*:?)
 | (?P<punc>\.\.\.|[][(){}<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise ParseError('token at %r' % s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        g = self.next()
        if g != v:
            raise ParseError('expected %s got %s in %s' % (v, g, ' '.join(x[1] for x in self.t)[:200]))

    # ---- types
    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if v == 'ptr':
            t = PTR
        elif v == 'void':
            t = VOID
        elif v == 'double':
            t = ('f', 64)
        elif v == 'float':
            t = ('f', 32)
        elif v == 'x86_fp80':
            t = ('f', 80)
        elif v == 'metadata' or v == 'label' or v == 'token':
            t = (v,)
        elif k == 'word' and re.fullmatch(r'i\d+', v):
            t = ('i', int(v[1:]))
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                fs = self._fields('}')
                self.expect('>')
                t = ('s', None, True, fs)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('v', n, e)
        elif v == '{':
            t = ('s', None, False, self._fields('}'))
        elif k == 'lname' and v[0] == '%':
            t = ('n', v)
        else:
            raise ParseError('type %r' % v)
        # function type "t (args)" only occurs in calls through varargs: handled by caller
        return t

    def _fields(self, end):
        fs = []
        if self.accept(end):
            return fs
        while True:
            fs.append(self.type())
            if self.accept(end):
                return fs
            self.expect(',')

    ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'writeonly', 'readnone',
             'noalias', 'returned', 'immarg', 'nest', 'nofree', 'swiftself', 'allocptr', 'writable', 'dead_on_unwind'}

    def attrs(self):
        while True:
            v = self.peek()
            if v in self.ATTRS:
                self.i += 1
            elif v == 'align':
                self.i += 2
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype', 'align',
                       'range', 'captures', 'inalloca', 'preallocated', 'memory'):
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
            else:
                return

    # ---- values: ('r', name) ('c', int) ('f', bits, w) ('g', name) ('null',) ('undef',) ('zero',)
    #      ('agg', [(t,v)..]) ('str', bytes) ('ce', op, ...)
    def value(self, t):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'lname':
            return ('r', v) if v[0] == '%' else ('g', v[1:].strip('"'))
        if k == 'num':
            if t[0] == 'f':
                return fpconst(v, t[1])
            return ('c', int(v, 0))
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if k == 'str':
            return ('str', decode_cstr(v))
        if v in ('[', '{', '<'):
            packed = False
            if v == '<' and self.peek() == '{':
                self.next()
                packed = True
                end = '}'
            else:
                end = {'[': ']', '{': '}', '<': '>'}[v]
            vs = []
            if not self.accept(end):
                while True:
                    et = self.type()
                    vs.append((et, self.value(et)))
                    if self.accept(end):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', vs)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = self._tvlist(')')
            return ('ce', 'gep', bt, args)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            sv = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('ce', v, st, sv, dt)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            a = self._tvlist(')')
            return ('ce', v, a)
        raise ParseError('value %r in %s' % (v, ' '.join(x[1] for x in self.t)[:200]))

    def _tvlist(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            t = self.type()
            self.attrs()
            while self.peek() == 'inrange':
                self.next()
            out.append((t, self.value(t)))
            if self.accept(end):
                return out
            self.expect(',')

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def fpconst(v, w):
    import struct
    if v.startswith('0x'):
        bits = int(v, 16)
        d = struct.unpack('<d', struct.pack('<Q', bits))[0]
    else:
        d = float(v)
    if w == 64:
        return ('f', struct.unpack('<Q', struct.pack('<d', d))[0], 64)
    return ('f', struct.unpack('<I', struct.pack('<f', d))[0], 32)


def decode_cstr(s):
    s = s[2:-1] if s[0] == 'c' else s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'dst', 'a', 'dbg', 'text')

    def __init__(self, op, dst, a, dbg, text):
        self.op, self.dst, self.a, self.dbg, self.text = op, dst, a, dbg, text


class Function:
    def __init__(self, mod, name, rett, params, vararg, dbg, body):
        self.mod, self.name, self.rett, self.params, self.vararg = mod, name, rett, params, vararg
        self.dbg, self._body, self._parsed = dbg, body, False
        self.internal = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self.blocks = {}
        self.order = []
        # number of unnamed params determines the entry label
        n = 0
        for (_, pn) in self.params:
            if pn is not None and re.fullmatch(r'%\d+', pn):
                n += 1
        cur = '%' + str(n)
        insts = []
        first = True
        buf = None
        lines = []
        for ln in self._body:
            if buf is not None:
                buf += ' ' + ln.strip()
                if ln.strip() == ']' or ln.strip().startswith(']'):
                    lines.append(buf)
                    buf = None
                continue
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if s.startswith('switch ') and s.endswith('['):
                buf = s
                continue
            lines.append(s)
        for s in lines:
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', s)
            if m and not s.startswith('call') and ' = ' not in s.split(':')[0]:
                if not first:
                    self.blocks[cur] = insts
                    self.order.append(cur)
                    insts = []
                cur = '%' + m.group(1)
                first = False
                continue
            first = False
            if s.startswith('#dbg'):
                continue
            insts.append(parse_inst(s, self.mod))
        self.blocks[cur] = insts
        self.order.append(cur)
        self._loops()
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]]
        if t.op == 'cbr':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        return []

    def _loops(self):
        """Natural loops: header -> set of blocks."""
        order = self.order
        entry = order[0]
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        self.preds = preds
        # reachable, reverse post order
        seen, post = set(), []
        stack = [(entry, iter(self.succs(entry)))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        dom = {entry: entry}

        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]:
                    a = dom[a]
                while idx[b] > idx[a]:
                    b = dom[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in dom]
                if not ps:
                    continue
                nd = ps[0]
                for p in ps[1:]:
                    nd = inter(nd, p)
                if dom.get(b) != nd:
                    dom[b] = nd
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == entry or b not in dom:
                    return False
                b = dom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'sitofp', 'uitofp',
         'fptosi', 'fptoui', 'addrspacecast'}


def parse_inst(s, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        dbg = int(m.group(1))
    # strip trailing metadata attachments
    s0 = s
    s = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
    dst = None
    m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', s)
    if m:
        dst, s = m.group(1), m.group(2)
    p = P(tokenize(s), mod)
    op = p.next()
    I = lambda o, *a: Inst(o, dst, a, dbg, s0)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
                           'afn', 'reassoc'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return I('bin', op, t, a, p.value(t))
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        return I('cast', op, t, a, p.type())
    if op == 'icmp' or op == 'fcmp':
        pred = p.next()
        while pred in ('samesign', 'fast', 'nnan', 'ninf', 'nsz'):
            pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return I(op, pred, t, a, p.value(t))
    if op == 'load':
        if p.peek() == 'atomic':
            p.next()
        if p.peek() == 'volatile':
            p.next()
        t = p.type()
        p.expect(',')
        p.type()
        return I('load', t, p.value(PTR), 'atomic' in s0[:40])
    if op == 'store':
        if p.peek() == 'atomic':
            p.next()
        if p.peek() == 'volatile':
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        return I('store', t, v, p.value(PTR), 'atomic' in s0[:16])
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(','):
            t = p.type()
            idx.append((t, p.value(t)))
        return I('gep', bt, base, idx)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return I('br', p.next())
        p.type()
        c = p.value(('i', 1))
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        return I('cbr', c, a, p.next())
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return I('switch', t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return I('ret', VOID, None)
        return I('ret', t, p.value(t))
    if op == 'unreachable':
        return I('unreachable')
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
        return I('phi', t, inc)
    if op == 'select':
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        return I('select', t, c, a, p.value(t))
    if op == 'alloca':
        t = p.type()
        n = None
        while p.accept(','):
            if p.peek() == 'align':
                p.next(); p.next()
            else:
                nt = p.type()
                n = (nt, p.value(nt))
        return I('alloca', t, n)
    if op == 'call':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'fastcc', 'ccc', 'coldcc', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == '(':   # function type (varargs)
            d = 0
            while True:
                x = p.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        if p.peek() == 'asm':
            return I('asm', rt, s)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                p.attrs()
                if t[0] == 'metadata':
                    # skip to , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x in '([{') - (x in ')]}') if len(x) == 1 else 0
                    args.append((t, None))
                else:
                    args.append((t, p.value(t)))
                if p.accept(')'):
                    break
                p.expect(',')
        return I('call', rt, callee, args)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        return I('extractvalue', t, v, ix)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        return I('insertvalue', t, v, et, ev, ix)
    if op == 'atomicrmw':
        if p.peek() == 'volatile':
            p.next()
        o = p.next()
        p.type()
        ptr = p.value(PTR)
        p.expect(',')
        t = p.type()
        return I('atomicrmw', o, ptr, t, p.value(t))
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        p.type()
        ptr = p.value(PTR)
        p.expect(',')
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.type()
        return I('cmpxchg', ptr, t, c, p.value(t))
    if op == 'fence':
        return I('nop')
    if op == 'freeze':
        t = p.type()
        return I('copy', t, p.value(t))
    if op == 'fneg':
        t = p.type()
        return I('fneg', t, p.value(t))
    raise ParseError('instruction ' + s0)


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.md = {}
        txt = open(path).read().split('\n')
        i, n = 0, len(txt)
        while i < n:
            ln = txt[i]
            if ln.startswith('define '):
                j = i + 1
                while txt[j] != '}':
                    j += 1
                self._define(ln, txt[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    if m.group(2) == 'opaque':
                        self.types[m.group(1)] = ('s', m.group(1), False, [])
                    else:
                        self.types[m.group(1)] = P(tokenize(m.group(2)), self).type()
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1

    def _global(self, ln):
        ln = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', ln)
        m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name, rest = m.group(1).strip('"'), m.group(2)
        internal = bool(re.match(r'(?:private|internal)\b', rest))
        ext = bool(re.search(r'\bexternal\b', rest.split('"')[0]))
        m2 = re.search(r'\b(global|constant)\s', rest)
        if not m2:
            return
        const = m2.group(1) == 'constant'
        p = P(tokenize(rest[m2.end():]), self)
        t = p.type()
        init = None
        if not ext and p.peek() not in (None, ','):
            init = p.value(t)
        self.globals[name] = (t, init, const, internal, 'thread_local' in rest.split('"')[0])

    def _define(self, ln, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1).strip('"')
        head = ln[len('define '):m.start()]
        internal = bool(re.search(r'\b(internal|private)\b', head))
        hp = P(tokenize(head), self)
        while hp.peek() in ('dso_local', 'internal', 'private', 'linkonce_odr', 'weak', 'weak_odr', 'hidden', 'local_unnamed_addr', 'available_externally', 'linkonce', 'unnamed_addr'):
            hp.next()
        hp.attrs()
        rett = hp.type()
        # parameters
        d, k = 0, m.end() - 1
        for k2 in range(k, len(ln)):
            if ln[k2] == '(':
                d += 1
            elif ln[k2] == ')':
                d -= 1
                if d == 0:
                    break
        pp = P(tokenize(ln[k + 1:k2]), self)
        params, vararg, cnt = [], False, 0
        while pp.peek() is not None:
            if pp.accept('...'):
                vararg = True
            else:
                t = pp.type()
                pp.attrs()
                if pp.kind() == 'lname':
                    pn = pp.next()
                else:
                    pn = '%' + str(cnt)
                    cnt += 1
                params.append((t, pn))
            if not pp.accept(','):
                break
        dm = re.search(r'!dbg !(\d+)', ln)
        f = Function(self, name, rett, params, vararg, int(dm.group(1)) if dm else None, body)
        f.internal = internal
        self.funcs[name] = f

    # ---- layout
    def rt(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def size(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'i':
            w = t[1]
            if w <= 8: return 1
            if w <= 16: return 2
            if w <= 32: return 4
            if w <= 64: return 8
            return 16
        if k == 'ptr':
            return 8
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 's':
            return self.layout(t)[1]
        if k == 'v':
            return t[1] * self.size(t[2])
        raise ParseError('size %r' % (t,))

    def align(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            if t[2] or not t[3]:
                return 1
            return max(self.align(x) for x in t[3])
        return self.size(t)

    def layout(self, t):
        t = self.rt(t)
        if not hasattr(self, '_lay'):
            self._lay = {}
        key = repr(t)
        if key in self._lay:
            return self._lay[key]
        off, offs = 0, []
        for f in t[3]:
            if not t[2]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        a = self.align(t)
        off = (off + a - 1) // a * a
        self._lay[key] = (offs, off)
        return self._lay[key]

    # ---- debug info
    def loc(self, dbg):
        if dbg is None:
            return None
        s = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        sc = re.search(r'scope: !(\d+)', s)
        return (self.file_of(int(sc.group(1))) if sc else None, int(m.group(1)) if m else 0)

    def file_of(self, sc):
        for _ in range(20):
            s = self.md.get(sc, '')
            if 'DISubprogram' in s or 'DILexicalBlock' in s or 'DIFile' in s:
                fm = re.search(r'file: !(\d+)', s)
                if fm:
                    s2 = self.md.get(int(fm.group(1)), '')
                    m = re.search(r'filename: "([^"]*)"', s2)
                    return m.group(1) if m else None
                sm = re.search(r'scope: !(\d+)', s)
                if not sm:
                    return None
                sc = int(sm.group(1))
            else:
                return None
        return None
