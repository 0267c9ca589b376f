"""Disjunctive abstract interpreter over LLVM IR.

Abstract values:  python int (integer constants), R (rational normal forms over
symbolic atoms), Ptr (object, offset), Cond (undecided sign/null predicate),
Agg (first class aggregates), TOP.  Abstract states are finite sets of
(memory, facts) disjuncts, split on undecided predicates.
"""
import re, sys, itertools, time
from fractions import Fraction as F
from poly import ROOTS, unroot, Poly, R, Rounded, sym, app, atom, ATOMS, ONE, ZERO, mk
from facts import Facts, ALL, POS, NEG, ZER, GE, LE, NE, flip, norm
from irload import Program, Unsupported, Missing, Inst

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o == x.o and self.off == x.off

    def __ne__(self, x):
        return not self == x

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return '&%s+%s' % (self.o, self.off)

    def add(self, k):
        if isinstance(k, int) and isinstance(self.off, int):
            return Ptr(self.o, self.off + k)
        a = self.off if isinstance(self.off, R) else R.c(self.off)
        b = k if isinstance(k, R) else R.c(k)
        s = a + b
        if s.isconst():
            v = s.cv()
            if isinstance(v, int):
                return Ptr(self.o, v)
        return Ptr(self.o, s)


NULL = Ptr(0, 0)


class _Top:
    def __repr__(self):
        return 'TOP'


TOP = _Top()


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Cond:
    """undecided predicate: kind 's' (poly, signs) or 'n' (object is null) or 'x' (unknown, id)"""
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a, b=None):
        self.k = k
        self.a = a
        self.b = b

    def neg(self):
        if self.k == 's':
            return Cond('s', self.a, ALL - self.b)
        return Cond(self.k, self.a, not self.b)

    def __repr__(self):
        return 'Cond(%s,%s,%s)' % (self.k, self.a, sorted(self.b) if self.k == 's' else self.b)

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.k, self.a, self.b) == (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, self.a, self.b))


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class Raw:
    """bytes reinterpretation: list of (offset, size, value)"""
    __slots__ = ('cells', 'size', 'base')

    def __init__(self, cells, size):
        self.cells = cells
        self.size = size


class Obj:
    __slots__ = ('cells', 'lazy', 'zero', 'tok', 'size', 'ranges', 'tag', 'freed')

    def __init__(self, tok, lazy=None, zero=False, size=None, tag=None):
        self.cells = {}
        self.lazy = lazy
        self.zero = zero
        self.tok = tok
        self.size = size
        self.ranges = None
        self.tag = tag
        self.freed = False

    def copy(self, tok):
        n = Obj(tok, self.lazy, self.zero, self.size, self.tag)
        n.cells = dict(self.cells)
        n.ranges = list(self.ranges) if self.ranges else None
        n.freed = self.freed
        return n


_tok = itertools.count(1)


class State:
    __slots__ = ('mem', 'facts', 'events', 'null', 'tok', 'und', 'stack', 'user')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.events = []
        self.null = {}
        self.tok = next(_tok)
        self.und = {}
        self.stack = ()
        self.user = {}

    def clone(self):
        n = State.__new__(State)
        n.mem = dict(self.mem)
        n.facts = self.facts.clone()
        n.events = list(self.events)
        n.null = dict(self.null)
        n.und = dict(self.und)
        n.stack = self.stack
        n.user = dict(self.user)
        n.tok = next(_tok)
        self.tok = next(_tok)
        return n

    def wobj(self, o):
        ob = self.mem[o]
        if ob.tok != self.tok:
            ob = ob.copy(self.tok)
            self.mem[o] = ob
        return ob


def wrap(v, n):
    v &= (1 << n) - 1
    if n > 1 and v >> (n - 1):
        v -= 1 << n
    return v


def tonum(v):
    if isinstance(v, int):
        return R.c(v)
    return v


def simp(r):
    """R with constant integer -> int (for integer typed values)"""
    if isinstance(r, R) and r.isconst():
        c = r.cv()
        if isinstance(c, int):
            return c
    return r


DEADLINE = None


class Engine:
    gepc = {}
    track = False

    def __init__(self, prog, unroll=4, max_steps=400000, max_states=4000):
        self.prog = prog
        self.unroll = unroll
        self.max_steps = max_steps
        self.undef_log = None   # []: uses of values never set are recorded (state, stack)
        self.int_ptr = None     # {'on': 0}: pointers kept as integers can be turned back
        self.max_states = max_states
        self.steps = 0
        self.oid = itertools.count(1)
        self.hooks = []           # (compiled regex on demangled, callable)
        self.hook_cache = {}
        self.cb = None            # callback handler
        self.unknown = {}         # unmodelled externals
        self.bound_hits = []
        self.visited = set()      # functions analysed
        self.globals = {}
        self.objtag = {}
        self.dead = []
        self.loop_watch = 400
        self.deadline = DEADLINE or time.time() + 3000
        self.mem_order = None     # +1 / -1: later objects lie at higher / lower addresses
        import models
        models.install(self)

    # ------------------------------------------------------------ objects
    def new_obj(self, st, lazy=None, zero=False, size=None, tag=None):
        o = next(self.oid)
        st.mem[o] = Obj(st.tok, lazy, zero, size, tag)
        return o

    def alloc_struct(self, st, cls, name=None, lazy=True, **fields):
        o = self.new_obj(st, lazy=name if lazy else None, size=self.prog.sizeof(cls), tag=cls)
        p = Ptr(o, 0)
        st.null[o] = False
        for k, v in fields.items():
            self.setf(st, p, cls, k, v)
        return p

    def off(self, cls, field):
        """offset,size,kind for dotted field path"""
        parts = field.split('.')
        off = 0
        cur = cls
        info = None
        for q in parts:
            lay = self.prog.layout(cur)
            if q not in lay:
                raise Missing('no field %s in %s' % (q, cur))
            info = lay[q]
            off += info[0]
            cur = info[2]
        return off, info[1], info[3], info[2]

    def setf(self, st, p, cls, field, v):
        off, size, kind, tn = self.off(cls, field)
        if kind == 'struct' and isinstance(v, tuple):
            # vec2-like
            lay = self.prog.layout(tn)
            names = [n for n in lay if lay[n][3] != 'struct']
            for n, x in zip(names, v):
                o2, s2 = lay[n][0], lay[n][1]
                self.store(st, p.add(off + o2), self.coerce(x, lay[n][3]), s2)
            return
        self.store(st, p.add(off), self.coerce(v, kind), size)

    def coerce(self, v, kind):
        if kind == 'double' and isinstance(v, (int, float, F)):
            return R.c(v)
        if isinstance(v, bool):
            return int(v)
        if kind == 'ptr' and v is None:
            return NULL
        return v

    KT = {'double': ('double',), 'ptr': ('ptr',)}

    def getf(self, st, p, cls, field):
        off, size, kind, tn = self.off(cls, field)
        if kind == 'struct':
            lay = self.prog.layout(tn)
            names = [n for n in lay if lay[n][3] != 'struct']
            return tuple(self.load(st, p.add(off + lay[n][0]), self.KT.get(lay[n][3], ('i', lay[n][1] * 8))) for n in names)
        return self.load(st, p.add(off), self.KT.get(kind, ('i', size * 8)))

    # ------------------------------------------------------------ memory
    def check_deref(self, st, p):
        if not isinstance(p, Ptr):
            self.used(st, p)
            raise PathEnd('deref of non-pointer %r' % (p,))
        if p.o == 0:
            st.events.append(('null_deref', st.stack))
            raise PathEnd('null deref')
        if p.o not in st.mem:
            if isinstance(p.o, tuple) and p.o[0] == 'g':
                self.materialise_global(st, p.o)
                if p.o in st.mem:
                    return
            raise PathEnd('deref of %r' % (p,))
        if st.mem[p.o].freed:
            raise PathEnd('use after free')
        if st.null.get(p.o, False) is None:
            st.events.append(('maybe_null_deref', p.o, st.stack))
            st.null[p.o] = False

    def release(self, st, p):
        """operator delete / free"""
        if not isinstance(p, Ptr) or p.o == 0 or p.o not in st.mem:
            return
        ob = st.wobj(p.o)
        if ob.freed:
            raise PathEnd('double free')
        if p.off != 0 or ob.tag in ('alloca',):
            raise PathEnd('release of memory that was not allocated')
        ob.freed = True

    def materialise_global(self, st, key):
        _, mod, name = key
        m = mod
        raw = m.globals_raw.get(name)
        if raw is not None and (raw.startswith('external') or ' external ' in raw.split('constant')[0].split('global')[0]):
            raw = None
        if raw is None:
            for mm in self.prog.modules:
                r = mm.globals_raw.get(name)
                if r and not re.match(r'(?:[a-z_]+ )*external ', r):
                    raw = r
                    m = mm
                    break
        ob = Obj(st.tok, lazy='@' + name)
        st.mem[key] = ob
        st.null[key] = False
        if raw is None:
            return
        mt = re.search(r'\b(constant|global) ', raw)
        if not mt:
            return
        from irload import TP, const_value
        t = TP(raw, mt.end())
        try:
            ty = t.type()
            v = const_value(m, ty, t)
        except Unsupported:
            return
        ob.lazy = None
        self.store_const(st, m, Ptr(key, 0), ty, v)
        if mt.group(1) == 'constant':
            ob.tag = 'const'

    def store_const(self, st, mod, p, ty, v):
        if v[0] == 'agg':
            fl = mod.fields(ty)
            for (off, ety), ev in zip(fl, v[2]):
                self.store_const(st, mod, p.add(off), ety, ev)
        elif v[0] == 'zero':
            ob = st.wobj(p.o)
            ob.zero = True
        else:
            self.store(st, p, self.operand(st, mod, {}, ty, v), mod.sizeof(ty))

    def addr(self, st, p):
        """pointer as integer value"""
        if p.o == 0:
            return p.off
        base = R(Poly.var(atom('addr', 'addr(%s)' % (p.o,), None, True)))
        off = p.off if isinstance(p.off, R) else R.c(p.off)
        return base + off

    def load(self, st, p, ty, mod=None):
        self.check_deref(st, p)
        ob = st.mem[p.o]
        if ty[0] in ('struct', 's', 'arr', 'vec'):
            fl = mod.fields(ty)
            return Agg([self.load(st, p.add(off), ety, mod) for off, ety in fl])
        size = self.tsize(ty)
        c = ob.cells.get(p.off)
        if c is not None:
            v, s = c
            if s == size:
                return v
            if isinstance(v, int) and s > size and ty[0] == 'i':
                return wrap(v, size * 8)
            if s < size:
                return self.load_raw(st, p, size)
            if isinstance(v, Raw) and s > size:
                for o, sz, val in v.cells:
                    if o == 0 and sz == size:
                        return val
            return TOP
        if isinstance(p.off, int):
            # overlapping?
            for o, (v, s) in ob.cells.items():
                if isinstance(o, int) and o < p.off + size and p.off < o + s:
                    if o < p.off and isinstance(v, Raw):
                        for ro, rs, rv in v.cells:
                            if o + ro == p.off and rs == size:
                                return rv
                    if o >= p.off:
                        return self.load_raw(st, p, size)
                    if isinstance(v, int) and ty[0] == 'i':
                        return wrap(v >> (8 * (p.off - o)), size * 8)
                    return TOP
            if ob.ranges:
                for (do, n, so_obj, so) in reversed(ob.ranges):
                    if do <= p.off and p.off + size <= do + n:
                        # initial content of a lazy source
                        v = self.lazy_value(st, so_obj, so + p.off - do, ty)
                        st.wobj(p.o).cells[p.off] = (v, size)
                        return v
        if ob.zero:
            return NULL if ty[0] == 'ptr' else R.c(0) if ty[0] == 'double' else 0
        if ob.lazy is not None:
            v = self.lazy_value(st, p.o, p.off, ty, ob.lazy)
            st.wobj(p.o).cells[p.off] = (v, size)
            return v
        return UNDEF

    def lazy_value(self, st, o, off, ty, name=None):
        if name is None:
            name = st.mem[o].lazy if o in st.mem and st.mem[o].lazy else 'obj%s' % (o,)
        nm = '%s[%s]' % (name, off)
        if ty[0] == 'double':
            return sym(nm)
        if ty[0] == 'i':
            return sym(nm, True)
        if ty[0] == 'ptr':
            key = ('L', nm)
            if key not in st.mem:
                st.mem[key] = Obj(st.tok, lazy=nm)
                st.null[key] = None
            return Ptr(key, 0)
        return TOP

    def load_raw(self, st, p, size):
        ob = st.mem[p.o]
        cells = []
        for o, (v, s) in sorted((x for x in ob.cells.items() if isinstance(x[0], int)), key=lambda x: x[0]):
            if p.off <= o and o + s <= p.off + size:
                cells.append((o - p.off, s, v))
        if all(isinstance(c[2], int) for c in cells) and size <= 8 and sum(c[1] for c in cells) == size:
            r = 0
            for o, s, v in cells:
                r |= (v & ((1 << (8 * s)) - 1)) << (8 * o)
            return wrap(r, size * 8)
        return Raw(cells, size)

    def store(self, st, p, v, size):
        self.check_deref(st, p)
        ob = st.wobj(p.o)
        if isinstance(p.off, int):
            if p.off not in ob.cells or ob.cells[p.off][1] != size:
                for o in [o for o, (vv, s) in ob.cells.items() if isinstance(o, int) and o < p.off + size and p.off < o + s]:
                    del ob.cells[o]
            if ob.size is not None and p.off + size > ob.size:
                st.events.append(('oob_store', p.o, p.off, size, ob.size, st.stack))
            elif p.off < 0:
                st.events.append(('oob_store', p.o, p.off, size, ob.size, st.stack))
        if isinstance(v, Raw):
            for o, s, val in v.cells:
                ob.cells[p.off + o] = (val, s)
            return
        ob.cells[p.off] = (v, size)

    def store_typed(self, st, p, v, ty, mod):
        if isinstance(v, Agg):
            for (off, ety), x in zip(mod.fields(ty), v.v):
                self.store_typed(st, p.add(off), x, ety, mod)
            return
        if ty[0] in ('struct', 's', 'arr', 'vec'):
            if v is UNDEF or v is TOP:
                for (off, ety) in mod.fields(ty):
                    self.store_typed(st, p.add(off), v, ety, mod)
                return
        self.store(st, p, v, mod.sizeof(ty))

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        self.check_deref(st, d)
        self.check_deref(st, s)
        if not (isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int)):
            if isinstance(n, int):
                # symbolic offsets: copy exact-keyed 8 byte cells
                for k in range(0, n, 8):
                    v = self.load(st, s.add(k), ('double',))
                    self.store(st, d.add(k), v, 8)
                return
            st.events.append(('sym_memcpy', st.stack))
            raise PathEnd('symbolic memcpy')
        so = st.mem[s.o]
        moved = []
        for o, (v, sz) in so.cells.items():
            if isinstance(o, int) and s.off <= o and o + sz <= s.off + n:
                moved.append((o - s.off, v, sz))
        do = st.wobj(d.o)
        if do.size is not None and d.off + n > do.size:
            st.events.append(('oob_store', d.o, d.off, n, do.size, st.stack))
        for o in [o for o, (vv, sz) in do.cells.items() if isinstance(o, int) and o < d.off + n and d.off < o + sz]:
            del do.cells[o]
        if so.lazy is not None or so.ranges:
            if do.ranges is None:
                do.ranges = []
            if so.lazy is not None:
                do.ranges.append((d.off, n, s.o, s.off))
            if so.ranges:
                for (a, ln, o2, off2) in so.ranges:
                    lo = max(a, s.off)
                    hi = min(a + ln, s.off + n)
                    if lo < hi:
                        do.ranges.append((d.off + lo - s.off, hi - lo, o2, off2 + lo - a))
        elif do.lazy is not None or do.zero:
            covered = set()
            for o, v, sz in moved:
                covered.update(range(o, o + sz))
            # uncovered bytes become undefined (or zero)
            for k in range(0, n, 8):
                if k not in covered and k + 8 <= n:
                    do.cells[d.off + k] = ((0 if so.zero else UNDEF), 8)
        for o, v, sz in moved:
            do.cells[d.off + o] = (v, sz)

    def tsize(self, ty):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return s
        if k in ('double', 'ptr'):
            return 8
        if k == 'float':
            return 4
        return 16

    # ------------------------------------------------------------ conditions
    def cond_r(self, st, r, signs):
        """truth of sign(r) in signs -> 0/1/Cond"""
        f = st.facts
        s = f.rsign(r)
        if s <= signs:
            return 1
        if not (s & signs):
            return 0
        p = f.rpoly(r)
        fl, q = norm(p)
        return Cond('s', q, flip(signs) if fl else frozenset(signs))

    def decide(self, st, c):
        if isinstance(c, int):
            return bool(c)
        if c is TOP or c is UNDEF:
            return None
        if isinstance(c, Cond):
            if c.k == 's':
                s = st.facts.signs(c.a)
                if s <= c.b:
                    return True
                if not (s & c.b):
                    return False
                return None
            if c.k == 'n':
                v = st.null.get(c.a, False)
                if v is None:
                    return None
                return v == c.b
            if c.k == 'x':
                v = st.user.get(('x', c.a))
                if v is None:
                    return None
                return v == c.b
        if isinstance(c, R):
            return self.decide(st, self.cond_r(st, c, NE))
        raise Unsupported('decide %r' % (c,))

    def assume(self, st, c, truth):
        """mutates st; returns feasibility"""
        if isinstance(c, int):
            return bool(c) == truth
        if c is TOP or c is UNDEF:
            return True
        if isinstance(c, R):
            return self.assume(st, self.cond_r(st, c, NE), truth)
        if not truth:
            c = c.neg()
        if c.k == 's':
            return st.facts.assume(c.a, c.b)
        if c.k == 'n':
            v = st.null.get(c.a, False)
            if v is None:
                st.null[c.a] = c.b
                return True
            return v == c.b
        if c.k == 'x':
            v = st.user.get(('x', c.a))
            if v is None:
                st.user[('x', c.a)] = c.b
                return True
            return v == c.b
        return True

    def isnull(self, st, p):
        """1/0/Cond"""
        if p is UNDEF or p is TOP:
            return TOP
        if isinstance(p, Ptr):
            if p.o == 0:
                return 1 if p.off == 0 else 0
            v = st.null.get(p.o, False)
            if v is None:
                return Cond('n', p.o, True)
            return 1 if v else 0
        if isinstance(p, int):
            return int(p == 0)
        return TOP

    # ------------------------------------------------------------ operands
    def operand(self, st, mod, regs, ty, a):
        k = a[0]
        if k == 'r':
            return regs[a[1]]
        if k == 'c':
            return wrap(a[1], ty[1]) if ty[0] == 'i' and ty[1] > 1 else (a[1] & 1 if ty[0] == 'i' else a[1])
        if k == 'f':
            f = a[1]
            if f != f or f in (float('inf'), float('-inf')):
                if f == float('inf'):
                    return R.c(F(10) ** 400)
                if f == float('-inf'):
                    return R.c(-F(10) ** 400)
                return app('nan')
            return R.c(f)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(mod, ty)
        if k == 'g':
            name = a[1]
            if self.prog.resolve(mod, name) is not None or name in mod.decls:
                return Ptr(('f', name), 0)
            return Ptr(self.gkey(mod, name), 0)
        if k == 'agg':
            return Agg([self.operand(st, mod, regs, t, v) for t, v in zip(a[1], a[2])])
        if k == 'gep':
            return self.gep(st, mod, regs, a[1], a[2], a[3])
        if k == 'cast':
            return self.cast(st, a[1], a[2], self.operand(st, mod, regs, a[2], a[3]), a[4])
        if k == 'bin':
            return self.binop(st, a[1], a[2], self.operand(st, mod, regs, a[2], a[3]), self.operand(st, mod, regs, a[2], a[4]))
        raise Unsupported('operand %r' % (a,))

    def gkey(self, mod, name):
        raw = mod.globals_raw.get(name, '')
        if re.match(r'(private|internal) ', raw):
            return ('g', mod, name)
        return ('g', self.prog.modules[0], name)

    def zero(self, mod, ty):
        if ty[0] == 'i':
            return 0
        if ty[0] in ('double', 'float'):
            return R.c(0)
        if ty[0] == 'ptr':
            return NULL
        if ty[0] in ('struct', 's', 'arr', 'vec'):
            return Agg([self.zero(mod, t) for _, t in mod.fields(ty)])
        return UNDEF

    def rounded(self, op, a, b):
        """floating-point operation with the exact cases kept apart (None: as usual)"""
        ea, eb = not isinstance(a, Rounded), not isinstance(b, Rounded)
        za, zb = ea and a.n.iszero(), eb and b.n.iszero()
        one = lambda x: x.isconst() and x.cv() == 1
        if op == 'fadd':
            if za:
                return b
            if zb:
                return a
            r = a + b
        elif op == 'fsub':
            if zb:
                return a
            if a is b or (ea and eb and a == b):
                return R.c(0)
            r = a - b
        elif op == 'fmul':
            if za or zb:
                return R.c(0)
            if ea and one(a):
                return b
            if eb and one(b):
                return a
            r = a * b
        elif op == 'fdiv':
            if b.n.iszero():
                return None
            if za:
                return R.c(0)
            if eb and one(b):
                return a
            r = a / b
        else:
            return None
        if ea and eb and a.isconst() and b.isconst():
            return r
        if ROOTS:
            r = unroot(r)
        return Rounded(r.n, r.d)

    def const_off(self, mod, bty, idx):
        """offset of an address computation with constant indices, else None"""
        off, cur, first = 0, bty, True
        for ity, iv in idx:
            if iv[0] != 'c' or ity[0] != 'i' or ity[1] <= 1:
                return None
            v = wrap(iv[1], ity[1])
            if first:
                off += v * mod.sizeof(cur)
                first = False
                continue
            if cur[0] == 's':
                cur = mod.named(cur[1])
            if cur[0] == 'struct':
                o, cur = mod.fields(cur)[v]
                off += o
            else:
                cur = cur[2]
                off += v * mod.sizeof(cur)
        return off

    def gep(self, st, mod, regs, bty, base, idx):
        p = self.operand(st, mod, regs, ('ptr',), base)
        if isinstance(p, Cond) or p is TOP or p is UNDEF:
            self.used(st, p)
            return TOP
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                p = Ptr(0, p)
            else:
                return TOP
        k = self.gepc.get(id(idx))
        if k is None or k[2] is not bty or k[3] is not mod:
            k = self.gepc[id(idx)] = (idx, self.const_off(mod, bty, idx), bty, mod)
        if k[1] is not None:
            return p.add(k[1])
        cur = bty
        first = True
        for ity, iv in idx:
            v = self.operand(st, mod, regs, ity, iv)
            if isinstance(v, Cond):
                raise NeedSplit(v)
            if v is UNDEF or v is TOP:
                return TOP
            if first:
                sz = mod.sizeof(cur)
                first = False
                if isinstance(v, int):
                    p = p.add(v * sz)
                else:
                    p = p.add(v * R.c(sz))
                continue
            if cur[0] == 's':
                cur = mod.named(cur[1])
            if cur[0] == 'struct':
                off, cur = mod.fields(cur)[v]
                p = p.add(off)
            else:
                ety = cur[2]
                sz = mod.sizeof(ety)
                p = p.add(v * sz if isinstance(v, int) else v * R.c(sz))
                cur = ety
        return p

    # ------------------------------------------------------------ arithmetic
    def used(self, st, *vs):
        """a computation, test or address uses these values"""
        if self.undef_log is not None and len(self.undef_log) < 20 and any(v is UNDEF for v in vs):
            self.undef_log.append((st.clone(), st.stack))

    def binop(self, st, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            self.used(st, a, b)
        if isinstance(a, int) and isinstance(b, int) and ty[0] == 'i':
            n = ty[1]
            if n == 1:
                a &= 1
                b &= 1
            if op == 'add':
                return wrap(a + b, n)
            if op == 'sub':
                return wrap(a - b, n)
            if op == 'mul':
                return wrap(a * b, n)
            if op in ('sdiv', 'srem'):
                if b == 0:
                    raise PathEnd('div by zero')
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return wrap(q, n) if op == 'sdiv' else wrap(a - q * b, n)
            m = (1 << n) - 1
            if op == 'udiv':
                return wrap((a & m) // (b & m), n)
            if op == 'urem':
                return wrap((a & m) % (b & m), n)
            if op == 'shl':
                return wrap(a << b, n)
            if op == 'lshr':
                return wrap((a & m) >> b, n)
            if op == 'ashr':
                return wrap(a >> b, n)
            if op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            else:
                raise Unsupported(op)
            return r if n == 1 else wrap(r, n)
        if ty == ('i', 1) or isinstance(a, Cond) or isinstance(b, Cond):
            if op == 'xor' and isinstance(b, int) and ty == ('i', 1):
                return (a.neg() if b & 1 else a) if isinstance(a, Cond) else TOP
            if op == 'xor' and isinstance(b, int) and isinstance(a, Cond) and b == 1:
                return a.neg()
            if op == 'and':
                if isinstance(b, int) and isinstance(a, Cond):
                    return a if b & 1 else 0
                if isinstance(a, int) and isinstance(b, Cond):
                    return b if a & 1 else 0
            if op == 'or' and ty == ('i', 1):
                if isinstance(b, int) and isinstance(a, Cond):
                    return 1 if b & 1 else a
                if isinstance(a, int) and isinstance(b, Cond):
                    return 1 if a & 1 else b
            for x in (a, b):
                if isinstance(x, Cond):
                    raise NeedSplit(x)
            return TOP
        if a is TOP or b is TOP or a is UNDEF or b is UNDEF:
            return TOP
        if isinstance(a, (Raw, Agg, Ptr)) or isinstance(b, (Raw, Agg, Ptr)):
            return TOP
        a = tonum(a)
        b = tonum(b)
        if self.track and op[0] == 'f' and isinstance(a, R) and isinstance(b, R):
            r = self.rounded(op, a, b)
            if r is not None:
                return r
        if op in ('add', 'fadd'):
            r = a + b
        elif op in ('sub', 'fsub'):
            r = a - b
        elif op in ('mul', 'fmul'):
            r = a * b
        elif op == 'fdiv':
            if b.n.iszero():
                st.events.append(('div0', st.stack))
                sa = st.facts.rsign(a)
                if sa == POS or sa == NEG:
                    return R.c(F(10) ** 400 if sa == POS else -F(10) ** 400)
                return app('divzero', a)
            r = a / b
        elif op in ('sdiv', 'udiv') and b.isconst() and b.cv() != 0:
            # exact when all coefficients are multiples
            r = a / b
            if not all(isinstance(c, int) for c in r.n.t.values()):
                r = app('idiv', a, b)
        elif op == 'shl' and b.isconst():
            r = a * R.c(1 << int(b.cv()))
        elif op == 'ashr' and b.isconst():
            r = a / R.c(1 << int(b.cv()))
            if not all(isinstance(c, int) for c in r.n.t.values()):
                r = app('ashr', a, b)
        else:
            r = app(op, a, b)
        if ROOTS and op[0] == 'f':
            return unroot(r)
        return simp(r) if ty[0] == 'i' else r

    def cast(self, st, op, sty, v, dty):
        if op in ('sext', 'zext'):
            if isinstance(v, int):
                if op == 'zext' or sty[1] == 1 and op == 'zext':
                    return v & ((1 << sty[1]) - 1)
                return wrap(v, sty[1]) if sty[1] > 1 else (-1 if v & 1 else 0)
            if isinstance(v, Cond) and op == 'sext':
                raise NeedSplit(v)
            return v
        if op == 'trunc':
            if isinstance(v, int):
                return wrap(v, dty[1]) if dty[1] > 1 else v & 1
            if dty == ('i', 1):
                if isinstance(v, Cond):
                    return v
                if isinstance(v, R):
                    return self.cond_r(st, v, NE)
                return TOP
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, Cond):
                raise NeedSplit(v)
            if isinstance(v, int):
                return R.c(v & ((1 << sty[1]) - 1) if op == 'uitofp' else v)
            return v
        if op in ('fpext', 'fptrunc'):
            return v
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, R):
                if v.isconst():
                    return int(v.cv())
                return app('toint', v)
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                if st.null.get(v.o, False) is None:
                    raise NeedSplit(Cond('n', v.o, True))
                if st.null.get(v.o, False):
                    return 0
                if self.int_ptr and isinstance(v.off, int):
                    k = self.int_ptr.setdefault(v.o, len(self.int_ptr) + 1)
                    self.int_ptr[('at', k)] = v.o
                    return (1 << 44) + (k << 20) + v.off
                if self.mem_order and isinstance(v.o, int) and isinstance(v.off, int):
                    return (1 << 46) + self.mem_order * v.o * (1 << 20) + v.off
                return simp(self.addr(st, v)) if not isinstance(self.addr(st, v), int) else self.addr(st, v)
            return v
        if op == 'inttoptr':
            if isinstance(v, int):
                if self.int_ptr and v >> 44 == 1 and ('at', (v - (1 << 44)) >> 20) in self.int_ptr:
                    return Ptr(self.int_ptr[('at', (v - (1 << 44)) >> 20)], v & ((1 << 20) - 1))
                return Ptr(0, v)
            return TOP
        if op == 'bitcast':
            if sty[0] == dty[0]:
                return v
            return TOP
        raise Unsupported(op)

    ICMP = {'eq': ZER, 'ne': NE, 'slt': NEG, 'sle': LE, 'sgt': POS, 'sge': GE, 'ult': NEG, 'ule': LE, 'ugt': POS, 'uge': GE}
    FC = {'oeq': ZER, 'ueq': ZER, 'one': NE, 'une': NE, 'olt': NEG, 'ult': NEG, 'ole': LE, 'ule': LE, 'ogt': POS,
          'ugt': POS, 'oge': GE, 'uge': GE}

    def icmp(self, st, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            self.used(st, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if op[0] == 'u':
                n = ty[1] if ty[0] == 'i' else 64
                m = (1 << n) - 1
                a &= m
                b &= m
            d = (a > b) - (a < b)
            return int(d in self.ICMP[op])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                return TOP
            if op in ('eq', 'ne'):
                if a.o == b.o:
                    if isinstance(a.off, int) and isinstance(b.off, int):
                        r = int(a.off == b.off)
                    else:
                        r = self.cond_r(st, tonum(a.off) - tonum(b.off), ZER)
                elif b.o == 0 and b.off == 0:
                    r = self.isnull(st, a)
                elif a.o == 0 and a.off == 0:
                    r = self.isnull(st, b)
                else:
                    # distinct objects; both null is the only way to be equal
                    na, nb = self.isnull(st, a), self.isnull(st, b)
                    for x in (na, nb):
                        if isinstance(x, Cond):
                            raise NeedSplit(x)
                    r = int(bool(na) and bool(nb))
                if op == 'ne':
                    r = (1 - r) if isinstance(r, int) else r.neg()
                return r
            if self.mem_order and a.o != b.o and isinstance(a.o, int) and isinstance(b.o, int) and a.o and b.o:
                return self.cond_r(st, R.c(self.mem_order * (a.o - b.o)), self.ICMP[op])
            d = tonum(self.addr(st, a)) - tonum(self.addr(st, b))
            return self.cond_r(st, d, self.ICMP[op])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Cond):
                if isinstance(y, int) and op in ('eq', 'ne'):
                    if y not in (0, 1):
                        return int(op == 'ne')
                    t = (y == 1) == (op == 'eq')
                    return x if t else x.neg()
                raise NeedSplit(x)
        if a is TOP or b is TOP or a is UNDEF or b is UNDEF or isinstance(a, Raw) or isinstance(b, Raw):
            return TOP
        return self.cond_r(st, tonum(a) - tonum(b), self.ICMP[op])

    # ------------------------------------------------------------ running
    def hook(self, pattern, fn):
        self.hooks.append((re.compile(pattern), fn))
        self.hook_cache = {}

    def find_hook(self, name, dem):
        h = self.hook_cache.get(name, 0)
        if h != 0:
            return h
        h = None
        for r, f in reversed(self.hooks):
            if r.fullmatch(dem) or r.fullmatch(name):
                h = f
                break
        self.hook_cache[name] = h
        return h

    def call(self, st, callee, args, site=None):
        """callee: Fn or Ptr; returns list of (state, value)"""
        from irload import Fn
        if isinstance(callee, Ptr):
            o = callee.o
            if isinstance(o, tuple) and o[0] == 'f':
                name = o[1]
                mod = site[0].mod if site else None
                f = self.prog.resolve(mod, name)
                dem = self.prog.demangle(name)
                h = self.find_hook(name, dem)
                if h is not None:
                    return h(self, st, args, f, dem)
                if f is None:
                    self.unknown[dem] = self.unknown.get(dem, 0) + 1
                    st.events.append(('ext', dem, args, st.stack))
                    return [(st, TOP)]
                return self.run(f, args, st)
            if isinstance(o, tuple) and o[0] == 'cb':
                if self.cb is not None:
                    return self.cb(self, st, o[1], args)
                st.events.append(('cb', o[1], tuple(args), st.stack))
                return [(st, TOP)]
            if o == 0:
                st.events.append(('null_call', st.stack))
                self.ended(st, 'null call', st.stack)
                return []
            if isinstance(o, tuple) and o[0] == 'L':
                if st.null.get(o) is None:
                    st.events.append(('maybe_null_call', o, st.stack))
                st.events.append(('cb', o[1], tuple(args), st.stack))
                return [(st, TOP)]
            raise Unsupported('call through %r' % (callee,))
        if isinstance(callee, Fn):
            h = self.find_hook(callee.name, callee.demangled)
            if h is not None:
                return h(self, st, args, callee, callee.demangled)
            return self.run(callee, args, st)
        if callee is TOP or callee is UNDEF:
            st.events.append(('undef_call', st.stack))
            self.ended(st, 'undef call' if callee is UNDEF else 'top call', st.stack)
            return []
        raise Unsupported('call %r' % (callee,))

    def run(self, fn, args, st):
        fn.parse()
        self.visited.add(fn.name)
        regs = {}
        mod = fn.mod
        for (ty, nm), a, bv in zip(fn.params, args, fn.byval):
            if bv is not None and isinstance(a, Ptr):
                o = self.new_obj(st, tag='byval')
                n = mod.sizeof(bv)
                self.memcpy(st, Ptr(o, 0), a, n)
                a = Ptr(o, 0)
            regs[nm] = a
        outs = []
        inv = next(_tok)
        base_stack = st.stack
        if len(base_stack) > 120:
            raise Budget('recursion depth')
        work = [(fn.entry, None, st, regs, 0)]
        while work:
            blk, prev, st, regs, idx = work.pop()
            while True:   # run block
                insts = fn.block(blk)
                if idx == 0:
                    k = regs.get('#n', 0) + 1
                    regs['#n'] = k
                    if k > self.loop_watch and self.cycling(st, regs, blk):
                        st.events.append(('nonterm', base_stack + ((fn, insts[0].dbg),)))
                        self.ended(st, 'nonterm', base_stack + ((fn, insts[0].dbg),))
                        break
                n = len(insts)
                jumped = False
                try:
                    while idx < n:
                        ins = insts[idx]
                        self.steps += 1
                        if self.steps > self.max_steps:
                            raise Budget('steps')
                        if not self.steps & 4095 and time.time() > self.deadline:
                            raise Budget('time')
                        op = ins.op
                        a = ins.a
                        if op == 'load':
                            p = self.operand(st, mod, regs, ('ptr',), a[1])
                            if isinstance(p, Ptr):
                                if p.o == 0 or st.null.get(p.o, False) is None:
                                    st.stack = base_stack + ((fn, ins.dbg),)
                            regs[ins.dst] = self.load(st, p, a[0], mod)
                        elif op == 'store':
                            v = self.operand(st, mod, regs, a[0], a[1])
                            p = self.operand(st, mod, regs, ('ptr',), a[2])
                            st.stack = base_stack + ((fn, ins.dbg),)
                            self.store_typed(st, p, v, a[0], mod)
                        elif op == 'gep':
                            regs[ins.dst] = self.gep(st, mod, regs, a[0], a[1], a[2])
                        elif op == 'alloca':
                            cnt = 1
                            if a[1] is not None:
                                cnt = self.operand(st, mod, regs, ('i', 64), a[1])
                            sz = mod.sizeof(a[0]) * cnt if isinstance(cnt, int) else None
                            regs[ins.dst] = Ptr(self.new_obj(st, size=sz, tag='alloca'), 0)
                        elif op == 'bin':
                            regs[ins.dst] = self.binop(st, a[0], a[1], self.operand(st, mod, regs, a[1], a[2]),
                                                       self.operand(st, mod, regs, a[1], a[3]))
                        elif op == 'fneg':
                            v = self.operand(st, mod, regs, a[0], a[1])
                            r = -v if isinstance(v, R) else TOP
                            if self.track and isinstance(v, Rounded):
                                r = Rounded(r.n, r.d)
                            regs[ins.dst] = r
                        elif op == 'icmp':
                            regs[ins.dst] = self.icmp(st, a[0], a[1], self.operand(st, mod, regs, a[1], a[2]),
                                                      self.operand(st, mod, regs, a[1], a[3]))
                        elif op == 'fcmp':
                            x = self.operand(st, mod, regs, a[1], a[2])
                            y = self.operand(st, mod, regs, a[1], a[3])
                            if a[0] == 'ord':
                                r = 1
                            elif a[0] == 'uno':
                                r = 0
                            elif a[0] == 'true':
                                r = 1
                            elif a[0] == 'false':
                                r = 0
                            elif isinstance(x, R) and isinstance(y, R):
                                r = self.cond_r(st, x - y, self.FC[a[0]])
                            else:
                                self.used(st, x, y)
                                r = TOP
                            regs[ins.dst] = r
                        elif op == 'cast':
                            regs[ins.dst] = self.cast(st, a[0], a[1], self.operand(st, mod, regs, a[1], a[2]), a[3])
                        elif op == 'call':
                            rty, callee, cargs, normal = a
                            cv = self.operand(st, mod, regs, ('ptr',), callee)
                            avs = []
                            for aty, av, bv in cargs:
                                v = self.operand(st, mod, regs, aty, av)
                                avs.append(v)
                            st.stack = base_stack + ((fn, ins.dbg),)
                            res = self.call(st, cv, avs, (fn, ins))
                            if not res:
                                raise PathEnd('no outcome')
                            for s2, v2 in res:
                                if v2 is TOP and rty[0] != 'void' and rty[0] == 'double':
                                    pass
                            if len(res) == 1:
                                st, v = res[0]
                                st.stack = base_stack
                                if ins.dst:
                                    regs[ins.dst] = v
                                if normal:
                                    prev, blk, idx = blk, normal, 0
                                    jumped = True
                                    break
                            else:
                                for s2, v2 in res:
                                    s2.stack = base_stack
                                    r2 = dict(regs)
                                    if ins.dst:
                                        r2[ins.dst] = v2
                                    if normal:
                                        work.append((normal, blk, s2, r2, 0))
                                    else:
                                        work.append((blk, prev, s2, r2, idx + 1))
                                if len(work) > self.max_states:
                                    raise Budget('states')
                                raise PathEnd('forked')
                        elif op == 'br':
                            prev, blk, idx = blk, a[0], 0
                            jumped = True
                            break
                        elif op == 'cbr':
                            c = self.operand(st, mod, regs, ('i', 1), a[0])
                            d = self.decide(st, c)
                            if d is None:
                                key = (inv, blk, idx)
                                k = st.und.get(key, 0)
                                if k >= self.unroll:
                                    self.bound_hits.append((fn, ins.dbg))
                                    # leave through either edge only once more is not sound; drop
                                    raise PathEnd('unroll bound')
                                st.und[key] = k + 1
                                s2 = st.clone()
                                if self.assume(s2, c, False):
                                    s2.stack = base_stack
                                    work.append((a[2], blk, s2, dict(regs), 0))
                                if not self.assume(st, c, True):
                                    raise PathEnd('infeasible')
                                self.used(st, c)
                                if c is TOP or c is UNDEF:
                                    ev = ('top_branch' if c is TOP else 'undef_branch', base_stack + ((fn, ins.dbg),))
                                    st.events.append(ev)
                                    s2.events.append(ev)
                                if len(work) > self.max_states:
                                    raise Budget('states')
                                d = True
                            prev, blk, idx = blk, (a[1] if d else a[2]), 0
                            jumped = True
                            break
                        elif op == 'phi':
                            # evaluate all phis of the block simultaneously
                            vals = []
                            while idx < n and insts[idx].op == 'phi':
                                pi = insts[idx]
                                for v, b in pi.a[1]:
                                    if b == prev:
                                        vals.append((pi.dst, self.operand(st, mod, regs, pi.a[0], v)))
                                        break
                                idx += 1
                            for d_, v_ in vals:
                                regs[d_] = v_
                            continue
                        elif op == 'switch':
                            v = self.operand(st, mod, regs, a[0], a[1])
                            if isinstance(v, Cond):
                                raise NeedSplit(v)
                            tgt = a[2]
                            if isinstance(v, int):
                                for cv_, lab in a[3]:
                                    if cv_ == v:
                                        tgt = lab
                                        break
                            elif isinstance(v, R):
                                for cv_, lab in a[3]:
                                    c = self.cond_r(st, v - R.c(cv_), ZER)
                                    d = self.decide(st, c)
                                    if d is None:
                                        raise NeedSplit(c)
                                    if d:
                                        tgt = lab
                                        break
                            else:
                                for lab in set(l for _, l in a[3]):
                                    s2 = st.clone()
                                    s2.events.append(('top_branch', base_stack + ((fn, ins.dbg),)))
                                    work.append((lab, blk, s2, dict(regs), 0))
                                st.events.append(('top_branch', base_stack + ((fn, ins.dbg),)))
                            prev, blk, idx = blk, tgt, 0
                            jumped = True
                            break
                        elif op == 'ret':
                            v = None
                            if a is not None:
                                v = self.operand(st, mod, regs, a[0], a[1])
                            st.stack = base_stack
                            outs.append((st, v))
                            if len(outs) > self.max_states:
                                raise Budget('states')
                            raise PathEnd('ret')
                        elif op == 'select':
                            c = self.operand(st, mod, regs, ('i', 1), a[0])
                            x = self.operand(st, mod, regs, a[1], a[2])
                            y = self.operand(st, mod, regs, a[1], a[3])
                            d = self.decide(st, c)
                            if d is None:
                                if c is TOP or c is UNDEF:
                                    regs[ins.dst] = TOP
                                else:
                                    raise NeedSplit(c)
                            else:
                                regs[ins.dst] = x if d else y
                        elif op == 'extract':
                            v = self.operand(st, mod, regs, a[0], a[1])
                            for i in a[2]:
                                v = v.v[i] if isinstance(v, Agg) else v if (v is TOP or v is UNDEF) else TOP
                            regs[ins.dst] = v
                        elif op == 'insert':
                            v = self.operand(st, mod, regs, a[0], a[1])
                            e = self.operand(st, mod, regs, a[2], a[3])
                            regs[ins.dst] = self.insertv(mod, a[0], v, e, a[4])
                        elif op == 'freeze':
                            regs[ins.dst] = self.operand(st, mod, regs, a[0], a[1])
                        elif op == 'unreachable':
                            raise PathEnd('unreachable')
                        elif op in ('landingpad', 'resume', 'fence'):
                            raise PathEnd('eh')
                        else:
                            raise Unsupported('inst ' + ins.text)
                        idx += 1
                except NeedSplit as e:
                    s2 = st.clone()
                    s2.stack = base_stack
                    if self.assume(s2, e.cond, False):
                        work.append((blk, prev, s2, dict(regs), idx))
                    if self.assume(st, e.cond, True):
                        st.stack = base_stack
                        work.append((blk, prev, st, regs, idx))
                    if len(work) > self.max_states:
                        raise Budget('states')
                    break
                except PathEnd as e:
                    if e.why not in ('ret', 'forked', 'no outcome', 'infeasible', 'unreachable', 'eh'):
                        self.ended(st, e.why, base_stack + ((fn, ins.dbg),))
                    break
                if not jumped:
                    raise Unsupported('fell off block')
        return outs

    def cycling(self, st, regs, blk):
        """the same block is re-entered with exactly the same abstract state"""
        rv = [(k, v) for k, v in regs.items() if k[0] != '#' and isinstance(v, (int, Ptr, R))]
        todo = [v.o for _, v in rv if isinstance(v, Ptr)]
        cells, done = [], set()
        while todo:
            o = todo.pop()
            if o in done or o not in st.mem:
                continue
            done.add(o)
            for c, v in st.mem[o].cells.items():
                v = v[0]
                if isinstance(v, Ptr):
                    todo.append(v.o)
                cells.append((o, c, v if isinstance(v, (int, Ptr, R)) else id(v)))
        sig = hash((frozenset(rv), frozenset(cells), len(st.facts.f)))
        seen = regs.get('#sig')
        if seen is None:
            seen = ()
        if (blk, sig) in seen:
            return True
        regs['#sig'] = (seen + ((blk, sig),))[-40:]
        return False

    def ended(self, st, why, stack):
        self.dead.append((st, why, stack))



    def insertv(self, mod, ty, v, e, idx):
        if not isinstance(v, Agg):
            v = Agg([UNDEF] * len(mod.fields(ty)))
        v = Agg(list(v.v))
        if len(idx) == 1:
            v.v[idx[0]] = e
        else:
            ety = mod.fields(ty)[idx[0]][1]
            v.v[idx[0]] = self.insertv(mod, ety, v.v[idx[0]], e, idx[1:])
        return v

    # ------------------------------------------------------------ entry
    def analyse(self, fn, args, st):
        """top-level call; resets per-run bookkeeping"""
        return self.call(st, fn, args)

    def fmt_stack(self, stack, last=None):
        """'file:line in function' of the innermost frame located in the repository"""
        from irload import REPO
        best = None
        for fn, dbg in stack:
            w = self.prog.where(fn, dbg)
            d = fn.demangled
            if w.startswith('src/') or w.startswith('debug_util') or w.startswith(REPO):
                best = '%s in %s' % (w, d.split('(')[0])
        if best is None and stack:
            fn, dbg = stack[-1]
            best = '%s in %s' % (self.prog.where(fn, dbg), fn.demangled)
        return best or '?'
