"""Models of externals: allocation, libm, libstdc++ non-template helpers, boost pools."""
from fractions import Fraction as F
from poly import ROOTS, Poly, R, sym, app, ATOMS, ONE, ZERO
from facts import POS, NEG, ZER, GE, LE, NE, rfun_root, poly_root
import math


def install(E):
    from engine import Ptr, NULL, TOP, UNDEF, Cond, NeedSplit, PathEnd, tonum, Obj

    def h(pat):
        def deco(f):
            E.hook(pat, f)
            return f
        return deco

    @h(r'llvm\.(lifetime|dbg|assume|experimental|invariant|var\.annotation|donothing|stacksave|stackrestore).*')
    def nop(e, st, a, f, d):
        return [(st, UNDEF)]

    @h(r'llvm\.is\.constant.*')
    def is_const(e, st, a, f, d):
        return [(st, 0)]

    @h(r'llvm\.expect.*')
    def expect_(e, st, a, f, d):
        return [(st, a[0])]

    @h(r'llvm\.mem(cpy|move).*|memcpy|memmove|__builtin_memmove')
    def memcpy(e, st, a, f, d):
        dst, src, n = a[0], a[1], a[2]
        if not isinstance(n, int):
            n = tonum(n)
            if isinstance(n, R) and n.isconst():
                n = int(n.cv())
        if n == 0:
            return [(st, dst)]
        e.memcpy(st, dst, src, n)
        return [(st, dst)]

    @h(r'llvm\.memset.*|memset')
    def memset(e, st, a, f, d):
        p, v, n = a[0], a[1], a[2]
        if v == 0 and isinstance(n, int) and isinstance(p, Ptr):
            if n == 0:
                return [(st, p)]
            ob = st.wobj(p.o)
            for o in [o for o, (vv, sz) in ob.cells.items() if isinstance(o, int) and o < p.off + n and p.off < o + sz]:
                del ob.cells[o]
            if not ob.cells and ob.size is not None and p.off == 0 and n >= ob.size:
                ob.zero = True
                ob.lazy = None
            else:
                e_zero_fill(st, ob, p.off, n)
            return [(st, p)]
        raise PathEnd('memset')

    def e_zero_fill(st, ob, off, n):
        # typed loads coerce: keep a zero range marker via 'Z' object
        if ob.ranges is None:
            ob.ranges = []
        ob.ranges.append((off, n, 'ZERO', 0))

    # lazy_value on 'ZERO' source
    orig = E.lazy_value

    def lazy_value(st, o, off, ty, name=None):
        if o == 'ZERO':
            return NULL if ty[0] == 'ptr' else R.c(0) if ty[0] == 'double' else 0
        return orig(st, o, off, ty, name)
    E.lazy_value = lazy_value

    # ---- allocation
    @h(r'operator new(\[\])?\(unsigned long(, std::align_val_t)?\)|malloc')
    def opnew(e, st, a, f, d):
        n = a[0] if isinstance(a[0], int) else None
        o = e.new_obj(st, size=n, tag='heap')
        st.null[o] = False
        st.events.append(('new', o, n, st.stack))
        return [(st, Ptr(o, 0))]

    @h(r'operator delete(\[\])?\(.*\)|free')
    def opdel(e, st, a, f, d):
        st.events.append(('delete', a[0], st.stack))
        e.release(st, a[0])
        return [(st, UNDEF)]

    @h(r'boost::object_pool<.*>::malloc\(\)')
    def pool_malloc(e, st, a, f, d):
        import re
        m = re.match(r'boost::object_pool<(.*), boost::default_user_allocator_new_delete>::malloc\(\)', d)
        cls = m.group(1) if m else d
        try:
            n = e.prog.sizeof(cls)
        except Exception:
            n = None
        o = e.new_obj(st, size=n, tag='pool:' + cls)
        st.null[o] = False
        st.events.append(('pool', cls, o, a[0], st.stack))
        return [(st, Ptr(o, 0))]

    @h(r'boost::object_pool<.*>::(free|destroy)\(.*\)')
    def pool_free(e, st, a, f, d):
        st.events.append(('pool_free', a[1], st.stack))
        e.release(st, a[1])
        return [(st, UNDEF)]

    @h(r'boost::object_pool<.*>::object_pool\(.*\)|boost::object_pool<.*>::~object_pool\(\)')
    def pool_ctor(e, st, a, f, d):
        return [(st, UNDEF)]

    # ---- exceptions / runtime
    @h(r'__cxa_throw|__cxa_rethrow|std::__throw_.*|abort|std::terminate\(\)|__clang_call_terminate|__assert_fail|_Unwind_Resume|exit|__cxa_pure_virtual')
    def thr(e, st, a, f, d):
        st.events.append(('throw', d, st.stack))
        e.ended(st, 'throw', st.stack)
        return []

    @h(r'__cxa_allocate_exception')
    def cxaalloc(e, st, a, f, d):
        o = e.new_obj(st, tag='exc')
        return [(st, Ptr(o, 0))]

    @h(r'__cxa_atexit|__cxa_guard_.*|__cxa_begin_catch|__cxa_end_catch|__cxa_free_exception')
    def cxanop(e, st, a, f, d):
        return [(st, 1)]

    # ---- libm
    def libm(fn, x):
        if x.isconst():
            c = x.cv()
            if abs(c) > 10 ** 300:
                if fn == 'atan':
                    return R.c(F(math.pi / 2 if c > 0 else -math.pi / 2))
            else:
                try:
                    return R.c(F(getattr(math, fn)(float(c))))
                except (ValueError, OverflowError, AttributeError, TypeError):
                    pass
        return app(fn, x)

    def num1(fn):
        def m(e, st, a, f, d):
            x = a[0]
            if not isinstance(x, R):
                return [(st, TOP)]
            return [(st, fn(e, st, x))]
        return m

    def root_of(c):
        """square root of a rational >= 0 as rational times the root of a whole number without small square factors"""
        k, n, d = 1, c.numerator * c.denominator, c.denominator
        for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
            while n and n % (p * p) == 0:
                n //= p * p
                k *= p
        from math import isqrt
        a = isqrt(n)
        if a * a == n:
            return R.c(F(a * k, d))
        x = app('sqrt', R.c(n))
        ROOTS[list(x.atoms())[0]] = n
        return x * R.c(F(k, d))

    def m_sqrt(e, st, x):
        if x.isconst():
            c = F(x.cv())
            if c >= 0:
                from math import isqrt
                a, b = isqrt(c.numerator), isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return R.c(F(a, b))
                return root_of(c)
        else:
            r = rfun_root(x, 2)
            if r is None and x.d == ONE:
                z = poly_root(x.n, 2)
                if z is not None and z[0] > 0:
                    sg = st.facts.signs(z[1])
                    if sg <= GE or sg <= LE:
                        return root_of(F(z[0])) * R(z[1] if sg <= GE else -z[1])
            if r is not None:
                sg = st.facts.rsign(r)
                if sg <= GE:
                    return r
                if sg <= LE:
                    return R.c(0) - r
        return app('sqrt', x)

    E.hook(r'sqrt|std::sqrt\(double\)|llvm\.sqrt\.f64', num1(m_sqrt))

    def m_cbrt(e, st, x):
        if x.isconst() and x.cv() == 0:
            return x
        r = rfun_root(x, 3)
        if r is not None:
            return r
        return app('cbrt', x)
    E.hook(r'cbrt|std::cbrt\(double\)', num1(m_cbrt))
    for fn in ('sin', 'cos', 'tan', 'atan', 'acos', 'asin', 'exp', 'log', 'floor', 'ceil', 'round', 'trunc'):
        E.hook(fn + r'|std::' + fn + r'\(double\)|llvm\.' + fn + r'\.f64', num1(lambda e, st, x, fn=fn: libm(fn, x)))
    for fn in ('atan2', 'remainder', 'fmod', 'copysign', 'hypot'):
        def m2(e, st, a, f, d, fn=fn):
            if isinstance(a[0], R) and isinstance(a[1], R):
                if fn == 'hypot':
                    return [(st, m_sqrt(e, st, a[0] * a[0] + a[1] * a[1]))]
                return [(st, app(fn, a[0], a[1]))]
            return [(st, TOP)]
        E.hook(fn + r'|std::' + fn + r'\(double, double\)|llvm\.' + fn + r'\.f64', m2)

    @h(r'pow|std::pow\(double, double\)|llvm\.pow\.f64|__gnu_cxx::__promote.*std::pow<.*|.*std::pow<.*>\(.*\)|llvm\.powi\..*')
    def m_pow(e, st, a, f, d):
        x, y = a[0], a[1]
        x = tonum(x)
        y = tonum(y)
        if isinstance(x, R) and isinstance(y, R) and y.isconst():
            c = y.cv()
            if isinstance(c, int) and 0 <= c <= 12:
                r = R.c(1)
                for _ in range(c):
                    r = r * x
                return [(st, r)]
            if c == F(1, 2):
                return [(st, m_sqrt(e, st, x))]
        if isinstance(x, R) and isinstance(y, R):
            return [(st, app('pow', x, y))]
        return [(st, TOP)]

    def split_abs(e, st, a, f, d):
        x = a[0]
        if isinstance(x, int):
            return [(st, abs(x))]
        if not isinstance(x, R):
            return [(st, TOP)]
        s = st.facts.rsign(x)
        if s <= GE:
            return [(st, x)]
        if s <= LE:
            return [(st, -x)]
        out = []
        s2 = st.clone()
        c = e.cond_r(st, x, GE)
        if e.assume(s2, c, False):
            out.append((s2, -x))
        if e.assume(st, c, True):
            out.append((st, x))
        return out
    E.hook(r'abs|std::abs\(.*\)|fabs|std::fabs\(double\)|llvm\.fabs\..*|llvm\.abs\..*|labs', split_abs)

    E.hook(r'std::isfinite\(double\)|isfinite|finite', lambda e, st, a, f, d: [(st, 1)])
    E.hook(r'std::isnan\(double\)|std::isinf\(double\)|isnan|isinf', lambda e, st, a, f, d: [(st, 0)])
    E.hook(r'llvm\.is\.fpclass.*', lambda e, st, a, f, d: [(st, TOP)])

    @h(r'std::signbit\(double\)')
    def m_signbit(e, st, a, f, d):
        if isinstance(a[0], R):
            return [(st, e.cond_r(st, a[0], NEG))]
        return [(st, TOP)]

    @h(r'llvm\.ctlz\..*')
    def m_ctlz(e, st, a, f, d):
        n = int(d.split('.i')[-1])
        v = a[0]
        if isinstance(v, int):
            v &= (1 << n) - 1
            return [(st, n - v.bit_length())]
        return [(st, TOP)]

    @h(r'llvm\.(u|s)(max|min)\..*')
    def m_umax(e, st, a, f, d):
        if isinstance(a[0], int) and isinstance(a[1], int):
            return [(st, max(a[0], a[1]) if 'max' in d else min(a[0], a[1]))]
        return [(st, TOP)]

    # ---- std::min / std::max on doubles: n-ary normal form
    def minmax(which):
        def args_of(x):
            if x.d == ONE and len(x.n.t) == 1:
                (m, c), = x.n.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    k, n, p, _ = ATOMS[m[0][0]]
                    if k == 'app' and n == which:
                        return list(p)
            return [x]

        def m(e, st, a, f, d):
            if 'double' not in d:
                if f is None:
                    return [(st, TOP)]
                return e.run(f, a, st)
            va = e.load(st, a[0], ('double',))
            vb = e.load(st, a[1], ('double',))
            if not (isinstance(va, R) and isinstance(vb, R)):
                if f is None:
                    return [(st, TOP)]
                return e.run(f, a, st)
            s = st.facts.rsign(va - vb)
            if s <= LE:
                return [(st, a[0] if which == 'min' else a[1])]
            if s <= GE:
                return [(st, a[1] if which == 'min' else a[0])]
            xs = args_of(va)
            for y in args_of(vb):
                if y not in xs:
                    xs.append(y)
            xs = sorted(xs, key=str)
            o = e.new_obj(st, tag='tmp')
            st.null[o] = False
            e.store(st, Ptr(o, 0), app(which, *xs) if len(xs) > 1 else xs[0], 8)
            return [(st, Ptr(o, 0))]
        return m
    E.hook(r'.*\bstd::min<double>\(double const&, double const&\)', minmax('min'))
    E.hook(r'.*\bstd::max<double>\(double const&, double const&\)', minmax('max'))

    # ---- libstdc++ list node primitives ({next, prev} at 0, 8)
    def ld(e, st, p, off=0):
        return e.load(st, p.add(off), ('ptr',))

    def sp(e, st, p, off, v):
        e.store(st, p.add(off), v, 8)

    @h(r'std::__detail::_List_node_base::_M_hook\(.*\)')
    def l_hook(e, st, a, f, d):
        this, pos = a
        prev = ld(e, st, pos, 8)
        sp(e, st, this, 0, pos)
        sp(e, st, this, 8, prev)
        sp(e, st, prev, 0, this)
        sp(e, st, pos, 8, this)
        return [(st, UNDEF)]

    @h(r'std::__detail::_List_node_base::_M_unhook\(.*\)')
    def l_unhook(e, st, a, f, d):
        n, p = ld(e, st, a[0], 0), ld(e, st, a[0], 8)
        sp(e, st, p, 0, n)
        sp(e, st, n, 8, p)
        return [(st, UNDEF)]

    @h(r'std::__detail::_List_node_base::_M_transfer\(.*\)')
    def l_transfer(e, st, a, f, d):
        this, first, last = a
        if this == last:
            return [(st, UNDEF)]
        lp = ld(e, st, last, 8)
        fp = ld(e, st, first, 8)
        tp = ld(e, st, this, 8)
        sp(e, st, lp, 0, this)
        sp(e, st, fp, 0, last)
        sp(e, st, tp, 0, first)
        sp(e, st, this, 8, lp)
        sp(e, st, last, 8, fp)
        sp(e, st, first, 8, tp)
        return [(st, UNDEF)]

    @h(r'std::__detail::_List_node_base::swap\(.*\)')
    def l_swap(e, st, a, f, d):
        x, y = a
        ex = ld(e, st, x, 0) == x
        ey = ld(e, st, y, 0) == y

        def relink(p):
            n, pv = ld(e, st, p, 0), ld(e, st, p, 8)
            sp(e, st, n, 8, p)
            sp(e, st, pv, 0, p)

        def swapraw():
            xn, xp, yn, yp = ld(e, st, x, 0), ld(e, st, x, 8), ld(e, st, y, 0), ld(e, st, y, 8)
            sp(e, st, x, 0, yn), sp(e, st, x, 8, yp), sp(e, st, y, 0, xn), sp(e, st, y, 8, xp)
        swapraw()
        if not ex and not ey:
            relink(x)
            relink(y)
        elif not ex:
            relink(y)
            sp(e, st, x, 0, x), sp(e, st, x, 8, x)
        elif not ey:
            relink(x)
            sp(e, st, y, 0, y), sp(e, st, y, 8, y)
        else:
            sp(e, st, x, 0, x), sp(e, st, x, 8, x), sp(e, st, y, 0, y), sp(e, st, y, 8, y)
        return [(st, UNDEF)]

    @h(r'std::__detail::_List_node_base::_M_reverse\(.*\)')
    def l_rev(e, st, a, f, d):
        t = a[0]
        while True:
            n, p = ld(e, st, t, 0), ld(e, st, t, 8)
            sp(e, st, t, 0, p)
            sp(e, st, t, 8, n)
            t = n
            if t == a[0]:
                break
        return [(st, UNDEF)]

    # ---- red-black tree primitives: colour@0 parent@8 left@16 right@24 (rebalancing omitted)
    @h(r'std::_Rb_tree_insert_and_rebalance\(.*\)')
    def rb_ins(e, st, a, f, d):
        left, x, p, hd = a
        sp(e, st, x, 8, p)
        sp(e, st, x, 16, NULL)
        sp(e, st, x, 24, NULL)
        e.store(st, x, 1, 4)
        if left:
            sp(e, st, p, 16, x)
            if p == hd:
                sp(e, st, hd, 8, x)
                sp(e, st, hd, 24, x)
            elif p == ld(e, st, hd, 16):
                sp(e, st, hd, 16, x)
        else:
            sp(e, st, p, 24, x)
            if p == ld(e, st, hd, 24):
                sp(e, st, hd, 24, x)
        return [(st, UNDEF)]

    def rb_next(e, st, x, L=16, Rr=24):
        if ld(e, st, x, Rr).o != 0:
            x = ld(e, st, x, Rr)
            while ld(e, st, x, L).o != 0:
                x = ld(e, st, x, L)
            return x
        y = ld(e, st, x, 8)
        while x == ld(e, st, y, Rr):
            x = y
            y = ld(e, st, y, 8)
        if ld(e, st, x, Rr) != y:
            x = y
        return x

    E.hook(r'std::_Rb_tree_increment\(.*\)', lambda e, st, a, f, d: [(st, rb_next(e, st, a[0]))])

    @h(r'std::_Rb_tree_decrement\(.*\)')
    def rb_dec(e, st, a, f, d):
        x = a[0]
        # header?
        par = ld(e, st, x, 8)
        col = e.load(st, x, ('i', 32))
        if col == 0 and par.o != 0 and ld(e, st, par, 8) == x:
            return [(st, ld(e, st, x, 24))]
        return [(st, rb_next(e, st, x, 24, 16))]

    @h(r'std::_Rb_tree_rebalance_for_erase\(.*\)')
    def rb_erase(e, st, a, f, d):
        z, hd = a
        # in-order list without z, rebuilt as a right spine
        nodes = []
        x = ld(e, st, hd, 16)
        while x != hd:
            nodes.append(x)
            x = rb_next(e, st, x)
        nodes = [n for n in nodes if n != z]
        if not nodes:
            sp(e, st, hd, 8, NULL)
            sp(e, st, hd, 16, hd)
            sp(e, st, hd, 24, hd)
        else:
            prev = hd
            for i, n in enumerate(nodes):
                sp(e, st, n, 8, prev)
                sp(e, st, n, 16, NULL)
                sp(e, st, n, 24, nodes[i + 1] if i + 1 < len(nodes) else NULL)
                prev = n
            sp(e, st, hd, 8, nodes[0])
            sp(e, st, hd, 16, nodes[0])
            sp(e, st, hd, 24, nodes[-1])
        return [(st, z)]

    @h(r'llvm\.fmuladd\.f64|fma|std::fma\(double, double, double\)|llvm\.fma\.f64')
    def m_fma(e, st, a, f, d):
        if all(isinstance(x, R) for x in a):
            return [(st, a[0] * a[1] + a[2])]
        return [(st, TOP)]
