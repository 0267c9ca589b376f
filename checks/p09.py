from geo import *
from poly import reduce_mod
import math

QR = 'rmath::quad_equa_result'
CR = 'rmath::cubic_equa_result'
from fractions import Fraction as F
M = R.c(F(1, 100))


def entries(e, s, out, cls, n):
    base = e.off(cls, 'data')[0]
    return [e.load(s, out.add(base + 8 * i), ('double',)) for i in range(n)]


def solve(ctx, e, st, f, cls, coefs, what, cap):
    out = sret(e, st, cls)
    for s, v in ctx.run(e, f, [out] + list(coefs), st, what):
        n = e.getf(s, out, cls, 'count')
        if not isinstance(n, int):
            ctx.expect(s, False if n is UNDEF else None, what + '/count', 'number of roots not known')
            continue
        yield s, n, entries(e, s, out, cls, min(n, cap))


def nonzero(st, r, sg):
    """|r| at least the margin, with the given sign"""
    fassume(st, (r - M) if sg > 0 else (r + M), POS if sg > 0 else NEG)
    return fassume(st, r, POS if sg > 0 else NEG)


def poly_at(coefs, x):
    r = R.c(0)
    for c in coefs:
        r = r * x + num(c)
    return r


def trig_reduce(s, res):
    """reduce residual modulo cos(3t)=4cos^3 t-3cos t with 3t = +-atan(T)+c or +-acos(X)+c"""
    rules = []
    ks = {}
    for a in sorted(res.deep_atoms()):
        k, nm, pl, _ = ATOMS[a]
        if k != 'app' or nm not in ('cos', 'sin'):
            continue
        arg = pl[0] * R.c(3)
        if nm == 'sin':
            return None
        inv = [b for b in arg.atoms() if ATOMS[b][0] == 'app' and ATOMS[b][1] in ('atan', 'acos')]
        if len(inv) != 1 or not arg.d.isconst():
            return None
        b = inv[0]
        cs = arg.n.coeffs_in(b)
        d = F(arg.d.constval())
        if set(cs) - {0, 1} or not cs[1].isconst() or abs(F(cs[1].constval()) / d) != 1:
            return None
        c0 = cs.get(0)
        if c0 is not None and not c0.isconst():
            return None
        c0 = float(F(c0.constval()) / d) if c0 is not None else 0.0
        half = c0 / math.pi
        if abs(half - round(half)) > 1e-8:
            return None
        sg = -1 if round(half) % 2 else 1
        T = ATOMS[b][2][0]
        if ATOMS[b][1] == 'acos':
            K = T
        else:
            from models import rfun_root
            q = R.c(1) + T * T
            qn = R(reduce_mod(q, sqrules(q)))
            qd = R(reduce_mod(R(q.d), sqrules(R(q.d))))
            v = rfun_root(qd / qn, 2)
            if v is None:
                K = app('sqrt', qd / qn)
            else:
                g = s.facts.rsign(v)
                K = v if g <= GE else R.c(0) - v if g <= LE else None
            if K is None:
                return None
        ks[a] = (round(half), b)
        rules.append((a, 3, (R.c(3) * R(Poly.var(a)) + R.c(sg) * K) / R.c(4)))
    if not rules:
        return None
    n = reduce_mod(res, rules)
    return R(n), ks


def sqrules(r):
    return [(a, 2, ATOMS[a][2][0]) for a in r.n.atoms() if ATOMS[a][0] == 'app' and ATOMS[a][1] == 'sqrt']


def root_ok(ctx, e, s, coefs, x, key, desc):
    x = num(x)
    if not isinstance(x, R):
        ctx.expect(s, False if x is UNDEF else None, key, desc + ': value not set')
        return
    if any(ev[0] == 'div0' for ev in s.events) and any(ATOMS[a][0] == 'app' and ATOMS[a][1] == 'divzero' for a in x.deep_atoms()):
        ctx.expect(s, False, key, '%s: value comes from a division by zero' % desc)
        return
    res = poly_at(coefs, x)
    if alg_zero(res) or s.facts.rsign(res) <= ZER or closed_form_zero(res, 1e-9):
        ctx.ok()
        return
    tr = trig_reduce(s, res)
    if tr is not None:
        if alg_zero(tr[0]):
            ctx.ok()
            return
    ctx.n_ob += 1

    def test(vs):
        if abs(vs[0]) > 1e-5 * (1 + max(abs(v) for v in vs[1:])) ** 4:
            return 'value %g leaves residual %g in the equation with coefficients %s' % (vs[1], vs[0], vs[2:])
    m = ctx.refute(s, [res, x] + [num(c) for c in coefs], test)
    if m:
        ctx.expect(s, False, key, '%s: %s' % (desc, m))
    elif ctx.feasible(s) is None:
        ctx.n_ob -= 1
    else:
        ctx.inconclusive(key, '%s: root identity not proved: %s' % (desc, short(res)))


def distinct(ctx, e, s, xs, key, desc):
    for i in range(len(xs)):
        for j in range(i):
            a, b = num(xs[i]), num(xs[j])
            if not (isinstance(a, R) and isinstance(b, R)):
                continue
            d = a - b
            if 0 not in s.facts.rsign(d):
                ctx.ok()
                continue
            if alg_zero(d):
                ctx.expect(s, False, key, '%s: the same value is returned twice' % desc)
                continue
            ks = trig_reduce(s, d * d * d)
            if ks is not None and len(ks[1]) == 2:
                (h1, b1), (h2, b2) = ks[1].values()
                if b1 == b2:
                    ctx.expect(s, (h1 - h2) % 6 != 0, key, '%s: the same value is returned twice' % desc)
                    continue

            def test(vs):
                if abs(vs[0]) < 1e-9 and vs[0] == vs[0]:
                    return 'both values are %g' % vs[1]
                return None
            hits = []

            def test2(vs):
                hits.append(abs(vs[0]) < 1e-9)
                return None
            ctx.refute(s, [d, a], test2)
            if hits and all(hits):
                ctx.expect(s, False, key, '%s: the same value is returned twice' % desc)
            elif hits and not any(hits):
                ctx.ok()
            else:
                ctx.n_ob += 1
                ctx.inconclusive(key, '%s: distinctness not proved' % desc)


def number(ctx, s, n, want, key, desc):
    if n == want:
        ctx.ok()
        return True
    if witness.linear(s.facts) or ctx.feasible(s):
        ctx.expect(s, False, key, '%s: %d values returned, %d expected; facts %s' % (desc, n, want, short(s.facts)))
    return False


def quad(ctx, f, cls, lead, what, cap):
    w = ctx.prog.where(f)
    b, c = sym('b'), sym('c')
    a = sym('a')
    for sa in (1, -1):
        for case, cc in (('two roots', None), ('double root', b * b / (R.c(4) * a)), ('no root', None)):
            e = ctx.engine()
            st = State()
            nonzero(st, a, sa)
            c0 = cc if cc is not None else c
            k = b * b - R.c(4) * a * c0
            if case == 'two roots':
                nonzero(st, k, 1)
            elif case == 'no root':
                nonzero(st, k, -1)
            desc = '%s: quadratic with %s, leading coefficient %s 0' % (w, case, '>' if sa > 0 else '<')
            for s, n, xs in solve(ctx, e, st, f, cls, lead + [a, b, c0], what, cap):
                if not number(ctx, s, n, {'two roots': 2, 'double root': 1, 'no root': 0}[case], what + '/number', desc):
                    continue
                for x in xs:
                    root_ok(ctx, e, s, [a, b, c0], x, what + '/root', desc)
                if len(xs) == 2:
                    s.facts.assume(s.facts.rpoly(app('sqrt', k)), POS)
                    distinct(ctx, e, s, xs, what + '/distinct', desc)
    # linear and constant equations
    for sb in (1, -1):
        e = ctx.engine()
        st = State()
        nonzero(st, b, sb)
        desc = w + ': linear equation'
        for s, n, xs in solve(ctx, e, st, f, cls, lead + [R.c(0), b, c], what, cap):
            if number(ctx, s, n, 1, what + '/linear', desc):
                root_ok(ctx, e, s, [b, c], xs[0], what + '/linear', desc)
    e = ctx.engine()
    for s, n, xs in solve(ctx, e, State(), f, cls, lead + [R.c(0), R.c(0), c], what, cap):
        number(ctx, s, n, 0, what + '/constant', w + ': equation without unknown')


def cubic(ctx):
    f = ctx.prog.fn(r'rmath::resolv_cubic_equa\(double, double, double, double\)')
    w = ctx.prog.where(f)
    h = sym('h')
    m, q, p = sym('m'), sym('q'), sym('p')
    one = R.c(1)

    def coefs(a3, p_, q_):
        # a3 * ((x+h)^3 + p (x+h) + q)
        return [a3, R.c(3) * h * a3, a3 * (p_ + R.c(3) * h * h), a3 * (q_ + p_ * h + h * h * h)]

    for s3 in (1, -1):
        a3 = sym('a3')
        cs = []
        # (name, p, q, setup, number of distinct real roots)
        cs.append(('three roots, q>0', R.c(-3) * m * m, q, lambda st: fassume(st, m, POS) and fassume(st, q, POS) and nonzero(st, q * q / R.c(4) - m * m * m * m * m * m, -1), 3))
        cs.append(('three roots, q<0', R.c(-3) * m * m, q, lambda st: fassume(st, m, POS) and fassume(st, q, NEG) and nonzero(st, q * q / R.c(4) - m * m * m * m * m * m, -1), 3))
        cs.append(('three roots, q=0', R.c(-3) * m * m, R.c(0), lambda st: nonzero(st, m, 1) and nonzero(st, R.c(0) - m * m * m * m * m * m, -1), 3))
        for sm in (1, -1):
            cs.append(('double root', R.c(-3) * m * m, R.c(-2) * m * m * m, lambda st, sm=sm: nonzero(st, m, sm), 2))
        cs.append(('triple root', R.c(0), R.c(0), lambda st: True, 1))
        for sq in (1, -1):
            cs.append(('one root, q%s0' % ('>' if sq > 0 else '<'), p, q, lambda st, sq=sq: fassume(st, q, POS if sq > 0 else NEG) and nonzero(st, q * q / R.c(4) + p * p * p / R.c(27), 1), 1))
            cs.append(('pure cube, q%s0' % ('>' if sq > 0 else '<'), R.c(0), q, lambda st, sq=sq: nonzero(st, q, sq) and nonzero(st, q * q / R.c(4), 1), 1))
        cs.append(('one root, q=0', p, R.c(0), lambda st: nonzero(st, p, 1) and nonzero(st, p * p * p / R.c(27), 1), 1))
        for name, p_, q_, prep, want in cs:
            e = ctx.engine()
            st = State()
            nonzero(st, a3, s3)
            if not prep(st):
                raise Unsupported('case set-up')
            co = coefs(a3, p_, q_)
            desc = '%s: cubic with %s, leading coefficient %s 0' % (w, name, '>' if s3 > 0 else '<')
            for s, n, xs in solve(ctx, e, st, f, CR, co, 'cubic', 3):
                if not number(ctx, s, n, want, 'cubic/number', desc):
                    continue
                for x in xs:
                    if isinstance(x, R):
                        y = x + h
                        root_ok(ctx, e, s, [one, R.c(0), p_, q_], y, 'cubic/root', desc)
                    else:
                        root_ok(ctx, e, s, co, x, 'cubic/root', desc)
                distinct(ctx, e, s, xs, 'cubic/distinct', desc)


def check(ctx):
    ctx.rule('every returned value satisfies the equation: identity modulo the defining relations of sqrt, cbrt and the triple-angle relation of cos/atan')
    ctx.rule('number of returned values per discriminant case; degenerate leading coefficients give the lower-degree result')
    ctx.assumptions = ['real arithmetic', 'leading coefficients and discriminants are exactly 0 or at least 0.01 in magnitude (the code treats |v|<1e-8 as 0)', 'the constant pi in the source may be off by 1e-8']
    fq = ctx.prog.fn(r'rmath::resolv_quad_equa\(double, double, double\)')
    fc = ctx.prog.fn(r'rmath::resolv_cubic_equa\(double, double, double, double\)')
    ctx.group('quad', quad, fq, QR, [], 'quad', 2)
    ctx.group('fallback', quad, fc, CR, [R.c(0)], 'fallback', 3)
    ctx.group('cubic', cubic)
