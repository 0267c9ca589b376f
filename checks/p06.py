from geo import *

RC = 'rmath::rect'
MARGIN = 0.01


def rectf(e, st, p):
    return e.getf(st, p, RC, 'min'), e.getf(st, p, RC, 'max')


def overlap(ctx):
    f = ctx.prog.fn(r'rmath::rect::intersect\(rmath::rect const&\) const')
    w = ctx.prog.where(f)
    e = ctx.engine()
    st = State()
    rs = []
    for n in 'ab':
        p = e.alloc_struct(st, RC, name=None, lazy=False)
        e.setf(st, p, RC, 'min', vec(n + 'min'))
        e.setf(st, p, RC, 'max', vec(n + 'max'))
        for i in (0, 1):
            fassume(st, vec(n + 'max')[i] - vec(n + 'min')[i], GE)
        rs.append(p)
    (a0, a1), (b0, b1) = [(vec(n + 'min'), vec(n + 'max')) for n in 'ab']
    need = [a1[0] - b0[0], b1[0] - a0[0], a1[1] - b0[1], b1[1] - a0[1]]
    for s, v in truths(e, ctx.run(e, f, rs, st, 'overlap')):
        if v is None:
            ctx.expect(s, None, 'overlap', 'result not decided')
        elif v:
            for q in need:
                ctx.expect_sign(e, s, q, GE, 'overlap/yes', w + ': disjoint rectangles reported as overlapping')
        else:
            s2 = s.clone()
            ok = all(s2.facts.assume(s2.facts.rpoly(q), GE) for q in need)
            ctx.expect(s, not ok, 'overlap/no', lambda: '%s: rectangles sharing a point reported as disjoint; facts: %s' % (w, short(s2.facts)))


def ops(ctx):
    e = ctx.engine()
    for name, args, want in (('d_inflated', 'rn', lambda mn, mx, n: ((mn[0] - n, mn[1] - n), (mx[0] + n, mx[1] + n))),
                             ('d_rect_offset', 'pn', lambda p, n: ((p[0] - n, p[1] - n), (p[0] + n, p[1] + n)))):
        f = ctx.prog.fn(r'verif_driver::%s\(.*' % name)
        st = State()
        out = sret(e, st, RC)
        n = sym('n')
        if args == 'rn':
            r = e.alloc_struct(st, RC, name=None, lazy=False)
            e.setf(st, r, RC, 'min', vec('mn'))
            e.setf(st, r, RC, 'max', vec('mx'))
            np = Ptr(e.new_obj(st, size=8), 0)
            st.null[np.o] = False
            e.store(st, np, n, 8)
            a = [out, r, np]
            exp = want(vec('mn'), vec('mx'), n)
        else:
            a = [out, vec_obj(e, st, vec('p')), n]
            exp = want(vec('p'), n)
        for s, _ in ctx.run(e, f, a, st, name):
            ctx.expect_eq(e, s, rectf(e, s, out), exp, 'grow/' + name[2:], 'src/include/rmath.h rect: %s does not move all four sides outwards by the amount' % name[2:])
    for name, exp in (('d_width', lambda a, b: b[0] - a[0]), ('d_height', lambda a, b: b[1] - a[1]), ('d_center', lambda a, b: tuple((a[i] + b[i]) / R.c(2) for i in (0, 1)))):
        f = ctx.prog.fn(r'verif_driver::%s\(.*' % name)
        st = State()
        r = e.alloc_struct(st, RC, name=None, lazy=False)
        e.setf(st, r, RC, 'min', vec('mn'))
        e.setf(st, r, RC, 'max', vec('mx'))
        for s, v in ctx.run(e, f, [r], st, name):
            if isinstance(v, Agg):
                v = tuple(v.v)
            ctx.expect_eq(e, s, v, exp(vec('mn'), vec('mx')), 'rect/' + name[2:], 'src/include/rmath.h rect: wrong %s' % name[2:])


def from_points(ctx):
    for k in (1, 2, 3, 4):
        e = ctx.engine()
        f = ctx.prog.fn(r'verif_driver::d_from%d\(.*' % k)
        st = State()
        out = sret(e, st, RC)
        pts = [vec('p%d' % i) for i in range(k)]
        for s, _ in ctx.run(e, f, [out] + [vec_obj(e, st, p) for p in pts], st, 'from'):
            mn, mx = rectf(e, s, out)
            for ax in (0, 1):
                tight(ctx, e, s, mn[ax], mx[ax], [p[ax] for p in pts], 'from', 'rect::from with %d points, axis %s' % (k, 'xy'[ax]))


def tight(ctx, e, s, lo, hi, vals, key, desc):
    """lo/hi are exactly the minimum / maximum of vals on this path"""
    if not isinstance(lo, R) or not isinstance(hi, R):
        ctx.expect(s, False if lo is UNDEF or hi is UNDEF else None, key + '/unset', desc + ': side not set')
        return
    proved = True
    for v in vals:
        for side, x, sg in (('min', lo, GE), ('max', hi, LE)):
            ok = s.facts.rsign(v - x) <= sg or any(alg_zero(v - l) for l in flat(x, side))
            if ok:
                ctx.ok()
            else:
                proved = False
    for side, x in (('min', lo), ('max', hi)):
        for l in leaves(x):
            if l.isconst() and abs(float(l.cv())) > 1e300:
                continue
            if any(alg_zero(l - v) for v in vals) or any(s.facts.rsign(l - v) <= ZER for v in vals):
                ctx.ok()
            else:
                proved = False
    if proved:
        return
    ctx.n_ob += 1

    def test(vs):
        a, b, rest = vs[0], vs[1], vs[2:]
        sc = 1e-6 * (1 + max(abs(x) for x in vs))
        if abs(a - min(rest)) > sc:
            return 'lower side %g, lowest point %g' % (a, min(rest))
        if abs(b - max(rest)) > sc:
            return 'upper side %g, highest point %g' % (b, max(rest))
    m = ctx.refute(s, [lo, hi] + list(vals), test)
    if m:
        ctx.expect(s, False, key + '/tight', '%s: %s' % (desc, m))
    else:
        ctx.inconclusive(key + '/tight', '%s: not proved (and not refuted); facts %s' % (desc, short(s.facts)))


def coef(xs):
    a = R.c(3) * xs[3] - R.c(9) * xs[2] + R.c(9) * xs[1] - R.c(3) * xs[0]
    b = R.c(6) * xs[0] - R.c(12) * xs[1] + R.c(6) * xs[2]
    c = R.c(3) * (xs[1] - xs[0])
    return a, b, c


def curve_box(ctx, run, name):
    """run(e, st, pts) -> [(state, minvec, maxvec)]"""
    for ax in (0, 1):
        x0, x1, x2, x3 = (sym('x%d' % i) for i in range(4))
        shapes = [('constant speed', [x0, x1, R.c(2) * x1 - x0, R.c(3) * x1 - R.c(2) * x0], []),
                  ('quadratic', [x0, x1, x2, R.c(3) * x2 - R.c(3) * x1 + x0], 'b'),
                  ('cubic', [x0, x1, x2, x3], 'a')]
        for sname, xs, nz in shapes:
            a, b, c = coef(xs)
            variants = [None] if not nz else [POS, NEG]
            for var in variants:
                e = ctx.engine()
                st = State()
                if var is not None:
                    r = a if nz == 'a' else b
                    m = R.c(MARGIN)
                    fassume(st, (r - m) if var == POS else (r + m), POS if var == POS else NEG)
                pts = [((x, R.c(0)) if ax == 0 else (R.c(0), x)) for x in xs]
                for s, mn, mx in run(e, st, pts):
                    desc = '%s, %s axis, %s shape' % (name, 'xy'[ax], sname)
                    k = b * b - R.c(4) * a * c
                    if nz == 'a':
                        subs = cases(s, [(k, [NEG, ZER, POS])])
                    else:
                        subs = [(s, (0,))]
                    for s1, ix in subs:
                        roots = []
                        if nz == 'b':
                            roots = [(R.c(0) - c) / b]
                        elif nz == 'a' and ix[0] == 1:
                            roots = []     # derivative touches zero without changing sign: no extreme
                        elif nz == 'a' and ix[0] == 2:
                            q = app('sqrt', k)
                            roots = [(q - b) / (R.c(2) * a), (R.c(0) - q - b) / (R.c(2) * a)]
                        todo = [(s1, [xs[0], xs[3]])]
                        for t in roots:
                            nxt = []
                            for s2, vals in todo:
                                for s3, jx in cases(s2, [(t, [POS, LE]), (R.c(1) - t, [POS, LE])]):
                                    nxt.append((s3, vals + ([bern1(xs, t)] if jx == (0, 0) else [])))
                            todo = nxt
                        for s2, vals in todo:
                            allowed = list(vals)
                            if nz == 'a' and ix[0] == 1:
                                # the inflection point is a point of the piece
                                allowed.append(bern1(xs, (R.c(0) - b) / (R.c(2) * a)))
                            tight_box(ctx, e, s2, mn[ax], mx[ax], vals, allowed, 'curve/' + name, desc)
                            o = 1 - ax
                            tight_box(ctx, e, s2, mn[o], mx[o], [R.c(0)], [R.c(0)], 'curve/' + name, desc + ' (other axis)')


def tight_box(ctx, e, s, lo, hi, vals, allowed, key, desc):
    if not isinstance(lo, R) or not isinstance(hi, R):
        ctx.expect(s, False if lo is UNDEF or hi is UNDEF else None, key + '/unset', desc + ': side not set')
        return
    proved = True
    for v in vals:
        for side, x, sg in (('min', lo, GE), ('max', hi, LE)):
            if s.facts.rsign(v - x) <= sg or any(alg_zero(v - l) for l in flat(x, side)):
                ctx.ok()
            else:
                proved = False
    for x in (lo, hi):
        for l in leaves(x):
            if l.isconst() and abs(float(l.cv())) > 1e300:
                continue
            if any(alg_zero(l - v) for v in allowed):
                ctx.ok()
            elif l.atoms() and any('sqrt' == ATOMS[q][1] for q in l.deep_atoms()) and s.facts.f and any_touch(s, l, allowed):
                ctx.ok()
            else:
                proved = False
    if proved:
        return
    ctx.n_ob += 1

    def test(vs):
        a, b, rest = vs[0], vs[1], vs[2:]
        sc = 1e-6 * (1 + max(abs(x) for x in vs if abs(x) < 1e200))
        if abs(a - min(rest)) > sc:
            return 'lower side %g, lowest point %g' % (a, min(rest))
        if abs(b - max(rest)) > sc:
            return 'upper side %g, highest point %g' % (b, max(rest))
    m = ctx.refute(s, [lo, hi] + list(vals), test)
    if m:
        ctx.expect(s, False, key + '/tight', '%s: %s' % (desc, m))
    else:
        # nothing refutes it: the path may be empty (incomplete emptiness test)
        if ctx.feasible(s) is None:
            ctx.n_ob -= 1
            ctx.count('paths_without_point')
        else:
            ctx.inconclusive(key + '/tight', '%s: not proved (and not refuted); facts %s' % (desc, short(s.facts)))


def any_touch(s, l, allowed):
    """equal to an allowed value once the discriminant is known to be zero"""
    for q in l.deep_atoms():
        k, n, pl, _ = ATOMS[q]
        if k == 'app' and n == 'sqrt' and s.facts.rsign(pl[0]) <= ZER:
            l2 = l.subs({q: R.c(0)})
            if any(alg_zero(l2 - v) for v in allowed):
                return True
            for v in allowed:
                d = l2 - v
                # modulo k == 0: try substituting the leading relation
                if zero_mod(d, pl[0]):
                    return True
    return False


def zero_mod(d, k):
    """d == 0 modulo k == 0 (polynomial division test)"""
    if d.n.iszero():
        return True
    q = d.n.divide(k.n)
    return q is not None


def bezier_run(ctx):
    f = ctx.prog.fn(r'rmath::bezier_cubic::get_boundary\(\) const')

    def run(e, st, pts):
        b, _ = bez(e, st, pts=pts)
        out = sret(e, st, RC)
        return [(s,) + rectf(e, s, out) for s, _ in ctx.run(e, f, [out, b], st, 'curve/get_boundary')]
    curve_box(ctx, run, 'get_boundary')


def seg_run(ctx):
    f = ctx.prog.fn(r'river::seg_cubicto::get_boundary\(rmath::vec2 const&\) const')

    def run(e, st, pts):
        g = mkcubic(e, st, pts[1], pts[2], pts[3])
        out = sret(e, st, RC)
        return [(s,) + rectf(e, s, out) for s, _ in ctx.run(e, f, [out, g, vec_obj(e, st, pts[0])], st, 'curve/segment')]
    curve_box(ctx, run, 'seg_cubicto::get_boundary')


def seg_line(ctx):
    for cls, fn in ((SL, r'river::seg_lineto::get_boundary\(rmath::vec2 const&\) const'), (SM, r'river::seg_moveto::get_boundary\(rmath::vec2 const&\) const')):
        f = ctx.prog.fn(fn)
        e = ctx.engine()
        st = State()
        g = mkseg(e, st, cls, target=vec('to'))
        out = sret(e, st, RC)
        for s, _ in ctx.run(e, f, [out, g, vec_obj(e, st, vec('from'))], st, 'segment box'):
            mn, mx = rectf(e, s, out)
            for ax in (0, 1):
                vals = [vec('to')[ax]] + ([vec('from')[ax]] if cls == SL else [])
                tight(ctx, e, s, mn[ax], mx[ax], vals, 'segment/' + cls, '%s boundary, axis %s' % (cls, 'xy'[ax]))


def check(ctx):
    ctx.rule('rect::intersect true exactly under the four side comparisons; inflate/offset/center algebra; rect::from exact min/max')
    ctx.rule('get_boundary of a cubic (and of the cubic segment): on every sign case of leading coefficient, discriminant and root positions, both sides of each axis equal the minimum/maximum over end points and interior extremes')
    ctx.assumptions = ['real arithmetic', 'leading coefficients are 0 or at least %g in magnitude (degeneracy tolerance of the code is 1e-8)' % MARGIN, 'axes analysed one at a time (the other axis constant)']
    ctx.group('overlap', overlap)
    ctx.group('ops', ops)
    ctx.group('from', from_points)
    ctx.group('bezier', bezier_run)
    ctx.group('segcubic', seg_run)
    ctx.group('segline', seg_line)
