from geo import *


def point_at(ctx):
    f = ctx.prog.fn(r'rmath::bezier_cubic::point_at\(double\) const')
    e = ctx.engine()
    st = State()
    b, pts = bez(e, st)
    t = sym('t')
    for s, v in ctx.run(e, f, [b, t], st, 'point_at'):
        got = tuple(v.v) if isinstance(v, Agg) else None
        ctx.expect(s, got is not None, 'point_at/shape', 'point_at result form') if got is None else \
            ctx.expect_eq(e, s, got, bern(pts, t), 'point_at', '%s: value is not the Bernstein value' % ctx.prog.where(f))


def split1(ctx):
    f = ctx.prog.fn(r'rmath::bezier_cubic::split\(double, rmath::bezier_cubic\*, rmath::bezier_cubic\*\) const')
    e = ctx.engine()
    st = State()
    b, pts = bez(e, st)
    t, u = sym('t'), sym('u')
    o1, o2 = sret(e, st, BZ), sret(e, st, BZ)
    for s, _ in ctx.run(e, f, [b, t, o1, o2], st, 'split'):
        w = ctx.prog.where(f)
        ctx.expect_eq(e, s, bern(bez_pts(e, s, o1), u), mapt(pts, R.c(0), t, u), 'split/first', w + ': first part is not the curve before the parameter')
        ctx.expect_eq(e, s, bern(bez_pts(e, s, o2), u), mapt(pts, t, R.c(1), u), 'split/second', w + ': second part is not the curve after the parameter')
        ctx.expect_eq(e, s, bez_pts(e, s, b), pts, 'split/source', w + ': the split curve itself was changed')


def splitn(ctx, n):
    f = ctx.prog.fn(r'rmath::bezier_cubic::split\(double const\*, rmath::bezier_cubic\*, unsigned long\) const')
    w = ctx.prog.where(f)
    for k in range(0, n + 1):
        e = ctx.engine()
        st = State()
        # one coordinate symbolic, the other one an independent symbol set too (rational identities stay small)
        xs = [sym('x%d' % i) for i in range(4)]
        b, pts = bez(e, st, pts=[(xs[i], R.c(0)) for i in range(4)])
        ts = [sym('t%d' % i) for i in range(k)]
        arr = Ptr(e.new_obj(st, size=8 * max(k, 1), tag='t'), 0)
        st.null[arr.o] = False
        prev = R.c(0)
        for i, t in enumerate(ts):
            e.store(st, arr.add(8 * i), t, 8)
            fassume(st, t - prev, POS)
            prev = t
        if k:
            fassume(st, R.c(1) - prev, POS)
        sz = e.prog.sizeof(BZ)
        out = Ptr(e.new_obj(st, size=sz * (k + 1), tag='out'), 0)
        st.null[out.o] = False
        u = sym('u')
        for s, _ in ctx.run(e, f, [b, arr, out, k], st, 'splitn'):
            for ev in s.events:
                if ev[0] == 'oob_store' and ev[1] == out.o:
                    ctx.expect(s, False, 'splitn/oob', '%s: writes outside the %d pieces' % (e.fmt_stack(ev[-1]), k + 1))
            if k == 0:
                ctx.ok()
                continue
            full = [R.c(0)] + ts + [R.c(1)]
            for i in range(k + 1):
                got = bez_pts(e, s, out.add(sz * i))
                ctx.expect_eq(e, s, bern1([g[0] for g in got], u), bern1(xs, full[i] + (full[i + 1] - full[i]) * u), 'splitn/%d' % k,
                              '%s: piece %d of %d is not the part between its two parameters' % (w, i, k + 1))


def splitn_y(ctx):
    """second coordinate treated like the first"""
    f = ctx.prog.fn(r'rmath::bezier_cubic::split\(double const\*, rmath::bezier_cubic\*, unsigned long\) const')
    w = ctx.prog.where(f)
    k = 2
    e = ctx.engine()
    st = State()
    ys = [sym('y%d' % i) for i in range(4)]
    b, pts = bez(e, st, pts=[(R.c(0), ys[i]) for i in range(4)])
    ts = [sym('t%d' % i) for i in range(k)]
    arr = Ptr(e.new_obj(st, size=8 * k, tag='t'), 0)
    st.null[arr.o] = False
    prev = R.c(0)
    for i, t in enumerate(ts):
        e.store(st, arr.add(8 * i), t, 8)
        fassume(st, t - prev, POS)
        prev = t
    fassume(st, R.c(1) - prev, POS)
    sz = e.prog.sizeof(BZ)
    out = Ptr(e.new_obj(st, size=sz * (k + 1), tag='out'), 0)
    st.null[out.o] = False
    u = sym('u')
    for s, _ in ctx.run(e, f, [b, arr, out, k], st, 'splitn'):
        full = [R.c(0)] + ts + [R.c(1)]
        for i in range(k + 1):
            got = bez_pts(e, s, out.add(sz * i))
            ctx.expect_eq(e, s, bern1([g[1] for g in got], u), bern1(ys, full[i] + (full[i + 1] - full[i]) * u), 'splitn/y',
                          '%s: piece %d (y) is not the part between its two parameters' % (w, i))


def circle(ctx):
    f = ctx.prog.fn(r'rmath::bezier_cubic::circle\(rmath::vec2 const&, double, rmath::bezier_cubic\*\)')
    w = ctx.prog.where(f)
    e = ctx.engine()
    st = State()
    cx, cy, r = sym('c.x'), sym('c.y'), sym('r')
    fassume(st, r, POS)
    c = vec_obj(e, st, (cx, cy))
    sz = e.prog.sizeof(BZ)
    out = Ptr(e.new_obj(st, size=sz * 4, tag='out'), 0)
    st.null[out.o] = False
    for s, _ in ctx.run(e, f, [c, r, out], st, 'circle'):
        arcs = [bez_pts(e, s, out.add(sz * i)) for i in range(4)]
        bad = any(not isinstance(x, R) for a in arcs for p in a for x in p)
        if bad:
            ctx.expect(s, False, 'circle/unset', w + ': a coordinate of the four arcs is not set')
            continue
        rel = [[(p[0] - cx, p[1] - cy) for p in a] for a in arcs]
        r2 = r * r
        for i in range(4):
            a, n = rel[i], rel[(i + 1) % 4]
            ctx.expect_eq(e, s, a[3], n[0], 'circle/join', '%s: arc %d does not end where arc %d starts' % (w, i, (i + 1) % 4))
            ctx.expect_eq(e, s, a[0][0] * a[0][0] + a[0][1] * a[0][1], r2, 'circle/radius', '%s: start of arc %d is not at distance r of the centre' % (w, i))
            # quarter turn, counter-clockwise
            ctx.expect_eq(e, s, a[3], (-a[0][1], a[0][0]), 'circle/quarter', '%s: arc %d does not span a counter-clockwise quarter' % (w, i))
            # tangents perpendicular to the radius, pointing counter-clockwise; same length at both sides
            t0 = (a[1][0] - a[0][0], a[1][1] - a[0][1])
            t1 = (a[3][0] - a[2][0], a[3][1] - a[2][1])
            for q, t, nm in ((a[0], t0, 'start'), (a[3], t1, 'end')):
                ctx.expect_eq(e, s, q[0] * t[0] + q[1] * t[1], R.c(0), 'circle/smooth', '%s: %s tangent of arc %d is not perpendicular to the radius' % (w, nm, i))
                ctx.expect_sign(e, s, q[0] * t[1] - q[1] * t[0], POS, 'circle/ccw', '%s: %s tangent of arc %d does not run counter-clockwise' % (w, nm, i))
            m = bern(a, R.c(0.5))
            m2 = m[0] * m[0] + m[1] * m[1]
            ctx.expect_sign(e, s, m2 - r2 * R.c(0.998), POS, 'circle/mid', '%s: middle of arc %d lies inside the circle' % (w, i))
            ctx.expect_sign(e, s, r2 * R.c(1.002) - m2, POS, 'circle/mid', '%s: middle of arc %d lies outside the circle' % (w, i))
        ctx.expect(s, not any(ev[0] == 'oob_store' for ev in s.events), 'circle/oob', w + ': writes outside the four arcs')


def check(ctx):
    ctx.rule('algebraic identities over symbolic control points and parameters: evaluation equals the Bernstein form; one split and splits at up to 3 (4 thorough) increasing parameters trace exactly the sub-intervals; circle arcs join, are quarter turns, tangent-continuous and within 0.1% of the radius')
    ctx.assumptions = ['real arithmetic']
    ctx.group('point_at', point_at)
    ctx.group('split', split1)
    ctx.group('splitn', splitn, 4 if ctx.thorough else 3)
    ctx.group('splitn_y', splitn_y)
    ctx.group('circle', circle)
