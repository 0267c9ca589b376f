from geo import *

LCR = 'rmath::line_cubic_intersect_result'
II = 'rmath::intersect_info'
CR = 'rmath::cubic_equa_result'
PY = 'rmath::point_at_y_result'
SOLVER = r'rmath::resolv_cubic_equa\(double, double, double, double\)'


def pow_coef(pts, c):
    p0, p1, p2, p3 = (num(p[c]) for p in pts)
    k = R.c
    return [p0, k(3) * (p1 - p0), k(3) * p2 - k(6) * p1 + k(3) * p0, p3 - k(3) * p2 + k(3) * p1 - p0]


def solver(e, roots):
    """replace the equation solver: record the equation, return the given symbolic roots"""
    def h(e_, st, a, f, d):
        out = a[0]
        st.events.append(('solve', tuple(a[1:5]), st.stack))
        e_.setf(st, out, CR, 'count', len(roots))
        base = e_.off(CR, 'data')[0]
        for i, r in enumerate(roots):
            e_.store(st, out.add(base + 8 * i), r, 8)
        return [(st, None)]
    e.hook(SOLVER, h)


def solved(s):
    return [ev[1] for ev in s.events if ev[0] == 'solve']


def proportional(ctx, e, s, got, want, key, text):
    """got (a3,a2,a1,a0) is a non-zero multiple of want"""
    got = [num(g) for g in got]
    if not all(isinstance(g, R) for g in got):
        ctx.expect(s, None, key, text)
        return
    for i in range(4):
        for j in range(i):
            ctx.expect_eq(e, s, got[i] * want[j], got[j] * want[i], key, text)
    zero = all(s.facts.rsign(g) <= ZER for g in got)
    wz = all(s.facts.rsign(g) <= ZER for g in want)
    ctx.expect(s, (not zero) or wz, key, text + ' (all coefficients are zero)')


RCL = [('<0', lambda r: [(r, NEG)]), ('0', lambda r: [(r, ZER)]), ('in', lambda r: [(r, POS), (R.c(1) - r, POS)]),
       ('1', lambda r: [(r - R.c(1), ZER)]), ('>1', lambda r: [(r - R.c(1), POS)])]
INSIDE = ('0', 'in', '1')
EXACT = {'0': 0, '1': 1}


def line_cubic(ctx, dirs, ns):
    f = ctx.prog.fn(r'rmath::intersect\(rmath::line const&, rmath::bezier_cubic const&\)')
    w = ctx.prog.where(f)
    LN = 'rmath::line'
    for (sx, sy) in dirs:
        for n, combos in ns:
            for combo in combos:
                e = ctx.engine()
                st = State()
                p0 = vec('a')
                l = (sym('lx') if sx else R.c(0), sym('ly') if sy else R.c(0))
                for v, sg in ((l[0], sx), (l[1], sy)):
                    if sg:
                        fassume(st, v, POS if sg > 0 else NEG)
                rs, us = [], []
                for i, (rc, uc) in enumerate(combo):
                    for lst, cl, nm in ((rs, rc, 'r'), (us, uc, 'u')):
                        v = R.c(EXACT[cl]) if cl in EXACT else sym('%s%d' % (nm, i))
                        lst.append(v)
                        if cl not in EXACT:
                            for q, sg in dict(RCL)[cl](v):
                                fassume(st, q, sg)
                solver(e, rs)
                b, pts = bez(e, st)
                on_line = {}

                def point_at(e_, s_, a, f_, d_):
                    t = a[-1]
                    src = bez_pts(e_, s_, a[0] if len(a) == 2 else a[1])
                    same = all(eq(e_, s_, x, y) is True for x, y in zip(src, pts))
                    for i, r in enumerate(rs):
                        if same and isinstance(t, R) and t == r:
                            return [(s_, Agg([p0[0] + us[i] * l[0], p0[1] + us[i] * l[1]]))]
                    v = bern(src, num(t))
                    return [(s_, Agg(list(v)))]
                e.hook(r'rmath::bezier_cubic::point_at\(double\) const', point_at)
                ln = e.alloc_struct(st, LN, name=None, lazy=False)
                e.setf(st, ln, LN, 'p0', p0)
                e.setf(st, ln, LN, 'p1', (p0[0] + l[0], p0[1] + l[1]))
                out = sret(e, st, LCR)
                exp = [((p0[0] + us[i] * l[0], p0[1] + us[i] * l[1]), us[i], rs[i])
                       for i, (rc, uc) in enumerate(combo) if rc in INSIDE and uc in INSIDE]
                desc = '%s: segment direction signs (%d,%d), roots %s' % (w, sx, sy, ', '.join('t %s on segment %s' % c for c in combo))
                for s, _ in ctx.run(e, f, [out, ln, b], st, 'line-cubic'):
                    sv = solved(s)
                    if not sv:
                        ctx.expect(s, None, 'line-cubic/solver', w + ': no equation solved')
                        continue
                    if n == 1:
                        # line through p0 with direction l:  ly*(x-ax) - lx*(y-ay) = 0
                        cx, cy = pow_coef(pts, 0), pow_coef(pts, 1)
                        want = [l[1] * cx[k] - l[0] * cy[k] for k in range(4)]
                        want[0] = want[0] - l[1] * p0[0] + l[0] * p0[1]
                        proportional(ctx, e, s, sv[0], want[::-1], 'line-cubic/equation', '%s: equation handed to the solver is not that of segment and cubic (direction signs (%d,%d))' % (w, sx, sy))
                    cnt = e.getf(s, out, LCR, 'count')
                    ctx.expect(s, None if not isinstance(cnt, int) else cnt == len(exp), 'line-cubic/count',
                               lambda: '%s: %s crossings reported, expected %d' % (desc, cnt, len(exp)))
                    if cnt != len(exp):
                        continue
                    base = e.off(LCR, 'data')[0]
                    sz = e.prog.sizeof(II)
                    got = [tuple(e.getf(s, out.add(base + i * sz), II, k) for k in ('p', 't0', 't1')) for i in range(cnt)]
                    match(ctx, e, s, got, exp, 'line-cubic/entry', desc)


def match(ctx, e, s, got, exp, key, desc):
    left = list(got)
    for x in exp:
        m = [y for y in left if eq(e, s, y, x) is True]
        if m:
            left.remove(m[0])
            ctx.ok()
        elif len(left) == 1 and len(exp) == 1:
            ctx.expect_eq(e, s, left[0] if isinstance(x, tuple) else left[0], x, key, desc + ': wrong entry')
        else:
            ctx.expect(s, None if any(eq(e, s, y, x) is None for y in left) else False, key, lambda: '%s: expected entry %s missing; reported %s' % (desc, short(x), short(got)))


def combos_for(n):
    full = [(r[0], u[0]) for r in RCL for u in RCL]
    if n == 0:
        return [()]
    if n == 1:
        return [(c,) for c in full]
    few = [('in', 'in'), ('in', '>1'), ('<0', 'in'), ('1', '0')]
    return list(itertools.product(few, repeat=n))


def at_level(ctx):
    f = ctx.prog.fn(r'rmath::bezier_cubic::point_at_y\(double\) const')
    w = ctx.prog.where(f)
    for n in (0, 1, 2, 3):
        for combo in itertools.product([r[0] for r in RCL], repeat=n):
            e = ctx.engine()
            st = State()
            rs = []
            for i, cl in enumerate(combo):
                v = R.c(EXACT[cl]) if cl in EXACT else sym('r%d' % i)
                rs.append(v)
                if cl not in EXACT:
                    for q, sg in dict(RCL)[cl](v):
                        fassume(st, q, sg)
            solver(e, rs)
            b, pts = bez(e, st)
            y = sym('y')
            out = sret(e, st, PY)
            exp = [r for r, cl in zip(rs, combo) if cl in INSIDE]
            for s, _ in ctx.run(e, f, [out, b, y], st, 'level'):
                sv = solved(s)
                if not sv:
                    ctx.expect(s, None, 'level/solver', w + ': no equation solved')
                    continue
                if n <= 1:
                    want = pow_coef(pts, 1)
                    want[0] = want[0] - y
                    proportional(ctx, e, s, sv[0], want[::-1], 'level/equation', w + ': equation handed to the solver is not that of the cubic at the level')
                cnt = e.getf(s, out, PY, 'count')
                desc = '%s: roots %s' % (w, ', '.join(combo))
                ctx.expect(s, None if not isinstance(cnt, int) else cnt == len(exp), 'level/count', lambda: '%s: %s parameters reported, expected %d' % (desc, cnt, len(exp)))
                if cnt != len(exp):
                    continue
                base = e.off(PY, 't')[0]
                match(ctx, e, s, [e.load(s, out.add(base + 8 * i), ('double',)) for i in range(cnt)], exp, 'level/entry', desc)


def curr_x(ctx):
    f = ctx.prog.fn(r'river::seg_lineto::curr_x\(rmath::vec2 const&, double\) const')
    e = ctx.engine()
    st = State()
    a, b, y = vec('a'), vec('b'), sym('y')
    fassume(st, b[1] - a[1], NE)
    g = mkline(e, st, b)
    for s, v in ctx.run(e, f, [g, vec_obj(e, st, a), y], st, 'currx/line'):
        ctx.expect_eq(e, s, v, a[0] + (b[0] - a[0]) * (y - a[1]) / (b[1] - a[1]), 'currx/line', ctx.prog.where(f) + ': x of a line at a level is not on the line')
    f = ctx.prog.fn(r'river::seg_cubicto::curr_x\(rmath::vec2 const&, double\) const')
    w = ctx.prog.where(f)
    for n in (1, 2, 3):
        for combo in itertools.product([r[0] for r in RCL], repeat=n):
            if sum(c in INSIDE for c in combo) != 1:
                continue
            e = ctx.engine()
            st = State()
            pts = [vec('b%d' % i) for i in range(4)]
            fassume(st, pts[3][1] - pts[0][1], NE)
            rs = []
            for i, cl in enumerate(combo):
                v = R.c(EXACT[cl]) if cl in EXACT else sym('r%d' % i)
                rs.append(v)
                if cl not in EXACT:
                    for q, sg in dict(RCL)[cl](v):
                        fassume(st, q, sg)
            solver(e, rs)
            g = mkcubic(e, st, *pts[1:])
            r = [r for r, c in zip(rs, combo) if c in INSIDE][0]
            for s, v in ctx.run(e, f, [g, vec_obj(e, st, pts[0]), y], st, 'currx/cubic'):
                ctx.expect_eq(e, s, v, bern(pts, r)[0], 'currx/cubic', w + ': x of a monotone cubic at a level is not that of the cubic\'s point there (roots %s)' % ', '.join(combo))
                for sv in solved(s)[:1]:
                    if n == 1:
                        want = pow_coef(pts, 1)
                        want[0] = want[0] - y
                        proportional(ctx, e, s, sv, want[::-1], 'currx/equation', w + ': equation is not that of the segment at the level')
    # rounding pushed the root out of range: the end points still are where they belong
    e = ctx.engine()
    for at in (0, 3):
        st = State()
        pts = [vec('b%d' % i) for i in range(4)]
        fassume(st, pts[3][1] - pts[0][1], NE)
        solver(e, [])
        g = mkcubic(e, st, *pts[1:])
        for s, v in ctx.run(e, f, [g, vec_obj(e, st, pts[0]), pts[at][1]], st, 'currx/ends'):
            ctx.expect_eq(e, s, v, pts[at][0], 'currx/ends', w + ': at the level of an end point, with no root in range, x is not the end point\'s')


def edge_x(ctx):
    f = ctx.prog.fn(r'vatti::update_intermediate_curr_x\(vatti::edge\*, double\)')
    w = ctx.prog.where(f)
    for up in (True, False):
        for kind in (SL, SC):
            e = ctx.engine()
            st = State()
            y = sym('y')
            c = [vec('c1'), vec('c2')]
            lo, hi = vec('lo'), vec('hi')
            fassume(st, hi[1] - lo[1], POS)
            # the contour runs lo->hi for an ascending edge and hi->lo for a descending one
            src, dst = (lo, hi) if up else (hi, lo)
            g = mkline(e, st, dst) if kind == SL else mkcubic(e, st, c[0], c[1], dst)
            vt = mkvertex(e, st, 'top', hi)
            vb = mkvertex(e, st, 'bot', lo)
            far = mkvertex(e, st, 'far')
            fg = mkline(e, st, vec('far'))
            if up:
                e.setf(st, vb, VX, 'next', vt)
                e.setf(st, vt, VX, 'prev', vb)
                e.setf(st, vb, VX, 'next_seg', g)
                e.setf(st, vt, VX, 'next_seg', fg)
                e.setf(st, vt, VX, 'next', far)
            else:
                e.setf(st, vt, VX, 'next', vb)
                e.setf(st, vb, VX, 'prev', vt)
                e.setf(st, vt, VX, 'next_seg', g)
                e.setf(st, vb, VX, 'next_seg', fg)
                e.setf(st, vt, VX, 'prev', far)
                e.setf(st, far, VX, 'next_seg', fg)
                e.setf(st, far, VX, 'next', vt)
            d = mkedge(e, st, 'e', 0, -1 if up else 1)
            e.setf(st, d, ED, 'bot', lo)
            e.setf(st, d, ED, 'top', hi)
            e.setf(st, d, ED, 'vertex_top', vt)
            r = sym('r')
            fassume(st, r, POS)
            fassume(st, R.c(1) - r, POS)
            solver(e, [r])
            for s, _ in ctx.run(e, f, [d, y], st, 'edge'):
                got = e.getf(s, d, ED, 'curr_x')
                if kind == SL:
                    exp = lo[0] + (hi[0] - lo[0]) * (y - lo[1]) / (hi[1] - lo[1])
                else:
                    exp = bern([src, c[0], c[1], dst], r)[0]
                ctx.expect_eq(e, s, got, exp, 'edge/%s' % ('up' if up else 'down'), '%s: x position of %s edge is not that of its own segment at the level' % (w, 'an ascending' if up else 'a descending'))


def general_form(ctx):
    f = ctx.prog.fn(r'rmath::line::general_from\(double\*, double\*, double\*\) const')
    w = ctx.prog.where(f)
    LN = 'rmath::line'
    e = ctx.engine()
    st = State()
    a, b = vec('a'), vec('b')
    ln = e.alloc_struct(st, LN, name=None, lazy=False)
    e.setf(st, ln, LN, 'p0', a)
    e.setf(st, ln, LN, 'p1', b)
    o = []
    for i in range(3):
        p = Ptr(e.new_obj(st, size=8), 0)
        st.null[p.o] = False
        o.append(p)
    for s, _ in ctx.run(e, f, [ln] + o, st, 'general'):
        A, B, C = (e.load(s, p, ('double',)) for p in o)
        for q in (a, b):
            if all(isinstance(x, R) for x in (A, B, C)):
                ctx.expect_eq(e, s, A * q[0] + B * q[1] + C, R.c(0), 'general', w + ': an end point does not satisfy the general form of its line')
        nz = any(isinstance(x, R) and not (0 in s.facts.rsign(x)) for x in (A, B))
        ctx.expect(s, True if nz else (False if all(isinstance(x, R) and s.facts.rsign(x) <= ZER for x in (A, B)) else None), 'general/degenerate', w + ': general form with no direction')


def check(ctx):
    ctx.rule('the four coefficients handed to the equation solver are a non-zero multiple of the exact polynomial of the two curves (polynomial identities)')
    ctx.rule('with the solver replaced by arbitrary roots, exactly the roots in [0,1] whose point lies on the segment are reported, with point, segment parameter and curve parameter; likewise for levels')
    ctx.rule('curr_x of line, cubic and edge equals the segment point at the level')
    ctx.assumptions = ['real arithmetic', 'roots satisfy the equation (P09)', 'segments have two different end points']
    alld = [(x, y) for x in (-1, 0, 1) for y in (-1, 0, 1) if x or y]
    ctx.group('general', general_form)
    ctx.group('line-cubic', line_cubic, alld, [(0, combos_for(0)), (1, combos_for(1))])
    ctx.group('line-cubic-many', line_cubic, [(1, 1), (0, -1), (-1, 0)] if not ctx.thorough else alld, [(2, combos_for(2)), (3, combos_for(3))])
    ctx.group('level', at_level)
    ctx.group('currx', curr_x)
    ctx.group('edge', edge_x)
