from readlib import *

II = 'rmath::intersect_info'
RES = {'LL': ('rmath::line_intersect_result', r'rmath::intersect\(rmath::vec2 const&, rmath::vec2 const&, rmath::vec2 const&, rmath::vec2 const&\)', 2),
       'LC': ('rmath::line_cubic_intersect_result', r'rmath::intersect\(rmath::line const&, rmath::bezier_cubic const&\)', 3),
       'CC': ('rmath::cubic_intersect_result', r'rmath::intersect\(rmath::bezier_cubic const&, rmath::bezier_cubic const&, int\)', 9)}


def args_view(e, s, kind, a):
    """geometry handed to the routine: [first, second] as point lists"""
    if kind == 'LL':
        q = [(e.load(s, p, ('double',)), e.load(s, p.add(8), ('double',))) for p in a[1:5]]
        return [q[0:2], q[2:4]]
    if kind == 'LC':
        return [[e.getf(s, a[1], 'rmath::line', 'p0'), e.getf(s, a[1], 'rmath::line', 'p1')], bez_pts(e, s, a[2])]
    return [bez_pts(e, s, a[1]), bez_pts(e, s, a[2])]


def same(e, s, a, b):
    return len(a) == len(b) and all(eq(e, s, x, y) is True for x, y in zip(a, b))


CL_T = {'0': R.c(0), '1': R.c(1)}


def pairs(ctx):
    f = ctx.prog.fn(r'vatti::clipper::intersect\(vatti::vertex\* const&, vatti::vertex\* const&\)')
    w = ctx.prog.where(f)
    combos1 = list(itertools.product(('0', 'in', '1'), repeat=2))
    for kinds in ('LL', 'LC', 'CL', 'CC'):
        key = ''.join(sorted(kinds, reverse=True))
        cls, pat, cap = RES[key]
        sets = [()] + [(c,) for c in combos1] + [(a, b) for a in combos1[::2] for b in combos1[1::3]]
        sets.append(tuple(('in', 'in') for _ in range(cap)))
        sets.append(tuple(('in', '0') if i % 2 else ('1', 'in') for i in range(cap)))
        for combo, link in [(c, '') for c in sets] + [(c, k) for c in sets[1:10:4] + sets[-2:] for k in ('lr', 'rl', 'both')]:
            e = ctx.engine()
            st = State()
            c = mkclipper(e, st)
            vs, geom = [], []
            for nm, k in zip('lr', kinds):
                v = mkvertex(e, st, nm)
                pts = [vec(nm)] + [vec('%s%d' % (nm, i)) for i in range(1 if k == 'L' else 3)]
                if link in (nm + 'lr'.replace(nm, ''), 'both'):     # ends where the other one starts
                    pts[-1] = vec('lr'.replace(nm, ''))
                g = mkline(e, st, pts[1]) if k == 'L' else mkcubic(e, st, *pts[1:])
                e.setf(st, v, VX, 'next_seg', g)
                nv = mkvertex(e, st, nm + 'n', pts[-1])
                e.setf(st, v, VX, 'next', nv)
                e.setf(st, nv, VX, 'prev', v)
                vs.append(v)
                geom.append(pts)
            for i, k in ((0, 'lr'), (1, 'rl')):
                if link in (k, 'both'):
                    e.setf(st, vs[i], VX, 'next', vs[1 - i])
                    e.setf(st, vs[1 - i], VX, 'prev', vs[i])
            ts = []
            for i, cc in enumerate(combo):
                row = []
                for nm, x in zip('lr', cc):
                    t = CL_T.get(x)
                    if t is None:
                        t = sym('t%s%d' % (nm, i))
                        fassume(st, t - R.c(F(1, 1000)), POS)
                        fassume(st, R.c(F(999, 1000)) - t, POS)
                    row.append(t)
                ts.append(row)
            P = [vec('x%d' % i) for i in range(len(combo))]
            calls = []

            def mk(kind):
                def h(e_, s, a, f_, d_):
                    view = args_view(e_, s, kind, a)
                    order = None
                    for o in ((0, 1), (1, 0)):
                        if same(e_, s, view[0], geom[o[0]]) and same(e_, s, view[1], geom[o[1]]):
                            order = o
                            break
                    s.events.append(('isect', kind, order, view, s.stack))
                    rc = RES[kind][0]
                    n = len(combo) if order is not None else 0
                    e_.setf(s, a[0], rc, 'count', n)
                    base, sz = e_.off(rc, 'data')[0], e_.prog.sizeof(II)
                    for i in range(n):
                        q = a[0].add(base + i * sz)
                        e_.setf(s, q, II, 'p', P[i])
                        e_.setf(s, q, II, 't0', ts[i][order[0]])
                        e_.setf(s, q, II, 't1', ts[i][order[1]])
                    return [(s, None)]
                return h
            for k, (_, pt, _c) in RES.items():
                e.hook(pt, mk(k))
            ps = []
            for v in vs:
                p = Ptr(e.new_obj(st, size=8), 0)
                st.null[p.o] = False
                e.store(st, p, v, 8)
                ps.append(p)
            desc = '%s: %s/%s pair%s, crossings at (left,right) %s' % (w, *({'L': 'line', 'C': 'cubic'}[k] for k in kinds), {'': '', 'both': ' joined at both ends'}.get(link, ' joined at one end'), list(combo))
            for s, _ in ctx.run(e, f, [c] + ps, st, 'pairs'):
                cl = [ev for ev in s.events if ev[0] == 'isect']
                ctx.expect(s, len(cl) == 1, 'pairs/calls', lambda: '%s: %d intersection routines called, expected one' % (desc, len(cl)))
                if len(cl) != 1:
                    continue
                ctx.expect(s, cl[0][1] == key, 'pairs/routine', lambda: '%s: %s routine used' % (desc, cl[0][1]))
                ctx.expect(s, cl[0][2] is not None, 'pairs/args', lambda: '%s: the routine is given other geometry than the two segments at %s: %s' % (desc, e.fmt_stack(cl[0][-1]), short(cl[0][3])))
                if cl[0][2] is None:
                    continue
                b, n = vec_range(e, s, fp(e, c, CL, 'break_info_list'))
                sz = e.prog.sizeof(BI)
                got = [tuple(e.getf(s, b.add(i * sz), BI, k) for k in ('vert', 'break_point', 't')) for i in range(n // sz)]
                want = []
                for i, cc in enumerate(combo):
                    for j in (0, 1):
                        if cc[j] == 'in':
                            want.append((vs[j], P[i], ts[i][j]))
                ctx.expect(s, len(got) == len(want), 'pairs/count', lambda: '%s: %d break points recorded, expected %d' % (desc, len(got), len(want)))
                left = list(got)
                for x in want:
                    m = [y for y in left if eq(e, s, y, x) is True]
                    if m:
                        left.remove(m[0])
                        ctx.ok()
                    else:
                        ctx.expect(s, False, 'pairs/entry', lambda: '%s: crossing not recorded for the %s segment with its own parameter and the point' % (desc, 'left' if x[0] == vs[0] else 'right'))


def check(ctx):
    ctx.rule('for each ordered pair of segment kinds, with the intersection routine replaced by one that returns arbitrary crossings: exactly the matching routine is called on exactly the two segments, and break_info_list receives each crossing once per segment in whose interior it lies, with that segment\'s own parameter')
    ctx.assumptions = ['interior means parameter in [0.001,0.999] (the code uses 1e-6), end point means exactly 0 or 1']
    ctx.bounds = ['up to 2 crossings in all position combinations, the maximum number in two mixtures; segments apart, consecutive either way, and forming a ring of two']
    ctx.group('pairs', pairs)
