from geo import *
import p07, p08
from fractions import Fraction as F

CAP = {'rmath::line_intersect_result': ('data', 2), 'rmath::line_cubic_intersect_result': ('data', 3), 'rmath::cubic_intersect_result': ('data', 9),
       'rmath::point_at_y_result': ('t', 3), 'rmath::quad_equa_result': ('data', 2), 'rmath::cubic_equa_result': ('data', 3)}
II = 'rmath::intersect_info'


def eng(ctx, **kw):
    e = ctx.engine(**kw)
    # defaults do not count as filled in
    e.hook(r'rmath::intersect_info::intersect_info\(\)', lambda e_, s_, a, f_, d_: [(s_, None)])
    return e


def judge(ctx, e, s, out, cls, what, desc):
    fld, cap = CAP[cls]
    off, size = e.off(cls, fld)[:2]
    if cls.endswith('intersect_result'):
        esz = e.prog.sizeof(II)
    else:
        esz = 8
    cap = size // esz if size and size % esz == 0 and size >= esz else cap
    bad = [ev for ev in s.events if ev[0] == 'oob_store']
    ctx.expect(s, not bad, what + '/overrun', lambda: '%s: writes past the result array at %s; facts %s' % (desc, e.fmt_stack(bad[0][-1]), short(s.facts)))
    n = e.getf(s, out, cls, 'count')
    if not isinstance(n, int):
        ctx.expect(s, False if n is UNDEF else None, what + '/count', desc + ': count not set')
        return
    ctx.expect(s, 0 <= n <= cap, what + '/count', '%s: %d entries counted, the result holds %d' % (desc, n, cap))
    for i in range(min(n, cap)):
        q = out.add(off + i * esz)
        vals = [e.getf(s, q, II, k) for k in ('p', 't0', 't1')] if esz != 8 else [e.load(s, q, ('double',))]
        fl = []
        for v in vals:
            fl += list(v) if isinstance(v, tuple) else [v]
        ctx.expect(s, not any(v is UNDEF for v in fl), what + '/unset', '%s: counted entry %d was never filled in; facts %s' % (desc, i, short(s.facts)))


def lines(ctx):
    f, w = p07.setup(ctx)
    cls = 'rmath::line_intersect_result'
    dirs = [(1, 0), (0, -1), (2, 3)] if not ctx.thorough else p07.DIRS
    for d in dirs:
        for wo in p07.weak_orders(range(4)):
            rank = {i: k for k, blk in enumerate(wo) for i in blk}
            e = eng(ctx)
            st = State()
            lev = [sym('s%d' % k) for k in range(len(wo))]
            for k in range(1, len(wo)):
                fassume(st, lev[k] - lev[k - 1], POS)
            o = vec('o')
            P = [(o[0] + lev[rank[i]] * R.c(d[0]), o[1] + lev[rank[i]] * R.c(d[1])) for i in range(4)]
            out = sret(e, st, cls)
            for s, _ in ctx.run(e, f, [out] + [vec_obj(e, st, p) for p in P], st, 'lines'):
                judge(ctx, e, s, out, cls, 'lines', '%s: collinear points along %s, order %s' % (w, d, ' < '.join('='.join('p%d' % i for i in b) for b in wo)))
    for sg in (POS, NEG):
        e = eng(ctx)
        st = State()
        P = [vec('p%d' % i) for i in range(4)]
        fassume(st, p07.cross(p07.sub(P[1], P[0]), p07.sub(P[3], P[2])), sg)
        out = sret(e, st, cls)
        for s, _ in ctx.run(e, f, [out] + [vec_obj(e, st, p) for p in P], st, 'lines'):
            judge(ctx, e, s, out, cls, 'lines', w + ': segments that are not parallel')


def solver_free(e, n):
    rs = [sym('r%d' % i) for i in range(n)]
    p08.solver(e, rs)


def line_cubic(ctx):
    f = ctx.prog.fn(r'rmath::intersect\(rmath::line const&, rmath::bezier_cubic const&\)')
    w = ctx.prog.where(f)
    cls = 'rmath::line_cubic_intersect_result'
    LN = 'rmath::line'
    for n in range(4):
        for (sx, sy) in ((1, 0), (0, 1), (1, -1), (0, 0)):
            e = eng(ctx)
            st = State()
            solver_free(e, n)
            # abstract curve points: any value at all
            e.hook(r'rmath::bezier_cubic::point_at\(double\) const', lambda e_, s_, a, f_, d_: [(s_, Agg([app('px', num(a[-1])), app('py', num(a[-1]))]))])
            b, pts = bez(e, st)
            ln = e.alloc_struct(st, LN, name=None, lazy=False)
            e.setf(st, ln, LN, 'p0', (R.c(0), R.c(0)))
            e.setf(st, ln, LN, 'p1', (R.c(sx), R.c(sy)))
            out = sret(e, st, cls)
            for s, _ in ctx.run(e, f, [out, ln, b], st, 'line-cubic'):
                judge(ctx, e, s, out, cls, 'line-cubic', '%s: %d roots' % (w, n))


def level(ctx):
    f = ctx.prog.fn(r'rmath::bezier_cubic::point_at_y\(double\) const')
    cls = 'rmath::point_at_y_result'
    for n in range(4):
        e = eng(ctx)
        st = State()
        solver_free(e, n)
        b, pts = bez(e, st)
        out = sret(e, st, cls)
        for s, _ in ctx.run(e, f, [out, b, sym('y')], st, 'level'):
            judge(ctx, e, s, out, cls, 'level', '%s: %d roots' % (ctx.prog.where(f), n))


def solvers(ctx):
    for cls, pat, k in (('rmath::quad_equa_result', r'rmath::resolv_quad_equa\(double, double, double\)', 3),
                        ('rmath::cubic_equa_result', r'rmath::resolv_cubic_equa\(double, double, double, double\)', 4)):
        f = ctx.prog.fn(pat)
        e = eng(ctx)
        st = State()
        out = sret(e, st, cls)
        for s, _ in ctx.run(e, f, [out] + [sym('a%d' % i) for i in range(k)], st, 'solver'):
            judge(ctx, e, s, out, cls, 'solver', ctx.prog.where(f) + ': arbitrary coefficients')


def curves(ctx, depth):
    f = ctx.prog.fn(r'rmath::intersect\(rmath::bezier_cubic const&, rmath::bezier_cubic const&, int\)')
    cls = 'rmath::cubic_intersect_result'
    for prec in depth:
        e = eng(ctx, max_steps=30000000)
        e.loop_watch = 10 ** 9
        st = State()
        e.hook(r'rmath::rect::intersect\(rmath::rect const&\) const', lambda e_, s_, a, f_, d_: [(s_, 1)])
        e.hook(r'rmath::rect::from\(.*\)', lambda e_, s_, a, f_, d_: [(s_, None)])
        z = [(R.c(0), R.c(0))] * 4
        b1, _ = bez(e, st, pts=z)
        b2, _ = bez(e, st, pts=z)
        out = sret(e, st, cls)
        for s, _ in ctx.run(e, f, [out, b1, b2, prec], st, 'curves'):
            judge(ctx, e, s, out, cls, 'curves', '%s: all combinations overlap, depth limit %d (%d candidate crossings)' % (ctx.prog.where(f), prec, 2 ** (prec + 1)))


def check(ctx):
    ctx.rule('no store of an intersection, level or equation routine lies outside the result object (bounds of every store on every path)')
    ctx.rule('count is within the array size and every counted entry has been stored to')
    ctx.assumptions = ['real arithmetic', 'the equation solver returns at most 3 values when used by its callers (established for the solver itself)']
    ctx.group('lines', lines)
    ctx.group('line-cubic', line_cubic)
    ctx.group('level', level)
    ctx.group('solvers', solvers)
    ctx.group('curves', curves, (0, 2, 3) if not ctx.thorough else (0, 1, 2, 3, 4))
