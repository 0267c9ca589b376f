"""Which coordinates are copies and which are results of rounded arithmetic."""
from p31 import *
import p07, p08
from poly import Rounded


def exact(v, want):
    """v is the very value `want`, not something computed that would equal it without rounding"""
    v = num(v)
    return isinstance(v, R) and not isinstance(v, Rounded) and v == want


def bits(a, b):
    """the same value bit for bit: copies of one value"""
    a, b = num(a), num(b)
    if a is b:
        return True
    if isinstance(a, Rounded) or isinstance(b, Rounded):
        return False
    return a == b


def lines(ctx):
    """crossing of a level or upright segment with another one"""
    f, w = p07.setup(ctx)
    for axis in (0, 1):
        for which in (0, 1):
            for sg in (1, -1):
                e = ctx.engine()
                e.track = True
                st = State()
                P = [list(vec('p%d' % i)) for i in range(4)]
                a, b = (P[0], P[1]) if which == 0 else (P[2], P[3])
                c, d = (P[2], P[3]) if which == 0 else (P[0], P[1])
                b[axis] = a[axis]
                fassume(st, (b[1 - axis] - a[1 - axis]), POS if sg > 0 else NEG)
                fassume(st, d[axis] - a[axis], POS)
                fassume(st, a[axis] - c[axis], POS)
                fassume(st, d[axis] - c[axis], POS)
                desc = '%s: crossing of %s %s segment' % (w, ('an upright', 'a level')[axis], ('first', 'second')[which])
                for s, n, ents in p07.call(ctx, e, st, f, [tuple(p) for p in P], 'lines'):
                    for p, t0, t1 in ents:
                        ctx.expect(s, exact(p[axis], a[axis]), 'level/line', lambda: '%s: the %s of the reported point is computed, so rounding can move it off the segment (%s)' % (desc, 'xy'[axis], short(p[axis], 120)))
    ctx.count('routines')


def cubics(ctx):
    f = ctx.prog.fn(r'rmath::intersect\(rmath::line const&, rmath::bezier_cubic const&\)')
    w = ctx.prog.where(f)
    LN = 'rmath::line'
    for axis in (0, 1):
        for sg in (1, -1):
            e = ctx.engine()
            e.track = True
            st = State()
            t, u = sym('r0'), sym('u0')
            for v in (t, u):
                fassume(st, v, POS)
                fassume(st, R.c(1) - v, POS)
            p08.solver(e, [t])
            p0, l = vec('a'), sym('l')
            fassume(st, l, POS if sg > 0 else NEG)
            p1 = (p0[0], p0[1] + l) if axis == 0 else (p0[0] + l, p0[1])
            at = (p0[0], p0[1] + l * u) if axis == 0 else (p0[0] + l * u, p0[1])
            e.hook(r'rmath::bezier_cubic::point_at\(double\) const', lambda e_, s, a, f_, d_: [(s, Agg([Rounded(x.n, x.d) for x in at]))])
            b, pts = bez(e, st)
            ln = e.alloc_struct(st, LN, name=None, lazy=False)
            e.setf(st, ln, LN, 'p0', p0)
            e.setf(st, ln, LN, 'p1', p1)
            out = sret(e, st, p08.LCR)
            desc = '%s: crossing of a cubic with %s segment' % (w, ('an upright', 'a level')[axis])
            for s, _ in ctx.run(e, f, [out, ln, b], st, 'cubics'):
                cnt = e.getf(s, out, p08.LCR, 'count')
                if not isinstance(cnt, int) or not 0 <= cnt <= 3:
                    continue
                base, sz = e.off(p08.LCR, 'data')[0], e.prog.sizeof(p08.II)
                for i in range(cnt):
                    p = e.getf(s, out.add(base + i * sz), p08.II, 'p')
                    ctx.expect(s, exact(p[axis], p0[axis]), 'level/cubic', lambda: '%s: the %s of the reported point is computed, so rounding can move it off the segment' % (desc, 'xy'[axis]))
    ctx.count('routines')


def whole(ctx, adds, op, fill):
    e = ctx.engine()
    e.mem_order = 1
    e.max_steps = 2000000
    e.track = True
    p, s = processor(ctx, e, State())
    fam = Affine(s)
    states = [s]
    place = lambda c: mapped(lambda q: fam.place([q])[0], c)
    for cs, role in adds:
        cmds, last = [], vec('zero')
        for c in cs:
            c = place(ALL_FORMS[c])
            cmds += commands(c, last)
            last = end(c[-1])
        rd = reader(ctx, e, cmds, 'add')
        states = [s2 for s in states for s2, _ in ctx.run(e, ADDR_, [p, rd, NULL, role], s, 'add')]
    desc = '%s (%s) of %s' % (op.strip('_'), fill, ' and '.join('%s (%s)' % (' + '.join(a), 'clip' if r else 'subject') for a, r in adds))
    for s in states:
        n0 = len(s.events)
        before = [(v, e.getf(s, v, VX, 'pt')) for v in vertices(s)]
        for s2, u in run(ctx, e, s, p, op, fill):
            for v, pt in before:
                ctx.expect(s2, all(bits(a, b) for a, b in zip(pt, e.getf(s2, v, VX, 'pt'))), 'kept', lambda: '%s: the run computes the position of an input vertex (%s, %s) anew' % (desc, short(pt[0], 60), short(pt[1], 60)))
            judge_bits(ctx, e, s2, n0, desc)
    ctx.count('runs')


def vertices(s):
    vs = [Ptr(ev[2], 0) for ev in s.events if ev[0] == 'pool' and ev[1] == VX]
    return [v for v in vs if not s.mem[v.o].freed]


def judge_bits(ctx, e, s, n0, desc):
    pts = []
    for v in vertices(s):
        g, nx = e.getf(s, v, VX, 'next_seg'), e.getf(s, v, VX, 'next')
        if not (isinstance(g, Ptr) and isinstance(nx, Ptr)) or g.o in (0, None) or nx.o == 0:
            continue
        pt = e.getf(s, v, VX, 'pt')
        pts.append(pt)
        sv = seg_view(e, s, g)
        q = e.getf(s, nx, VX, 'pt')
        if sv is None:
            continue
        ctx.expect(s, all(bits(a, b) for a, b in zip(sv[1][-1], q)), 'ends', lambda: '%s: a piece ends at a value computed on its own instead of that of the vertex it leads to (%s, %s)' % (desc, short(q[0], 60), short(q[1], 60)))
    prev = None
    for ev in s.events[n0:]:
        if ev[0] != 'rep':
            continue
        to = ev[2][-1]
        ctx.expect(s, any(bits(to[0], q[0]) for q in pts) and any(bits(to[1], q[1]) for q in pts), 'reported', lambda: '%s: a reported point (%s, %s) has a coordinate that no vertex of the cut contours has: it was computed anew' % (desc, short(to[0], 60), short(to[1], 60)))
        if ev[1] != 'move_to' and prev is not None:
            ctx.expect(s, all(bits(a, b) for a, b in zip(ev[2][0], prev)), 'joined', lambda: '%s: a command starts at a value other than the one the command before it ended at' % desc)
        prev = to


def check(ctx):
    ctx.rule('value provenance: every floating-point operation that may round yields a marked value; a level (upright) segment\'s crossings must carry its own y (x) unmarked, input vertices must keep theirs, pieces must end at the stored value of the vertex they lead to, and every reported point must be a stored vertex value')
    ctx.assumptions = ['operations with an exact 0 or 1, and subtracting a value from itself, do not round']
    ctx.group('lines', lines)
    ctx.group('cubics', cubics)
    names, ops, fills = sorted(FORMS), sorted(OPS), sorted(FILLS)
    r = [([([a], 0), ([b], 1)], op, 'non_zero') for a in names for b in names for op in ops]
    c = curve_cases(ops, ['non_zero'])
    cases = r + c if ctx.tier == 'thorough' else pick(r, 96) + pick(c, 40)
    ctx.bounds = ['whole runs: pairs of forms %s with %s, %d runs' % (', '.join(names + sorted(CURVED)), ', '.join(sorted(FLAT)), len(cases))]
    for i in range(32):
        ctx.group('runs%d' % i, many_runs, cases[i::32])


def many_runs(ctx, cases):
    for c in cases:
        whole(ctx, *c)
