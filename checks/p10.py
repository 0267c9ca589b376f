from geo import *
from fractions import Fraction as F

RES = 'rmath::cubic_intersect_result'
II = 'rmath::intersect_info'
RC = 'rmath::rect'


def halves(pts):
    """exact control polygons of the two halves"""
    h = R.c(F(1, 2))

    def mid(a, b):
        return tuple((a[i] + b[i]) * h for i in (0, 1))
    p01, p12, p23 = mid(pts[0], pts[1]), mid(pts[1], pts[2]), mid(pts[2], pts[3])
    q0, q1 = mid(p01, p12), mid(p12, p23)
    m = mid(q0, q1)
    return [pts[0], p01, q0, m], [m, q1, p23, pts[3]]


class Pieces(dict):
    """dyadic pieces of one curve, by the sequence of halves taken"""
    def __init__(self, pts):
        self[''] = pts
        self.keys_ = {pts_key(pts): ''}

    def need(self, name):
        if name not in self:
            self.need(name[:-1])
            for k, h in zip('01', halves(self[name[:-1]])):
                self[name[:-1] + k] = h
                self.keys_[pts_key(h)] = name[:-1] + k

    def cover(self, names):
        for n in names:
            self.need(n)
            self.need(n + '0')
        return self.keys_


def span(name):
    a, b = F(0), F(1)
    for c in name:
        m = (a + b) / 2
        a, b = (a, m) if c == '0' else (m, b)
    return a, b


def box_key(e, s, p):
    out = []
    for side, fld in (('min', 'min'), ('max', 'max')):
        for v in e.getf(s, p, RC, fld):
            if not isinstance(v, R):
                return None
            out.append(frozenset(str(l) for l in leaves(v) if not (l.isconst() and abs(float(l.cv())) > 1e300)))
    return tuple(out)


def pts_key(pts):
    xs = frozenset(str(p[0]) for p in pts)
    ys = frozenset(str(p[1]) for p in pts)
    return (xs, ys, xs, ys)


def run_list(ctx, part):
    one = [('0', '0'), ('0', '1'), ('1', '0'), ('1', '1')]
    if part == 'small':
        runs = [(0, None), (0, [])] + [(0, [c]) for c in one] + [(0, [one[0], one[3]]), (0, [one[1], one[2]])]
        two = [(a + c, b + d) for a, b in one for c, d in one]
        runs += [(1, [c]) for c in two] + [(1, [two[0], two[15], two[9]])]
        three = [(a + c, b + d) for a, b in two for c, d in one]
        runs += [(2, [c]) for c in (three if ctx.thorough else three[::7])]
        return runs

    def chain(n, k, m=1):
        st = [one[(i * m + k) % 4] for i in range(n)]
        return ''.join(x for x, _ in st), ''.join(y for _, y in st)
    if part.startswith('deep'):
        k = int(part[4:])
        return [(40, [chain(41, k)])]      # every combination of halves at every depth of the clipper's own search
    # neighbouring crossings: two final pieces that part at different depths
    runs = []
    for d in (8, 10, 12, 13):
        a, b = chain(d, 1)
        x, y = chain(13 - d, 2)
        runs.append((13, [(a + '0' + x, b + '0' + y), (a + '1' + x, b + '1' + y)]))
        runs.append((13, [(a + '0' + x, b + '1' + y), (a + '1' + x, b + '0' + y)]))
    return runs


def search(ctx, part):
    f = ctx.prog.fn(r'rmath::intersect\(rmath::bezier_cubic const&, rmath::bezier_cubic const&, int\)')
    w = ctx.prog.where(f)
    A = Pieces([vec('a%d' % i) for i in range(4)])
    B = Pieces([vec('b%d' % i) for i in range(4)])
    for prec, finals in run_list(ctx, part):
        ka = A.cover([x[0] for x in finals or [('', '')]])
        kb = B.cover([x[1] for x in finals or [('', '')]])
        e = ctx.engine()
        st = State()
        live = set()
        for a, b in finals or []:
            for i in range(len(a) + 1):
                live.add((a[:i], b[:i]))
        if finals is not None:
            live.add(('', ''))
        odd = []
        seen = []

        def h(e_, s_, args, f_, d_):
            k0, k1 = box_key(e_, s_, args[0]), box_key(e_, s_, args[1])
            for x, y in ((k0, k1), (k1, k0)):
                if x in ka and y in kb:
                    seen.append((ka[x], kb[y]))
                    return [(s_, 1 if (ka[x], kb[y]) in live else 0)]
            odd.append((e_.fmt_stack(s_.stack), k0, k1))
            s_.events.append(('imprecise', 'box'))
            return [(s_, 0)]
        e.hook(r'rmath::rect::intersect\(rmath::rect const&\) const', h)
        b1, _ = bez(e, st, pts=A[''])
        b2, _ = bez(e, st, pts=B[''])
        out = sret(e, st, RES)
        for s, _ in ctx.run(e, f, [out, b1, b2, prec], st, 'search'):
            if not seen and not odd:
                ctx.expect(s, None, 'search/form', 'overlap test not used')
                continue
            if odd:
                bad = False
                for wh, k0, k1 in odd:
                    # boxes of pieces of the two curves, but not of corresponding halves?
                    if k0 is None or k1 is None:
                        continue
                    bad = True
                    ctx.expect(None, False, 'search/box', '%s: a combination is tested with rectangles that are not those of the control points of two pieces (x corners %s / %s)' % (wh, short(sorted(k0[0])), short(sorted(k1[0]))))
                if bad:
                    continue
            n = e.getf(s, out, RES, 'count')
            exp = sorted(finals or [])
            desc = '%s: depth limit %d, overlapping final pieces %s' % (w, prec, exp)
            ctx.expect(s, n == len(exp) if isinstance(n, int) else None, 'search/count', lambda: '%s: %s crossings reported' % (desc, n))
            if n != len(exp):
                continue
            base = e.off(RES, 'data')[0]
            sz = e.prog.sizeof(II)
            got = [tuple(e.getf(s, out.add(base + i * sz), II, k) for k in ('p', 't0', 't1')) for i in range(n)]
            want = []
            for a, b in exp:
                (x0, x1), (y0, y1) = span(a), span(b)
                t0, t1 = R.c((x0 + x1) / 2), R.c((y0 + y1) / 2)
                want.append((bern(A[''], t0), t0, t1))
            for x in want:
                m = [g for g in got if eq(e, s, g, x) is True]
                ctx.expect(s, True if m else (None if any(eq(e, s, g, x) is None for g in got) else False), 'search/entry',
                           lambda: '%s: crossing of the final pieces is not reported with their mid parameters and the first curve\'s point; reported %s, expected %s' % (desc, short([g[1:] for g in got]), short(x[1:])))


def check(ctx):
    ctx.rule('the overlap test is only applied to control-point rectangles of exact halves of the two curves; with every single combination of halves declared overlapping, that combination (and only it) is followed and reported with its mid parameters')
    ctx.assumptions = ['real arithmetic', 'the overlap test answers are arbitrary']
    ctx.bounds = ['depth limits 0, 1, 2 (all combinations of halves at limits 0 and 1%s), one overlapping combination at a time at every depth up to 41, pairs of crossings down to 1e-4 apart' % (' and 2' if ctx.thorough else '')]
    for k in ['small', 'near'] + ['deep%d' % k for k in range(4)]:
        ctx.group('search/' + k, search, k)
