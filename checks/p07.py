from geo import *

LR = 'rmath::line_intersect_result'
II = 'rmath::intersect_info'


def setup(ctx):
    f = ctx.prog.fn(r'rmath::intersect\(rmath::vec2 const&, rmath::vec2 const&, rmath::vec2 const&, rmath::vec2 const&\)')
    return f, ctx.prog.where(f)


def call(ctx, e, st, f, pts, what):
    out = sret(e, st, LR)
    args = [out] + [vec_obj(e, st, p) for p in pts]
    for s, _ in ctx.run(e, f, args, st, what):
        n = e.getf(s, out, LR, 'count')
        if not isinstance(n, int):
            ctx.expect(s, None if n is not UNDEF else False, what + '/count', 'count not known: %r' % (n,))
            continue
        ents = []
        if 0 <= n <= 2:
            base = e.off(LR, 'data')[0]
            sz = e.prog.sizeof(II)
            for i in range(n):
                q = out.add(base + i * sz)
                ents.append((e.getf(s, q, II, 'p'), e.getf(s, q, II, 't0'), e.getf(s, q, II, 't1')))
        yield s, n, ents


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def crossing(ctx):
    f, w = setup(ctx)
    for sg in (POS, NEG):
        e = ctx.engine()
        st = State()
        P = [vec('p%d' % i) for i in range(4)]
        a, b = sub(P[1], P[0]), sub(P[3], P[2])
        D = cross(a, b)
        fassume(st, D, sg)
        c = sub(P[2], P[0])
        t0 = cross(c, b) / D
        t1 = cross(c, a) / D
        need = [t0, R.c(1) - t0, t1, R.c(1) - t1]
        for s, n, ents in call(ctx, e, st, f, P, 'crossing'):
            if n == 1:
                p, u0, u1 = ents[0]
                for q in need:
                    ctx.expect_sign(e, s, q, GE, 'crossing/extra', w + ': a crossing is reported although the segments have no common point')
                ctx.expect_eq(e, s, u0, t0, 'crossing/t0', w + ': first parameter is not the crossing\'s')
                ctx.expect_eq(e, s, u1, t1, 'crossing/t1', w + ': second parameter is not the crossing\'s')
                ctx.expect_eq(e, s, p, (P[0][0] + a[0] * t0, P[0][1] + a[1] * t0), 'crossing/p', w + ': reported point is not the crossing')
            elif n == 0:
                s2 = s.clone()
                ok = all(s2.facts.assume(s2.facts.rpoly(q), GE) for q in need)
                if not ok:
                    ctx.ok()
                else:
                    m = witness.confirm(s2.facts)
                    ctx.expect(s, False if m else None, 'crossing/missed', lambda: '%s: crossing segments reported as disjoint; facts %s; at %s' % (w, short(s2.facts), m))
            else:
                ctx.expect(s, False, 'crossing/count', '%s: %d crossings reported for two lines that are not parallel' % (w, n))


def weak_orders(items):
    """all weak orders as lists of blocks"""
    items = list(items)
    if not items:
        yield []
        return
    n = len(items)
    for mask in range(1, 1 << n):
        first = [items[i] for i in range(n) if mask >> i & 1]
        rest = [items[i] for i in range(n) if not mask >> i & 1]
        for w in weak_orders(rest):
            yield [first] + w


DIRS = [(1, 0), (-1, 0), (0, 1), (0, -1), (2, 3), (-2, 3), (2, -3), (-2, -3)]


def collinear(ctx, dirs):
    f, w = setup(ctx)
    for d in dirs:
        for wo in weak_orders(range(4)):
            rank = {i: k for k, blk in enumerate(wo) for i in blk}
            if rank[0] == rank[1] or rank[2] == rank[3]:
                continue
            e = ctx.engine()
            st = State()
            lev = [sym('s%d' % k) for k in range(len(wo))]
            for k in range(1, len(wo)):
                fassume(st, lev[k] - lev[k - 1], POS)
            o = vec('o')
            S = [lev[rank[i]] for i in range(4)]
            P = [(o[0] + S[i] * R.c(d[0]), o[1] + S[i] * R.c(d[1])) for i in range(4)]
            exp = []
            for i, (u, v) in ((0, (2, 3)), (1, (2, 3)), (2, (0, 1)), (3, (0, 1))):
                lo, hi = sorted((rank[u], rank[v]))
                if lo < rank[i] < hi:
                    t = (S[i] - S[u]) / (S[v] - S[u])
                    own = R.c(i % 2)
                    exp.append((P[i], own, t) if i < 2 else (P[i], t, own))
            desc = '%s: collinear segments along %s, order %s' % (w, d, ' < '.join('='.join('p%d' % i for i in b) for b in wo))
            for s, n, ents in call(ctx, e, st, f, P, 'collinear'):
                ctx.expect(s, n == len(exp), 'collinear/count', lambda: '%s: %d end points reported, %d lie inside the other segment' % (desc, n, len(exp)))
                if n != len(exp):
                    continue
                left = list(ents)
                for x in exp:
                    m = [y for y in left if eq(e, s, y, x) is True]
                    if m:
                        left.remove(m[0])
                        ctx.ok()
                    else:
                        ctx.expect(s, None if any(eq(e, s, y, x) is None for y in left) else False, 'collinear/entry', lambda: '%s: end point %s is not reported with its parameters; reported %s' % (desc, short(x), short(ents)))


def parallel(ctx, dirs):
    f, w = setup(ctx)
    for d in dirs:
        for h in (POS, NEG):
            e = ctx.engine()
            st = State()
            o, q = vec('o'), sym('h')
            fassume(st, q, h)
            S = [sym('s%d' % i) for i in range(4)]
            # the four positions along the direction are unrelated
            for sa in (POS, NEG):
                for sb in (POS, NEG):
                    s1 = st.clone()
                    fassume(s1, S[1] - S[0], sa)
                    fassume(s1, S[3] - S[2], sb)
                    P = []
                    for i in range(4):
                        k = q if i >= 2 else R.c(0)
                        P.append((o[0] + S[i] * R.c(d[0]) - k * R.c(d[1]), o[1] + S[i] * R.c(d[1]) + k * R.c(d[0])))
                    for s, n, ents in call(ctx, e, s1, f, P, 'parallel'):
                        ctx.expect(s, n == 0, 'parallel/count', '%s: parallel segments on different lines (direction %s) report %d common points' % (w, d, n))


def distance(ctx):
    """the collinearity test is the distance to the infinite line"""
    f = ctx.prog.fn(r'rmath::dist2_point_line\(rmath::vec2 const&, rmath::vec2 const&, rmath::vec2 const&\)')
    w = ctx.prog.where(f)
    e = ctx.engine()
    for case in (0, 1):
        st = State()
        p, a = vec('p'), vec('a')
        b = vec('b') if case == 0 else a
        d = sub(b, a)
        l2 = d[0] * d[0] + d[1] * d[1]
        if case == 0:
            fassume(st, l2, POS)
        c = cross(d, sub(p, a))
        v = sub(p, a)
        exp = c * c / l2 if case == 0 else v[0] * v[0] + v[1] * v[1]
        for s, r in ctx.run(e, f, [vec_obj(e, st, x) for x in (p, a, b)], st, 'distance'):
            ctx.expect_eq(e, s, r, exp, 'distance', w + ': not the squared distance to the line')


def check(ctx):
    ctx.rule('segments with non-zero cross product: one entry exactly under 0<=t0,t1<=1 of the exact solution, entry equal to that solution (rational identities)')
    ctx.rule('collinear: for every weak order of the four positions on the line and every direction class, the reported entries are exactly the end points strictly inside the other segment, with matching parameters')
    ctx.rule('parallel on different lines: no entry')
    ctx.assumptions = ['real arithmetic', 'segments have two different end points in the collinear case', 'collinear case analysed along 8 directions (one per sign class of the direction vector)']
    dirs = DIRS + ([(5, 1), (-1, 4), (7, -2), (-3, -8)] if ctx.thorough else [])
    ctx.group('crossing', crossing)
    ctx.group('collinear', collinear, dirs)
    ctx.group('parallel', parallel, dirs)
    ctx.group('distance', distance)
