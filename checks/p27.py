import random
from ringlib import *

ISECT = r'vatti::clipper::intersect\(.*\)'
RECT = 'rmath::rect'


def weak_orders(n):
    """all weak orderings of n items as tuples of ranks 0..k-1"""
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)):
            yield r


def overlap(a, b, c, d):
    return max(min(a, b), min(c, d)) <= min(max(a, b), max(c, d))


def run(ctx, slits, bulge, order, what):
    """slits: [(xa, xb, ya, yb)] ranks; bulge: {slit: (x0, x1, y0, y1)} box ranks of the way back (a cubic), else a line"""
    f = ctx.prog.fn(r'vatti::clipper::process_intersect\(\)')
    ctx.prog.fn(ISECT)
    e = ctx.engine()
    e.mem_order = order
    st = State()
    c = mkclipper(e, st)
    nx = 1 + max(max(s[0], s[1]) for s in list(slits) + list(bulge.values()))
    ny = 1 + max(max(s[2], s[3]) for s in list(slits) + list(bulge.values()))
    X = [sym('X%d' % i) for i in range(nx)]
    Y = [sym('Y%d' % i) for i in range(ny)]
    for L in (X, Y):
        for a, b in zip(L, L[1:]):
            fassume(st, b - a, POS)
    starts, names, box = [], {}, {}
    for i, (xa, xb, ya, yb) in enumerate(slits):
        vs, pts, geo = mkring(e, st, 'LC' if i in bulge else 'LL', 's%d_' % i, [(X[xa], Y[ya]), (X[xb], Y[yb])])
        starts.append(vs[0])
        names[vs[0]] = (i, 'out')
        names[vs[1]] = (i, 'back')
        box[(i, 'out')] = (min(xa, xb), max(xa, xb), min(ya, yb), max(ya, yb))
        box[(i, 'back')] = bulge.get(i, box[(i, 'out')])
    ptrvec(e, st, fp(e, c, CL, 'paths_start'), starts, len(starts) + 1)

    def boundary(e_, s, a, f_, d_):
        # which curve: identified by its first control point symbol
        r, b = a[0], a[1]
        p1 = e_.getf(s, b, BZ, 'p1')
        i = next((k for k in bulge if p1[0] == sym('s%d_1.c1.x' % k)), None)
        if i is None:
            raise Unsupported('boundary of an unknown curve')
        q = bulge[i]
        e_.setf(s, r, RECT, 'min', (X[q[0]], Y[q[2]]))
        e_.setf(s, r, RECT, 'max', (X[q[1]], Y[q[3]]))
        return [(s, UNDEF)]

    def hit(e_, s, a, f_, d_):
        s.events.append(('pair',) + tuple(e_.load(s, p, ('ptr',)) if p not in names else p for p in a[1:3]))
        return [(s, UNDEF)]
    if bulge:
        e.hook(r'rmath::bezier_cubic::get_boundary\(\) const', boundary)
    e.hook(ISECT, hit)
    w = ctx.prog.where(f)
    desc = '%s: contours with rectangles (x0, x1, y0, y1 ranks) %s' % (w, box)
    for s, _ in ctx.run(e, f, [c], st, 'search'):
        got = {}
        for ev in s.events:
            if ev[0] != 'pair':
                continue
            k = frozenset(names.get(p) for p in ev[1:])
            got[k] = got.get(k, 0) + 1
        ctx.expect(s, all(None not in k and len(k) == 2 for k in got), 'pairs/known', lambda: desc + ': the crossing test is called with something else than two segments of the contours')
        for a, b in itertools.combinations(sorted(box), 2):
            n = got.get(frozenset((a, b)), 0)
            want = 1 if overlap(*(box[a][:2] + box[b][:2])) and overlap(*(box[a][2:] + box[b][2:])) else 0
            ctx.expect(s, n == want, 'pairs/' + ('missed' if n < want else 'once' if want else 'apart'), lambda: '%s: segments %s and %s are tested %d times, expected %d' % (desc, a, b, n, want))
    ctx.count('arrangements')


YP = [((0, 1), (0, 1)), ((0, 1), (1, 2)), ((0, 1), (2, 3)), ((0, 3), (1, 2)), ((2, 3), (0, 1)), ((0, 0), (0, 0))]


def two(ctx, part):
    n = 0
    for xo in weak_orders(4):
        for k, (y0, y1) in enumerate(YP):
            n += 1
            if n % 4 != part:
                continue
            run(ctx, [xo[:2] + y0, xo[2:] + y1], {}, 1 if k % 2 else -1, 'two')


def two_y(ctx):
    """all orders in y of two overlapping x ranges, and of two touching ones"""
    for yo in weak_orders(4):
        run(ctx, [(0, 2) + yo[:2], (1, 3) + yo[2:]], {}, 1, 'y')
        run(ctx, [(1, 2) + yo[:2], (0, 1) + yo[2:]], {}, -1, 'y')


def curves(ctx):
    """segments whose rectangle is wider than their ends"""
    rng = random.Random(5)
    for k in range(120 if ctx.thorough else 50):
        sl, bu = [], {}
        for i in range(2):
            a, b, c, d = [rng.randrange(5) for _ in range(4)]
            sl.append((a, b, c, d))
            bu[i] = (rng.randrange(min(a, b) + 1), rng.randrange(max(a, b), 5), rng.randrange(min(c, d) + 1), rng.randrange(max(c, d), 5))
        # ranks must be gap free
        sl, bu = compress(sl, bu)
        run(ctx, sl, bu, 1 if k % 2 else -1, 'curves')


def compress(sl, bu):
    for lo in (0, 2):
        vals = sorted({v for s in list(sl) + list(bu.values()) for v in s[lo:lo + 2]})
        m = {v: i for i, v in enumerate(vals)}
        f = lambda s: s[:lo] + (m[s[lo]], m[s[lo + 1]]) + s[lo + 2:]
        sl, bu = [f(s) for s in sl], {k: f(s) for k, s in bu.items()}
    return sl, bu


def three(ctx, part, parts):
    todo = [o for o in weak_orders(6) if all(o[i] <= o[i + 1] for i in (0, 2, 4))]
    random.Random(7).shuffle(todo)
    if not ctx.thorough:
        todo = todo[:240]
    for k, o in enumerate(todo[part::parts]):
        ys = [((0, 1), (0, 1), (0, 1)), ((0, 1), (1, 2), (2, 3)), ((0, 3), (1, 2), (0, 1))][k % 3]
        run(ctx, [o[0:2] + ys[0], o[2:4] + ys[1], o[4:6] + ys[2]], {}, 1 if k % 2 else -1, 'three')


def many(ctx):
    rng = random.Random(11)
    for k in range(12 if ctx.thorough else 4):
        n = 5 + k % 3
        sl = [tuple(rng.randrange(7) for _ in range(4)) for _ in range(n)]
        sl, _ = compress(sl, {})
        run(ctx, sl, {}, 1 if k % 2 else -1, 'many')


def check(ctx):
    ctx.rule('process_intersect with the crossing test replaced by a recorder, on contours whose coordinates are symbols with a given order: every pair of segments with rectangles sharing a point is recorded exactly once, no other pair is; all orders of two x ranges, all orders of two y ranges, and three to seven contours, with segment records at ascending and descending addresses')
    ctx.bounds = ['two-segment contours: all 75 orders of two x ranges with six y arrangements, 150 y orders, %s orders of three ranges, up to 14 segments at once' % ('all' if ctx.thorough else '240')]
    ctx.assumptions = ['rectangle of a line from the code, of a cubic abstracted (decided by P06)']
    for p in range(4):
        ctx.group('two-%d' % p, two, p)
    ctx.group('two-y', two_y)
    ctx.group('curves', curves)
    for p in range(8):
        ctx.group('three-%d' % p, three, p, 8)
    ctx.group('many', many)
