from fractions import Fraction as F
import witness
from facts import constant_atom
from p24 import *

FORMS = dict(SHAPES)
FORMS.update({
    'turned triangle': [(1, 7), (4, 3), (0, 0)],
    'bow': [(0, 0), (6, 5), (6, 1), (0, 6)],
    'star': [(3, 9), (0, 0), (8, 6), (-2, 5), (6, 1)],
    'comb': [(0, 0), (8, 0), (8, 6), (6, 2), (5, 7), (3, 2), (1, 8)],
    'notch': [(0, 0), (8, 0), (8, 6), (5, 6), (5, 2), (3, 2), (3, 6), (0, 6)],
    'kite': [(4, -1), (8, 4), (4, 9), (2, 4)],
    'twin': [(0, 0), (4, 3), (1, 7)],
    'shelf': [(2, 3), (10, 3), (10, 6), (2, 6)],
    'on top': [(0, 5), (4, 5), (2, 9)],
    'beside': [(4, 0), (7, 2), (4, 5)],
    'nest': [(-3, -3), (12, -3), (12, 12), (-3, 12)],
    'double loop': [(0, 0), (6, 0), (6, 6), (0, 6), (0, 0), (6, 0), (6, 6), (0, 6)],
    'sliver': [(1, 1), (5, 4)],
    'level': [(1, 2), (5, 2), (3, 2)],
})
# curved forms: a triple of points is a cubic to the last of them; parabolas and cubes that cross the others at rational places
CURVED = {
    'arch': [(0, 0), (12, 0), ((8, 12), (4, 12), (0, 0))],
    'bowl': [(0, 9), ((4, -3), (8, -3), (12, 9))],
    'lens': [(0, 0), ((4, -4), (8, -4), (12, 0)), ((8, 12), (4, 12), (0, 0))],
'straight curves': [(2, -3), ((5, -3), (8, -3), (11, -3)), ((11, 1), (11, 5), (11, 9)), ((8, 9), (5, 9), (2, 9)), ((2, 5), (2, 1), (2, -3))],
}
FLAT = {
    'band': [(-1, 5), (15, 5), (15, 8), (-1, 8)],
    'post': [(5, -5), (7, -5), (7, 30), (5, 30)],
    'half': [(-5, -9), (6, -9), (6, 40), (-5, 40)],
    'cover': [(-9, -9), (30, -9), (30, 40), (-9, 40)],
    'stone': [(5, 2), (7, 2), (7, 3), (5, 3)],
    'away': [(40, 5), (44, 5), (44, 8)],
    'ground': [(-2, -9), (14, -9), (14, 0), (-2, 0)],
    'lid': [(3, 9), (9, 9), (9, 12), (3, 12)],
    'roof': [(0, 4), (14, 11), (0, 11)],
    'slope': [(0, 9), (-6, 9), (12, -9)],
}
IRRATIONAL = {('arch', 'slope'), ('lens', 'slope'), ('bowl', 'roof')}     # cross at nested roots: left out
# three contours inside one another, in either direction
NEST = {'n1': [(-9, -9), (30, -8), (5, 40)], 'n2': [(-4, -5), (22, -4), (5, 30)], 'n3': [(0, 0), (14, 1), (5, 20)], 'left': [(-2, -5), (4, -4), (2, 6)], 'right': [(8, -5), (14, -4), (10, 6)], 'wedge': [(9, 0), (40, -2), (40, 4)]}
NEST.update({k + ' turned': v[::-1] for k, v in list(NEST.items())})
ALL_FORMS = dict(FORMS)
ALL_FORMS.update(NEST)
ALL_FORMS.update(CURVED)
ALL_FORMS.update(FLAT)
FILLS = {'even_odd': lambda w: w % 2 != 0, 'non_zero': lambda w: w != 0, 'positive': lambda w: w > 0, 'negative': lambda w: w < 0}
OPS = {'intersection': lambda a, b: a and b, 'union_': lambda a, b: a or b, 'difference': lambda a, b: a and not b, 'xor_': lambda a, b: a != b}


def witness_free(r):
    """value of an expression in numbers and roots of numbers only"""
    if any(not constant_atom(a) for a in r.atoms()):
        return None
    try:
        return F(witness.ev_r(r, {}, {}))
    except (witness.Undefined, ZeroDivisionError):
        return None


class Affine:
    """forms of fixed proportions, anywhere, any width and height"""
    def __init__(self, st):
        for k in ('sx', 'sy'):
            fassume(st, sym(k), POS)
            fassume(st, sym(k) - R.c(1), POS)      # well above the code's tolerance

    def place(self, pts):
        return tuple((sym('tx') + sym('sx') * R.c(x), sym('ty') + sym('sy') * R.c(y)) for x, y in pts)

    def back(self, p):
        return self.one(p[0], 'tx', 'sx'), self.one(p[1], 'ty', 'sy')

    def one(self, x, t, s):
        """c with x == t + s*c, or None"""
        c = x.subs({list(sym(t).atoms())[0]: R.c(0), list(sym(s).atoms())[0]: R.c(1)})
        if not c.isconst():
            k = witness_free(c)
            return k if k is not None and x == sym(t) + sym(s) * c else None
        c = F(c.cv())
        return c if x == sym(t) + sym(s) * R.c(c) else None

    def text(self):
        return 'at any place, width and height'


class Grid:
    """level and upright edges on grid lines at any distances (given ranks)"""
    def __init__(self, st):
        self.st = st
        self.made = set()

    def line(self, ax, r):
        v = sym('t' + ax)
        for j in range(r):
            g = sym('g%s%d' % (ax, j))
            if (ax, j) not in self.made:
                self.made.add((ax, j))
                fassume(self.st, g, POS)
                fassume(self.st, g - R.c(1), POS)
                fassume(self.st, R.c(1000) - g, POS)     # no distance so small that the code's tolerances hide it
            v = v + g
        return v

    def place(self, pts):
        return tuple((self.line('x', x), self.line('y', y)) for x, y in pts)

    def back(self, p):
        return self.one('x', p[0]), self.one('y', p[1])

    def one(self, ax, v):
        for r in range(12):
            if v == self.line(ax, r):
                return F(r)
        return None

    def text(self):
        return 'with any distances'


def curved(q):
    return isinstance(q[0], tuple)


def end(q):
    return q[-1] if curved(q) else q


def mapped(f, c):
    """contour with every point replaced by f(point)"""
    return [tuple(f(p) for p in q) if curved(q) else f(q) for q in c]


def edges(loops):
    """(from, to) or (from, control, control, to); closed with a line"""
    out = []
    for l in loops:
        for a, b in zip(l, l[1:] + [end(l[0])]):
            e = (end(a),) + (tuple(b) if curved(b) else (b,))
            if any(q != e[0] for q in e[1:]):
                out.append(e)
    return out


def commands(c, last):
    out, cur = [('move_to', [last, c[0]])], c[0]
    for q in c[1:]:
        out.append(('cubic_to', [cur] + list(q)) if curved(q) else ('line_to', [cur, q]))
        cur = end(q)
    return out


def drawn(s, n0):
    """reported contours; None if malformed"""
    out = []
    for ev in s.events[n0:]:
        if ev[0] != 'rep':
            continue
        if ev[1] == 'move_to':
            out.append([ev[2][-1]])
        elif not out:
            return None
        else:
            out[-1].append(tuple(ev[2][1:]) if ev[1] == 'cubic_to' else ev[2][-1])
    return out


# numeric side for curves
def bern(c, t):
    u = 1 - t
    return u * u * u * c[0] + 3 * u * u * t * c[1] + 3 * u * t * t * c[2] + t * t * t * c[3]


def turns(c):
    """parameters of the interior extremes of a cubic coordinate"""
    a, b, k = -c[0] + 3 * c[1] - 3 * c[2] + c[3], 2 * (c[0] - 2 * c[1] + c[2]), c[1] - c[0]
    if abs(a) < 1e-12:
        r = [-k / b] if abs(b) > 1e-12 else []
    else:
        d = b * b - 4 * a * k
        r = [] if d < 0 else [(-b - d ** 0.5) / (2 * a), (-b + d ** 0.5) / (2 * a)]
    return sorted(t for t in r if 1e-12 < t < 1 - 1e-12)


def fl(es):
    """edges as monotone numeric pieces [(xs, ys, t0, t1)]"""
    out = []
    for e in es:
        xs, ys = [float(p[0]) for p in e], [float(p[1]) for p in e]
        if len(e) == 2:
            xs = [xs[0], xs[0] + (xs[1] - xs[0]) / 3, xs[0] + (xs[1] - xs[0]) * 2 / 3, xs[1]]
            ys = [ys[0], ys[0] + (ys[1] - ys[0]) / 3, ys[0] + (ys[1] - ys[0]) * 2 / 3, ys[1]]
        ts = [0.0] + turns(ys) + [1.0]
        out += [(xs, ys, a, b) for a, b in zip(ts, ts[1:])]
    return out


def hits(ps, y):
    """[(x, direction)] of the pieces at level y"""
    out = []
    for xs, ys, a, b in ps:
        ya, yb = bern(ys, a), bern(ys, b)
        if (ya <= y) == (yb <= y):
            continue
        up = yb > ya
        for _ in range(60):
            m = (a + b) / 2
            if (bern(ys, m) <= y) == up:
                a = m
            else:
                b = m
        out.append((bern(xs, (a + b) / 2), -1 if up else 1))
    return sorted(out)


def region_num(sub, clip, op, fill, out):
    sub, clip, out = fl(sub), fl(clip), fl(out)
    ys = sorted({round(bern(p[1], t), 9) for p in sub + clip + out for t in p[2:]})
    for lo, hi in zip(ys, ys[1:]):
        for k in (0.137, 0.5, 0.871):
            y = lo + (hi - lo) * k
            h = [(x, d, g) for g, ps in ((0, sub), (1, clip), (2, out)) for x, d in hits(ps, y)]
            h.sort()
            w = [0, 0, 0]
            for i, (x, d, g) in enumerate(h):
                w[g] += d
                if i + 1 < len(h) and h[i + 1][0] - x < 1e-6:
                    continue
                want = OPS[op](FILLS[fill](w[0]), FILLS[fill](w[1]))
                if want != (w[2] % 2 != 0):
                    nx = h[i + 1][0] if i + 1 < len(h) else x + 2
                    return ((x + nx) / 2, y), want
    return None


def winding(es, p):
    w = 0
    for a, b in es:
        if (a[1] <= p[1]) != (b[1] <= p[1]):
            x = a[0] + (b[0] - a[0]) * F(p[1] - a[1]) / (b[1] - a[1])
            if x < p[0]:
                w += -1 if b[1] > a[1] else 1
    return w


def samples(es):
    """a point inside every face of the arrangement (at least one per slab and gap)"""
    ys = {p[1] for e in es for p in e}
    for i, (a, b) in enumerate(es):
        for c, d in es[i + 1:]:
            n = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if n:
                t = F((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / n
                if 0 < t < 1:
                    ys.add(a[1] + (b[1] - a[1]) * t)
    ys = sorted(ys)
    for lo, hi in zip(ys, ys[1:]):
        y = F(lo + hi) / 2
        xs = sorted({a[0] + (b[0] - a[0]) * F(y - a[1]) / (b[1] - a[1]) for a, b in es if (a[1] < y) != (b[1] < y)})
        for x0, x1 in zip(xs, xs[1:]):
            yield (x0 + x1) / 2, y
        if xs:
            yield xs[0] - 1, y
            yield xs[-1] + 1, y


def region(sub, clip, op, fill, loops):
    """None, or a point on which result and definition disagree"""
    sub, clip, out = edges(sub), edges(clip), edges(loops)
    if any(len(e) > 2 for e in sub + clip + out):
        return region_num(sub, clip, op, fill, out)
    for p in samples(sub + clip + out):
        want = OPS[op](FILLS[fill](winding(sub, p)), FILLS[fill](winding(clip, p)))
        got = winding(out, p) % 2 != 0
        if want != got:
            return p, want
    return None


def instance(st, loops):
    """all points at one input of this path, or None"""
    ex = [num(c) for l in loops for q in l for p in (q if curved(q) else (q,)) for c in p]
    for val, memo in witness.samples(list(st.facts.f.items()), 200, 1, ex):
        try:
            return [mapped(lambda p: tuple(F(witness.ev_r(num(c), val, memo)) for c in p), l) for l in loops]
        except (witness.Undefined, ZeroDivisionError):
            continue
    return None


def points(loops):
    return [p for l in loops for q in l for p in (q if curved(q) else (q,))]


def show(l):
    return [('curve ' if curved(q) else '') + '(%s, %s)' % end(q) for q in l]


def result(ctx, adds, op, fill, family=Affine, *fa):
    """adds: [([contour, ...], role)] one call of add_path each"""
    e = ctx.engine()
    e.mem_order = 1
    e.max_steps = 2000000
    p, s = processor(ctx, e, State())
    fam = family(s, *fa)
    states = [s]
    forms = [([ALL_FORMS[c] if isinstance(c, str) else c for c in cs], r) for cs, r in adds]
    place = lambda c: mapped(lambda q: fam.place([q])[0], c)
    for cs, role in forms:
        cmds, last = [], vec('zero')
        for c in cs:
            c = place(c)
            cmds += commands(c, last)
            last = end(c[-1])
        rd = reader(ctx, e, cmds, 'add')
        states = [s2 for s in states for s2, _ in ctx.run(e, ADDR_, [p, rd, NULL, role], s, 'add')]
    desc = '%s (%s) of %s %s' % (op.strip('_'), fill, ' and '.join('%s (%s)' % (' + '.join(map(str, a)), 'clip' if r else 'subject') for a, r in adds), fam.text())
    n = 0
    for s in states:
        n0 = len(s.events)
        for s2, u in run(ctx, e, s, p, op, fill):
            n += 1
            loops = drawn(s2, n0)
            if not ctx.expect(s2, loops is not None, 'stream', desc + ': drawing before the first move'):
                continue
            if not ctx.expect(s2, all(isinstance(num(c), R) for q in points(loops) for c in q), 'number', desc + ': a reported coordinate is no number'):
                continue
            out = [mapped(lambda q: fam.back((num(q[0]), num(q[1]))), l) for l in loops]
            role = lambda k, f=lambda c: c: [f(c) for cs, r in forms for c in cs if r == k]
            if all(c is not None for q in points(out) for c in q):
                bad = region(role(0), role(1), op, fill, out)
            else:
                # not on the family's own frame: compare at one input of the path
                inp = role(0, place), role(1, place)
                at = instance(s2, list(inp[0]) + list(inp[1]) + loops)
                bad = None
                if at is not None:
                    a, b = len(inp[0]), len(inp[0]) + len(inp[1])
                    out = at[b:]
                    bad = region(at[:a], at[a:b], op, fill, out)
                if bad is None:
                    ctx.expect(s2, None, 'frame', desc + ': a reported point does not move with the input')
                    continue
            ctx.expect(s2, bad is None, 'region', lambda: '%s: point (%s, %s) is %s the combination, the result says otherwise; result %s' % (
                desc, bad[0][0], bad[0][1], 'in' if bad[1] else 'outside', [show(l) for l in out]))
    ctx.expect(None, True if n else None, 'reached', desc + ': no path reaches the end')
    ctx.count('combinations')
    ctx.count('paths_judged', n)


def merges(n, m):
    """every way n rising and m rising lines can lie: ranks of both"""
    out = []

    def go(a, b, r):
        if len(a) == n and len(b) == m:
            out.append((tuple(a), tuple(b)))
            return
        if len(a) < n:
            go(a + [r], b, r + 1)
        if len(b) < m:
            go(a, b + [r], r + 1)
        if len(a) < n and len(b) < m:
            go(a + [r], b + [r], r + 1)
    go([], [], 0)
    return out


BOX = [(0, 0), (1, 0), (1, 1), (0, 1)]
STEP = [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)]
CUP = [(0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2)]
BAR = [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (0, 2)]
LOOP2 = BOX + BOX


def on(form, xs, ys, turn=0):
    l = [(xs[x], ys[y]) for x, y in form]
    return l[::-1] if turn else l


def size(form):
    return max(x for x, y in form) + 1, max(y for x, y in form) + 1


def grid_cases(f, g, ops, fills, turns=((0, 0),)):
    (fx, fy), (gx, gy) = size(f), size(g)
    for x in merges(fx, gx):
        for y in merges(fy, gy):
            for op in ops:
                for fill in fills:
                    for t, u in turns:
                        yield ([([on(f, x[0], y[0], t)], 0), ([on(g, x[1], y[1], u)], 1)], op, fill, Grid)


def pick(cases, n):
    """n of the cases, spread evenly"""
    cases = list(cases)
    if n >= len(cases):
        return cases
    return [cases[int((i + 0.5) * len(cases) / n)] for i in range(n)]


def curve_cases(ops, fills):
    return [([([a], k), ([b], 1 - k)], op, f) for a in CURVED for b in sorted(FLAT) if (a, b) not in IRRATIONAL for op in ops for f in fills for k in (0, 1)]


def many(ctx, cases):
    for c in cases:
        result(ctx, *c)


def check(ctx):
    ctx.rule('whole runs, abstractly interpreted in exact arithmetic over families of contours: every face of the arrangement of inputs and result is inside the result exactly when the combination contains it')
    ctx.bounds = ['every pair of axis-parallel rectangles (169 relative positions, any distances in ]1, 1000[ between neighbouring grid lines), every operation',
                  'stepped, cup-shaped and doubled rectilinear contours against rectangles: relative positions sampled evenly (quick), all (thorough)',
                  'forms of fixed proportions at any place, width and height: %s; pairs of them, and two subjects with one clip; three subjects inside one another, or two beside each other inside a third, in either direction' % ', '.join(sorted(FORMS))]
    ctx.bounds.append('parabolic and straight cubics (%s) against straight-sided forms (%s); no two curves that meet' % (', '.join(sorted(CURVED)), ', '.join(sorted(FLAT))))
    ctx.assumptions = ['real arithmetic for floating point']
    deep = ctx.tier == 'thorough'
    names, ops, fills = sorted(FORMS), sorted(OPS), sorted(FILLS)
    cases = list(grid_cases(BOX, BOX, ops, ['non_zero']))
    rest = list(grid_cases(BOX, BOX, ops, ['even_odd', 'positive', 'negative'], ((0, 0), (0, 1), (1, 0))))
    cases += rest if deep else pick(rest, 150)
    for f in (STEP, CUP, BAR, LOOP2):
        r = list(grid_cases(f, BOX, ops, fills, ((0, 0), (1, 0), (0, 1))))
        cases += pick(r, 3000 if deep else 36)
    r = [([([a], 0), ([b], 1)], op, f) for a in names for b in names for op in ops for f in fills]
    cases += r if deep else pick(r, 380)
    r = [([([a], 0), ([b], 0), ([c], 1)], op, f) for a in names for b in names for c in names for op in ops for f in fills]
    r += [([([a, b], 0), ([c], 1)], op, f) for a in names for b in names for c in names for op in ops for f in fills]
    cases += pick(r, 3000 if deep else 70)
    r = [([([a, b, c], 0), (['wedge'], 1)], op, f) for a in ('n1', 'n1 turned') for b in ('n2', 'n2 turned') for c in ('n3', 'n3 turned') for op in ops for f in fills]
    r += [([([a, b, c], 0), (['wedge'], 1)], op, f) for a in ('n1', 'n1 turned') for b in ('left', 'left turned') for c in ('right', 'right turned') for op in ops for f in fills]
    cases += r if deep else pick(r, 88)
    r = curve_cases(ops, fills)
    cases += r if deep else pick(r, 110)
    k = 64
    for i in range(k):
        ctx.group('set%d' % i, many, cases[i::k])
