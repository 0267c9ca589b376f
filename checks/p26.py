from sweeplib import *
from geo import truths
from p27 import weak_orders

INS = r'vatti::clipper::insert_scanline\(double\)'
POP = r'vatti::clipper::pop_scanline\(double, double&\)'
POPM = r'vatti::clipper::pop_local_minima\(double, vatti::local_minima\*\*\)'
LOW = -R.c(F(1.7976931348623157e308))


def cell(e, st, v=None):
    p = Ptr(e.new_obj(st, size=8, tag='cell'), 0)
    st.null[p.o] = False
    if v is not None:
        e.store(st, p, v, 8)
    return p


def levels(ctx, e, s, c, old=None, limit=12):
    """[(state, [levels delivered until the queue says it is empty])]"""
    f = ctx.prog.fn(POP)
    work = [(s, [], old if old is not None else LOW)]
    out = []
    while work:
        s, got, y = work.pop()
        if len(got) > limit:
            out.append((s, got))
            continue
        p = cell(e, s, y)
        for s2, r in truths(e, ctx.run(e, f, [c, y, p], s, 'pop')):
            if r:
                ny = e.load(s2, p, ('double',))
                work.append((s2, got + [ny], ny))
            else:
                out.append((s2, got))
    return out


def heights(st, n, name='Y'):
    Y = [sym('%s%d' % (name, i)) for i in range(n)]
    for a, b in zip(Y, Y[1:]):
        fassume(st, b - a, POS)
    if Y:
        fassume(st, Y[0] - LOW, POS)
    return Y


def queue(ctx, n, part, parts):
    f = ctx.prog.fn(INS)
    w = ctx.prog.where(ctx.prog.fn(POP))
    for k, o in enumerate(weak_orders(n)):
        if k % parts != part:
            continue
        e = ctx.engine()
        st = State()
        c = mkclipper(e, st)
        Y = heights(st, max(o) + 1)
        todo = [st]
        for r in o:
            todo = [s2 for s in todo for s2, _ in ctx.run(e, f, [c, Y[r]], s, 'insert')]
        desc = '%s: levels requested in the order %s' % (w, [r for r in o])
        for s in todo:
            for s2, got in levels(ctx, e, s, c):
                ctx.expect_eq(e, s2, got, Y, 'queue/order', desc + ': levels delivered (each once, ascending)')
        ctx.count('request orders')


def interleaved(ctx):
    """levels requested while the sweep stands at a level, including that level itself"""
    f, g = ctx.prog.fn(INS), ctx.prog.fn(POP)
    w = ctx.prog.where(g)
    for first in itertools.product(range(2), repeat=2):
        for later in itertools.product(range(4), repeat=3):
            e = ctx.engine()
            st = State()
            c = mkclipper(e, st)
            Y = heights(st, 4)
            todo = [st]
            for r in first:
                todo = [s2 for s in todo for s2, _ in ctx.run(e, f, [c, Y[r]], s, 'insert')]
            cur = min(first)
            later = [max(x, cur) for x in later]
            for s in todo:
                p = cell(e, s, LOW)
                for s2, r in truths(e, ctx.run(e, g, [c, LOW, p], s, 'pop')):
                    desc = '%s: levels %s requested, the lowest taken, then %s requested' % (w, list(first), later)
                    if not ctx.expect(s2, r, 'queue/first', lambda: desc + ': no level delivered'):
                        continue
                    ctx.expect_eq(e, s2, e.load(s2, p, ('double',)), Y[cur], 'queue/lowest', desc + ': first level')
                    nx = [s2]
                    for q in later:
                        nx = [s4 for s3 in nx for s4, _ in ctx.run(e, f, [c, Y[q]], s3, 'insert')]
                    want = [Y[i] for i in sorted(set(list(first) + later)) if i > cur]
                    for s3 in nx:
                        for s4, got in levels(ctx, e, s3, c, Y[cur]):
                            ctx.expect_eq(e, s4, got, want, 'queue/next', desc + ': levels delivered afterwards')


def minima(ctx, n, part, parts):
    """reset, then at each level exactly its minima are handed out"""
    f, g, h = ctx.prog.fn(r'vatti::clipper::reset\(\)'), ctx.prog.fn(POPM), ctx.prog.fn(POP)
    w = ctx.prog.where(g)
    for k, o in enumerate(weak_orders(n)):
        if k % parts != part:
            continue
        e = ctx.engine()
        st = State()
        c = mkclipper(e, st)
        Y = heights(st, max(o) + 1)
        X = heights(st, n, 'X')
        lms = []
        for i, r in enumerate(o):
            v = mkvertex(e, st, 'v%d' % i, (X[(i * 2 + 1) % n], Y[r]), 8)
            lm = e.alloc_struct(st, LM, name='lm%d' % i, lazy=False)
            e.setf(st, lm, LM, 'vert', v)
            e.setf(st, lm, LM, 'polytype', i % 2)
            e.setf(st, lm, LM, 'is_open', 0)
            lms.append(lm)
        ptrvec(e, st, fp(e, c, CL, 'local_minima_list'), lms, n + 1)
        desc = '%s: minima at heights %s' % (w, list(o))
        for s, _ in ctx.run(e, f, [c], st, 'reset'):
            extra = s.clone()
            for s2, got in levels(ctx, e, s.clone(), c):
                ctx.expect_eq(e, s2, got, Y, 'minima/scheduled', desc + ': levels scheduled for the minima')
            cur = [s]
            for r, y in enumerate(Y):
                nxt = []
                for s1 in cur:
                    taken = []
                    work = [(s1, [])]
                    while work:
                        s2, taken = work.pop()
                        p = cell(e, s2, NULL)
                        for s3, ok in truths(e, ctx.run(e, g, [c, y, p], s2, 'take')):
                            if ok and len(taken) <= n:
                                work.append((s3, taken + [e.load(s3, p, ('ptr',))]))
                            else:
                                want = [lm for lm, q in zip(lms, o) if q == r]
                                ctx.expect(s3, sorted(map(repr, taken)) == sorted(map(repr, want)), 'minima/level', lambda: '%s: %d minima enter at height %d, expected %d' % (desc, len(taken), r, len(want)))
                                # a level between this one and the next one has none
                                z = sym('between%d' % r)
                                fassume(s3, z - y, POS)
                                if r + 1 < len(Y):
                                    fassume(s3, Y[r + 1] - z, POS)
                                for s4, ok4 in truths(e, ctx.run(e, g, [c, z, cell(e, s3, NULL)], s3, 'take')):
                                    ctx.expect(s4, not ok4, 'minima/none', lambda: '%s: a minimum enters at a height where there is none (after height %d)' % (desc, r))
                                    nxt.append(s4)
                cur = nxt
        ctx.count('minima arrangements')


SHAPES = ['V', 'LV', 'VL', 'LLV', 'VLL', 'LVL']


def enter(ctx, shape, two):
    """a minimum's two edges: direction, ends, and their tops scheduled"""
    f = ctx.prog.fn(r'vatti::clipper::insert_local_minima_to_ael\(double\)')
    w = ctx.prog.where(f)
    for same in (0, 1, 2):
        for flip in (0, 1):
            e = ctx.engine()
            st = State()
            c = mkclipper(e, st)
            y0 = sym('y0')
            fassume(st, y0 - LOW, POS)
            lms, exp, tops = [], {}, []
            last = y0
            for q in range(2 if two else 1):
                nl, nr = shape.index('V'), len(shape) - shape.index('V') - 1
                # contour runs prev side -> minimum -> next side; places left to right (or right to left)
                xs = [sym('x%d_%d' % (q, i)) for i in range(nl + nr + 3)]
                for a, b in zip(xs, xs[1:]):
                    fassume(st, b - a, POS)
                if q:
                    fassume(st, xs[0] - px[-1], POS)
                px = xs
                if flip:
                    xs = xs[::-1]
                t0, t1 = sym('t%da' % q), sym('t%db' % q)
                fassume(st, t0 - last, POS)
                last = t0
                if same == 1:
                    t1 = t0
                else:
                    fassume(st, t1 - t0, POS)
                    last = t1
                tops += [t0] if same == 1 else [t0, t1]
                if same == 2:
                    t0, t1 = t1, t0
                ring = [(xs[0], t0)] + [(x, y0) for x in xs[1:-1]] + [(xs[-1], t1)]
                at = nl + 1
                vs = [mkvertex(e, st, 'm%d_%d' % (q, i), p, 8 if i == at else 0) for i, p in enumerate(ring)]
                for i in range(len(vs) - 1):
                    e.setf(st, vs[i], VX, 'next', vs[i + 1])
                    e.setf(st, vs[i + 1], VX, 'prev', vs[i])
                    e.setf(st, vs[i], VX, 'next_seg', mkline(e, st, ring[i + 1]))
                lm = e.alloc_struct(st, LM, name='lm%d' % q, lazy=False)
                e.setf(st, lm, LM, 'vert', vs[at])
                e.setf(st, lm, LM, 'polytype', q)
                e.setf(st, lm, LM, 'is_open', 0)
                lms.append(lm)
                exp[lm] = {1: (ring[1], ring[0], vs[0]), -1: (ring[-2], ring[-1], vs[-1])}
            ptrvec(e, st, fp(e, c, CL, 'local_minima_list'), lms)
            b, n = vec_range(e, st, fp(e, c, CL, 'local_minima_list'))
            e.store(st, fp(e, c, CL, 'cur_locmin_it'), b, 8)
            desc = '%s: %d minima with base %s, %s' % (w, len(lms), shape, 'mirrored' if flip else 'plain')
            for s, _ in ctx.run(e, f, [c, y0], st, 'enter'):
                got, err = read_ael(e, s, c)
                if not ctx.expect(s, err is None and len(got) == 2 * len(lms), 'enter/edges', lambda: '%s: %s' % (desc, err or '%d edges entered' % len(got))):
                    continue
                seen = set()
                for d in got:
                    lm, wd = e.getf(s, d, ED, 'local_min'), e.getf(s, d, ED, 'wind_dx')
                    if not ctx.expect(s, lm in exp and wd in (1, -1) and (lm, wd) not in seen, 'enter/directions', lambda: '%s: the minimum does not enter as one ascending and one descending edge' % desc):
                        continue
                    seen.add((lm, wd))
                    bot, top, vt = exp[lm][wd]
                    side = 'descending' if wd == 1 else 'ascending'
                    ctx.expect_eq(e, s, e.getf(s, d, ED, 'bot'), bot, 'enter/bottom', '%s: bottom of the %s edge' % (desc, side))
                    ctx.expect_eq(e, s, e.getf(s, d, ED, 'top'), top, 'enter/top', '%s: top of the %s edge' % (desc, side))
                    ctx.expect_eq(e, s, e.getf(s, d, ED, 'curr_x'), bot[0], 'enter/place', '%s: place of the %s edge' % (desc, side))
                    ctx.expect(s, e.getf(s, d, ED, 'vertex_top') == vt, 'enter/vertex', lambda: '%s: top vertex of the %s edge' % (desc, side))
                    ctx.expect(s, e.getf(s, d, ED, 'bound') == NULL, 'enter/bound', lambda: '%s: a new edge already bounds an output' % desc)
                for s2, lv in levels(ctx, e, s, c, y0):
                    ctx.expect_eq(e, s2, lv, tops, 'enter/scheduled', desc + ': levels scheduled for the tops of the new edges')
            ctx.count('entries')


KINDS = ['max', 'next', 'level-next', 'level2-next', 'level-max', 'through']


def edge_of(e, st, i, kind, up, X, y, ylow):
    """edge number i (place X) and what becomes of it: (edge, None or (bot, top, vertex), x, scheduled)"""
    x0, dx = X, sym('w%d' % i)
    fassume(st, dx, POS)
    bot = (x0, ylow)
    if kind == 'through':
        yt = sym('T%d' % i)
        fassume(st, yt - y, POS)
        top = (x0, yt)
        d = active(e, st, 'e%d' % i, bot, top, up, i % 2)
        return d, (bot, top, e.getf(st, d, ED, 'vertex_top')), x0, None
    top = (x0, y)
    d = active(e, st, 'e%d' % i, bot, top, up, i % 2, flags=4 if kind == 'max' else 0)
    v = e.getf(st, d, ED, 'vertex_top')
    pts = []
    if kind == 'max':
        pts = [(x0 + dx / R.c(9), ylow)]
    for k in range({'max': 0, 'next': 0, 'level-next': 1, 'level2-next': 2, 'level-max': 1}[kind]):
        pts.append((x0 + dx * R.c(F(k + 1, 8)), y))
    if kind == 'level-max':
        pts.append((x0 + dx, ylow))
    elif kind != 'max':
        yt = sym('T%d' % i)
        fassume(st, yt - y, POS)
        pts.append((x0 + dx, yt))
    cur, cp = v, top
    for k, p in enumerate(pts):
        nv = mkvertex(e, st, 'e%d.n%d' % (i, k), p, 4 if kind == 'level-max' and k == len(pts) - 2 else 0)
        a, b = (cur, nv) if up else (nv, cur)
        e.setf(st, a, VX, 'next', b)
        e.setf(st, b, VX, 'prev', a)
        e.setf(st, a, VX, 'next_seg', mkline(e, st, p if up else cp))
        cur, cp = nv, p
    if kind in ('max', 'level-max'):
        return d, None, None, None
    b = pts[-2] if len(pts) > 1 else top
    return d, (b, pts[-1], cur), b[0], pts[-1][1]


def advance(ctx, n, part, parts):
    f = ctx.prog.fn(r'vatti::clipper::do_top_of_scanbeam\(double\)')
    w = ctx.prog.where(f)
    for k, kinds in enumerate(itertools.product(KINDS, repeat=n)):
        if k % parts != part:
            continue
        for ups in ([True, False] if n == 1 else [k % 2 == 0]):
            e = ctx.engine()
            st = State()
            c = mkclipper(e, st)
            y, yl = sym('y'), sym('yl')
            fassume(st, y - yl, POS)
            fassume(st, yl - LOW, POS)
            X = heights(st, n, 'X')
            es, want, sched = [], [], []
            for i, kd in enumerate(kinds):
                d, after, x, lev = edge_of(e, st, i, kd, ups if i % 2 == 0 else not ups, X[i], y, yl)
                es.append(d)
                if after is not None:
                    want.append((d, after, x))
                if lev is not None:
                    sched.append(lev)
            for i in range(n - 1):      # a level run does not reach the next edge
                fassume(st, X[i + 1] - X[i] - sym('w%d' % i), POS)
            for a, b in zip(sched, sched[1:]):
                fassume(st, b - a, POS)
            link_ael(e, st, c, es)
            desc = '%s: active edges that %s at this level' % (w, ', '.join(kinds))
            for s, _ in ctx.run(e, f, [c, y], st, 'advance'):
                got, err = read_ael(e, s, c)
                if not ctx.expect(s, err is None and got == [x[0] for x in want], 'advance/edges', lambda: '%s: %s' % (desc, err or 'the edges left in the sweep are not those that go on')):
                    continue
                for i, (d, (b, t, v), x) in enumerate(want):
                    ctx.expect_eq(e, s, e.getf(s, d, ED, 'bot'), b, 'advance/bottom', '%s: bottom of remaining edge %d' % (desc, i))
                    ctx.expect_eq(e, s, e.getf(s, d, ED, 'top'), t, 'advance/top', '%s: top of remaining edge %d' % (desc, i))
                    ctx.expect(s, e.getf(s, d, ED, 'vertex_top') == v, 'advance/vertex', lambda: '%s: top vertex of remaining edge %d' % (desc, i))
                    ctx.expect_eq(e, s, e.getf(s, d, ED, 'curr_x'), x, 'advance/place', '%s: place of remaining edge %d' % (desc, i))
                for s2, lv in levels(ctx, e, s, c, y):
                    ctx.expect_eq(e, s2, lv, sched, 'advance/scheduled', desc + ': levels scheduled for the tops of the edges that took over')
            ctx.count('advances')


def check(ctx):
    N = 5 if ctx.thorough else 4
    ctx.rule('insert_scanline/pop_scanline: every order (with ties) of up to %d requests, and requests made while the sweep stands at a level: delivered strictly ascending, each once, until none is left' % N)
    ctx.rule('reset/pop_local_minima: every arrangement of heights of up to 4 minima: every height is scheduled and exactly its minima enter there')
    ctx.rule('insert_local_minima_to_ael: point and level bases of up to 3 runs, one or two minima: one ascending and one descending edge, standing where the level run ends, tops scheduled')
    ctx.rule('do_top_of_scanbeam: every combination of ending, continuing, level-continuing and passing edges: who stays, with which ends and place, and which levels are scheduled')
    ctx.bounds = ['up to %d requests, 4 minima, 3 active edges' % N]
    ctx.assumptions = ['coordinates above the lowest representable number']
    for n in range(1, N + 1):
        for p in range(4 if n > 3 else 1):
            ctx.group('queue-%d-%d' % (n, p), queue, n, p, 4 if n > 3 else 1)
    ctx.group('interleaved', interleaved)
    for n in range(1, 5):
        for p in range(3 if n > 3 else 1):
            ctx.group('minima-%d-%d' % (n, p), minima, n, p, 3 if n > 3 else 1)
    for s in SHAPES:
        for two in (0, 1):
            ctx.group('enter-%s-%d' % (s, two), enter, s, two)
    for n in (1, 2, 3):
        for p in range(6 if n == 3 else 1):
            ctx.group('advance-%d-%d' % (n, p), advance, n, p, 6 if n == 3 else 1)
