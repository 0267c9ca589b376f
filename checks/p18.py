from sweeplib import *

VALID = r'vatti::clipper::is_valid_ael_order\(vatti::edge const\*, vatti::edge const\*\) const'
Y0, Y1 = sym('y0'), sym('y1')
CUBX = r'river::seg_cubicto::curr_x\(rmath::vec2 const&, double\) const'


def order(ctx):
    """is_valid_ael_order: position, then position midway through the common range, then role"""
    f = ctx.prog.fn(VALID)
    w = ctx.prog.where(f)
    for kinds, ups, roles, rel in itertools.product(('LL', 'LC', 'CC'), ((0, 0), (0, 1), (1, 0), (1, 1)), ((0, 0), (0, 1), (1, 0), (1, 1)), ('same', 'rb', 'nb')):
        if kinds != 'LL' and (ups[0] == ups[1] or rel == 'nb'):
            continue
        if rel != 'same' and roles != (0, 0):
            continue
        for tops in ('r', 'n', '='):
            e = ctx.engine()
            st = State()
            c = mkclipper(e, st)
            yr, yn = sym('ry'), sym('ny')
            rb = (sym('rbx'), yr)
            nb = (sym('nbx'), yr if rel == 'same' else yn)
            rt = (sym('rtx'), sym('rty'))
            nt = (sym('ntx'), rt[1] if tops == '=' else sym('nty'))
            if rel == 'rb':
                fassume(st, nb[1] - rb[1], POS)
            elif rel == 'nb':
                fassume(st, rb[1] - nb[1], POS)
            for t in (rt, nt):
                for b in (rb, nb):
                    fassume(st, t[1] - b[1], POS)
            if tops == 'r':
                fassume(st, rt[1] - nt[1], POS)
            elif tops == 'n':
                fassume(st, nt[1] - rt[1], POS)
            lo = nb[1] if rel != 'nb' else rb[1]
            hi = nt[1] if tops == 'r' else rt[1]
            mid = (lo + hi) / R.c(2)
            es, at = [], []
            for nm, k, up, ro, b, t in zip('rn', kinds, ups, roles, (rb, nb), (rt, nt)):
                ctrl = (vec(nm + 'c'), vec(nm + 'd')) if k == 'C' else None
                d = active(e, st, nm, b, t, up, ro, ctrl, sym(nm + 'cx'))
                es.append(d)
                at.append(line_x(b, t, mid) if k == 'L' else sym(nm + '.mid'))
            segs = {}
            for d, nm, k, up, b, t in zip(es, 'rn', kinds, ups, (rb, nb), (rt, nt)):
                if k == 'C':
                    v = e.getf(st, d, ED, 'vertex_top')
                    a = e.getf(st, v, VX, 'prev') if up else v
                    segs[e.getf(st, a, VX, 'next_seg')] = (sym(nm + '.mid'), b if up else t)

            def cubx(e_, s, a, f_, d_):
                if a[0] not in segs:
                    raise Unsupported('cubic of an unknown edge')
                fr = (e_.load(s, a[1], ('double',)), e_.load(s, a[1].add(8), ('double',)))
                v, want = segs[a[0]]
                s.events.append(('cubx', eq(e_, s, fr, want), eq(e_, s, a[2], mid)))
                return [(s, v)]
            if segs:
                e.hook(CUBX, cubx)
            desc = '%s: resident %s%s, newcomer %s%s, roles %s, bottoms %s, higher top %s' % (w, kinds[0], '^' if ups[0] else 'v', kinds[1], '^' if ups[1] else 'v', roles, rel, tops)
            for s, v in truths(e, ctx.run(e, f, [c] + es, st, 'order')):
                for ev in s.events:
                    if ev[0] == 'cubx':
                        ctx.expect(s, ev[1], 'order/start', lambda: desc + ': the curve is evaluated from another start point')
                        ctx.expect(s, ev[2], 'order/height', lambda: desc + ': the curve is evaluated at another height than midway through the common range')
                dx = sym('ncx') - sym('rcx')
                for s1, ix in cases(s, [(dx, [NEG, ZER, POS]), (at[1] - at[0], [NEG, ZER, POS])]):
                    want = (ix[0] == 2) if ix[0] != 1 else (ix[1] == 2) if ix[1] != 1 else roles[0] < roles[1]
                    if v == int(want):
                        ctx.ok()
                    else:
                        ctx.n_ob += 1
                        m = ctx.refute(s1, [dx, at[1] - at[0]], lambda vs: 'reported %s: newcomer minus resident %g now, %g midway' % ('before' if not v else 'after', vs[0], vs[1])
                                       if (vs[0] > 1e-9 if abs(vs[0]) > 1e-9 else vs[1] > 1e-9 if abs(vs[1]) > 1e-9 else roles[0] < roles[1]) != bool(v) else None)
                        if m:
                            ctx.expect(s1, False, 'order/result', '%s: %s' % (desc, m))
                        elif ctx.feasible(s1) is None:
                            ctx.n_ob -= 1
                        else:
                            ctx.inconclusive('order/result', desc + ': undecided; ' + short(s1.facts))


def spread(e, st, positions, roles, names=None, ups=None):
    """edges leaving height y0 for y1 at symbolic, ordered places; positions: list of (group, slope) integers, larger = further right"""
    fassume(st, Y1 - Y0, POS)
    gs = sorted({g for g, _ in positions})
    for a, b in itertools.combinations(gs, 2):
        fassume(st, sym('X%d' % b) - sym('X%d' % a), POS)
    ss = sorted({s for _, s in positions})
    for a, b in itertools.combinations(ss, 2):
        fassume(st, sym('S%d' % b) - sym('S%d' % a), POS)
    out = []
    for i, (g, s) in enumerate(positions):
        b = (sym('X%d' % g), Y0)
        t = (sym('X%d' % g) + sym('S%d' % s), Y1)
        out.append(active(e, st, (names or 'abcdefgh')[i], b, t, (ups or [0, 1] * 4)[i], roles[i]))
    return out


def chk(ctx, e, s, c, want, key, desc, names):
    got, err = read_ael(e, s, c)
    nm = dict(zip(names[0], names[1]))
    ctx.expect(s, err is None, key + '/links', lambda: '%s: %s' % (desc, err))
    ctx.expect(s, got == want, key + '/content', lambda: '%s: list is %s, expected %s' % (desc, [nm.get(x, '?') for x in got], [nm.get(x, '?') for x in want]))


# residents, newcomer -> position; (group, slope)
LAYOUTS = [
    ([], (1, 0)), ([(1, 0)], (2, 0)), ([(2, 0)], (1, 0)),
    ([(1, 0), (2, 0)], (3, 0)), ([(1, 0), (3, 0)], (2, 0)), ([(2, 0), (3, 0)], (1, 0)),
    ([(1, 0), (1, 2), (2, 0)], (1, 1)), ([(1, 0), (1, 1), (2, 0)], (1, 2)), ([(1, 1), (1, 2)], (1, 0)),
    ([(1, 0), (2, 0), (2, 2), (3, 0)], (2, 1)), ([(1, 0), (2, 0), (3, 0), (4, 0)], (5, 0)), ([(1, 5), (2, 4), (4, 1), (5, 0)], (3, 3)),
]


def insertion(ctx):
    for form in ('plain', 'after'):
        f = ctx.prog.fn(r'vatti::clipper::insert_into_ael\(vatti::edge\*\)' if form == 'plain' else r'vatti::clipper::insert_into_ael\(vatti::edge\*, vatti::edge\*\)')
        w = ctx.prog.where(f)
        for res, new in LAYOUTS:
            k = sum(1 for r in res if r < new)
            for swap in (0, 1):
                for left in ([None] if form == 'plain' else [-1] + list(range(k))):
                    e = ctx.engine()
                    st = State()
                    c = mkclipper(e, st)
                    es = spread(e, st, res + [new], [(i + swap) % 2 for i in range(len(res) + 1)], ups=[(i + swap) % 2 for i in range(len(res) + 1)])
                    n = es.pop()
                    link_ael(e, st, c, es)
                    for fl in ('prev_in_ael', 'next_in_ael'):
                        e.setf(st, n, ED, fl, NULL if swap else UNDEF)
                    args = [c] + ([] if form == 'plain' else [NULL if left == -1 else es[left]]) + [n]
                    desc = '%s: residents (place, direction) %s, newcomer %s, searching from %s' % (w, res, new, left if form != 'plain' else 'the head')
                    for s, _ in ctx.run(e, f, args, st, 'insert'):
                        chk(ctx, e, s, c, es[:k] + [n] + es[k:], 'insert', desc, (es + [n], [str(r) for r in res] + ['new']))


def coincident(ctx):
    """coincident edges: subject before clip, whichever comes first"""
    f = ctx.prog.fn(r'vatti::clipper::insert_into_ael\(vatti::edge\*\)')
    w = ctx.prog.where(f)
    for r, n, ends in itertools.product((0, 1), (0, 1), (0, 1)):
        e = ctx.engine()
        st = State()
        c = mkclipper(e, st)
        pos = [(1, 0), (2, 0), (3, 0), (2, 0)] if ends else [(2, 0), (2, 0)]
        roles = [0, r, 0, n] if ends else [r, n]
        es = spread(e, st, pos, roles)
        new = es.pop()
        link_ael(e, st, c, es)
        me = es[1] if ends else es[0]
        for s, _ in ctx.run(e, f, [c, new], st, 'coincident'):
            got, err = read_ael(e, s, c)
            d = '%s: newcomer (role %d) coincident with resident (role %d)' % (w, n, r)
            ctx.expect(s, err is None and sorted(map(repr, got)) == sorted(map(repr, es + [new])), 'coincident/links', lambda: '%s: %s' % (d, err or 'wrong content'))
            if err is None and new in got and me in got and r != n:
                ctx.expect(s, (got.index(new) > got.index(me)) == (r < n), 'coincident/role', lambda: d + ': subject is not placed before clip')
            if err is None and ends and new in got:
                ctx.expect(s, got[0] == es[0] and got[-1] == es[2], 'coincident/place', lambda: d + ': placed outside the two neighbours')


def removal(ctx):
    for pat, kind in ((r'vatti::clipper::take_from_ael\(vatti::edge\*\)', 'take'), (r'vatti::clipper::delete_active_edge\(vatti::edge\*\)', 'delete'), (r'vatti::clipper::do_maxima\(vatti::edge\*\)', 'finish')):
        try:
            f = ctx.prog.fn(pat)
        except Missing as x:
            ctx.inconclusive('removal/' + kind, str(x))
            continue
        w = ctx.prog.where(f)
        for n in range(1, 5):
            for i in range(n):
                e = ctx.engine()
                st = State()
                c = mkclipper(e, st)
                es = [mkedge(e, st, 'e%d' % j, j % 2, 1 - 2 * (j % 2)) for j in range(n)]
                link_ael(e, st, c, es)
                b = mkbound(e, st, 'b', es[i]) if kind == 'finish' and (n + i) % 2 else None
                desc = '%s: removing edge %d of %d' % (w, i, n)
                for s, r in ctx.run(e, f, [c, es[i]], st, kind):
                    chk(ctx, e, s, c, es[:i] + es[i + 1:], kind, desc, (es, list(range(n))))
                    if kind != 'take':
                        ctx.expect_eq(e, s, r, es[i + 1] if i + 1 < n else NULL, kind + '/next', desc + ': edge to continue with')
                    if b is not None:
                        ctx.expect_eq(e, s, e.getf(s, b, OB, 'curr_edge'), NULL, kind + '/detach', desc + ': its output boundary still refers to the edge')


# edges in list order as (x, slope); positions listed as changed
RESORT = [
    ([(1, 0), (2, 0), (3, 0)], []), ([(1, 0), (2, 0), (3, 0)], [2]), ([(1, 0), (2, 1), (2, 0), (3, 0)], [2]),
    ([(1, 2), (1, 1), (1, 0)], [1]), ([(1, 0), (4, 0), (2, 1), (2, 0), (5, 0)], [2, 4]), ([(1, 0), (5, 0), (2, 0), (3, 0)], [5]),
    ([(3, 0), (1, 1), (1, 0), (2, 0)], [3, 1]), ([(1, 0), (2, 1), (2, 0), (1, 3), (4, 0)], [1, 2, 4, 2]), ([(2, 0), (3, 0), (1, 0)], [1, 7]),
    ([], [1]), ([(1, 0), (2, 1), (2, 0), (3, 0), (3, 1)], [2, 2]),
]


def resort(ctx):
    f = ctx.prog.fn(r'vatti::clipper::resort_ael\(double\)')
    w = ctx.prog.where(f)
    for pos, changed in RESORT:
        for swap in (0, 1):
            e = ctx.engine()
            st = State()
            c = mkclipper(e, st)
            extra = [(x, 0) for x in changed if x not in [p[0] for p in pos]]
            es = spread(e, st, pos + extra, [(i // 2 + swap) % 2 for i in range(9)], ups=[(i + swap) % 2 for i in range(9)])[:len(pos)]
            bs = [mkbound(e, st, 'b%d' % i, d) if i % 3 != 1 else None for i, d in enumerate(es)]
            link_ael(e, st, c, es)
            lst = list(reversed(changed)) if swap else list(changed)
            dblvec(e, st, fp(e, c, CL, 'windcnt_change_list'), [sym('X%d' % x) for x in lst])
            want = [d for _, d in sorted(zip(pos, es), key=lambda z: z[0])]
            desc = '%s: edges at (place, direction) %s, changed places %s' % (w, pos, lst)
            for s, _ in ctx.run(e, f, [c, Y0], st, 'resort'):
                chk(ctx, e, s, c, want, 'resort', desc, (es, [str(p) for p in pos]))
                for d, b, p in zip(es, bs, pos):
                    hit = p[0] in changed
                    bd = e.getf(s, d, ED, 'bound')
                    if hit:
                        ctx.expect_eq(e, s, bd, NULL, 'resort/detach', desc + ': edge at %s keeps its output boundary' % (p,))
                        if b is not None:
                            ctx.expect_eq(e, s, e.getf(s, b, OB, 'curr_edge'), NULL, 'resort/detach', desc + ': boundary keeps edge at %s' % (p,))
                    else:
                        ctx.expect_eq(e, s, bd, b if b is not None else NULL, 'resort/keep', desc + ': edge at %s not at a changed place lost its boundary' % (p,))


# residents' places; minimum: (x of left end, x of right end of the level base), which neighbour is level
def minima(ctx):
    """both edges of a local minimum end up in their own place"""
    f = ctx.prog.fn(r'vatti::clipper::insert_local_minima_to_ael\(double\)')
    w = ctx.prog.where(f)
    shapes = ('V', 'V-down-right', 'base-prev-right', 'base-prev-left', 'base-next-right', 'base-next-left')
    for shape in shapes:
        for res in ([], [1], [3], [5], [1, 3, 5]):
            for role in (0, 1):
                e = ctx.engine()
                st = State()
                c = mkclipper(e, st)
                L, Rr = 2, 4
                es = spread(e, st, [(x, 0) for x in res] + [(2, 0), (4, 0)], [(i + role) % 2 for i in range(len(res) + 2)], names=['r%d' % i for i in range(9)])[:len(res)]
                XL, XR = (sym('X2'), Y0), (sym('X4'), Y0)
                ytop = sym('yt')
                fassume(st, ytop - Y0, POS)
                tl, tr = (sym('X2') - sym('q'), ytop), (sym('X4') + sym('q'), ytop)
                fassume(st, sym('q'), POS)
                # vertices in contour order around the minimum: prev side ... vert ... next side
                if shape == 'V':
                    ring = [tl, XL, (sym('X2') + sym('q'), ytop)]      # left edge descending
                    at = 1
                    exp = ((2, 'prev'), (2, 'next'))
                elif shape == 'V-down-right':
                    ring = [(sym('X2') + sym('q'), ytop), XL, tl]
                    at = 1
                    exp = ((2, 'next'), (2, 'prev'))
                else:
                    side, end = shape.split('-')[1:]
                    # the level base lies on side `side` of the marked vertex, its far end is on the `end`
                    near, far = (XL, XR) if end == 'right' else (XR, XL)
                    ntop, ftop = (tl, tr) if end == 'right' else (tr, tl)
                    ring = [ftop, far, near, ntop] if side == 'prev' else [ntop, near, far, ftop]
                    at = 2 if side == 'prev' else 1
                    fs, ns = ('prev', 'next') if side == 'prev' else ('next', 'prev')
                    exp = ((2, ns), (4, fs)) if end == 'right' else ((2, fs), (4, ns))
                vs = [mkvertex(e, st, 'm%d' % i, p, 8 if i == at else 0) for i, p in enumerate(ring)]
                for i in range(len(vs) - 1):
                    e.setf(st, vs[i], VX, 'next', vs[i + 1])
                    e.setf(st, vs[i + 1], VX, 'prev', vs[i])
                    e.setf(st, vs[i], VX, 'next_seg', mkline(e, st, ring[i + 1]))
                lm = e.alloc_struct(st, LM, name='lm', lazy=False)
                e.setf(st, lm, LM, 'vert', vs[at])
                e.setf(st, lm, LM, 'polytype', role)
                e.setf(st, lm, LM, 'is_open', 0)
                ptrvec(e, st, fp(e, c, CL, 'local_minima_list'), [lm])
                b, n = vec_range(e, st, fp(e, c, CL, 'local_minima_list'))
                e.store(st, fp(e, c, CL, 'cur_locmin_it'), b, 8)
                link_ael(e, st, c, es)
                desc = '%s: minimum of shape %s between active edges at %s' % (w, shape, res)
                for s, _ in ctx.run(e, f, [c, Y0], st, 'minima'):
                    got, err = read_ael(e, s, c)
                    new = [d for d in got if d not in es]
                    if not ctx.expect(s, err is None and len(got) == len(es) + 2 and len(new) == 2, 'minima/links', lambda: '%s: %s' % (desc, err or '%d edges in the list' % len(got))):
                        continue
                    want = []
                    for x in sorted(res + [2, 4] if exp[1][0] == 4 else res + [2, 2]):
                        want.append(x)
                    xs = [e.getf(s, d, ED, 'curr_x') for d in got]
                    ctx.expect_eq(e, s, xs, [sym('X%d' % x) for x in want], 'minima/places', desc + ': left-to-right places of the active edges')
                    for d, (x, side) in zip(new, exp):
                        tv = e.getf(s, d, ED, 'vertex_top')
                        i = vs.index(tv) if tv in vs else None
                        ctx.expect(s, i == (0 if side == 'prev' else len(vs) - 1), 'minima/side', lambda: '%s: the edge at place %d does not lead to the expected vertex' % (desc, x))


def check(ctx):
    ctx.rule('is_valid_ael_order for every kind, direction, role and vertical overlap of two edges with symbolic geometry: decided by x, then by x midway through the common vertical range, then subject before clip')
    ctx.rule('insertion (from the head and from every admissible start), removal, finishing and re-sorting on symbolic left-to-right layouts: links agree, head is first, content and order as specified; re-sorting also when edges stand out of order after a level run')
    ctx.rule('both edges of a local minimum (point or level base, either orientation) are filed at their own place between arbitrary active edges')
    ctx.bounds = ['lists of up to 5 edges']
    ctx.assumptions = ['edges sharing a place leave it in different directions or coincide', 'real arithmetic']
    for g in (order, insertion, coincident, removal, resort, minima):
        ctx.group(g.__name__, g)
