from common import *

CELLS = {'le-3': (-3, [(3, LE)]), '-2': (-2, [(2, ZER)]), '-1': (-1, [(1, ZER)]), '1': (1, [(-1, ZER)]), '2': (2, [(-2, ZER)]), 'ge3': (3, [(-3, GE)])}


def spec_own(rep, dxl, dxc, fill):
    """(offset to left.wc, or None when absolute), value) of the own winding number
    rep: representative of left.wc"""
    r = rep if rep * dxl > 0 else rep + dxl           # region right of `left`
    s = r + dxc                                       # region right of the edge
    w = s if abs(s) > abs(r) else r                   # the one farther from zero
    return w - rep


def calc(ctx, maxn):
    f = ctx.prog.fn(r'vatti::clipper::calc_windcnt\(vatti::edge\*\)')
    where = ctx.prog.where(f)
    kinds = list(itertools.product((0, 1), (1, -1)))
    for fr, fv in FILL.items():
        e = ctx.engine()
        for n in range(maxn + 1):
            for lefts in itertools.product(kinds, repeat=n):
                for cur in kinds:
                    same = [i for i in range(n) if lefts[i][0] == cur[0]]
                    li = same[-1] if same else None
                    others = lefts[(li + 1 if li is not None else 0):]
                    others = [dx for r, dx in others if r != cur[0]]
                    if li is None or fr == 'even_odd':
                        cells = {'-': (0, [])}
                    else:
                        cells = CELLS
                    c2s = (0, 1) if fr == 'even_odd' and li is not None else (None,)
                    for (ck, (rep, cons)), c2 in itertools.product(cells.items(), c2s):
                        st = State()
                        c = mkclipper(e, st, fv, 1)
                        es = [mkedge(e, st, 'l%d' % i, r, dx) for i, (r, dx) in enumerate(lefts)]
                        me = mkedge(e, st, 'cur', cur[0], cur[1])
                        after = mkedge(e, st, 'after', 1 - cur[0], 1)
                        link_ael(e, st, c, es + [me, after])
                        base2 = None
                        if li is not None:
                            wc = e.getf(st, es[li], ED, 'wind_cnt')
                            for k, s in cons:
                                fassume(st, wc + R.c(k), s)
                            base2 = e.getf(st, es[li], ED, 'wind_cnt2')
                            if c2 is not None:
                                e.setf(st, es[li], ED, 'wind_cnt2', c2)
                        if fr == 'even_odd':
                            own = R.c(cur[1])
                            b = c2 if li is not None else 0
                            oth = R.c((b + len(others)) % 2)
                        else:
                            own = R.c(cur[1]) if li is None else wc + R.c(spec_own(rep, lefts[li][1], cur[1], fr))
                            oth = (base2 if li is not None else R.c(0)) + R.c(sum(others))
                        key = 'calc/' + fr
                        desc = '%s: fill %s, edges to the left (role,dir) %s, edge %s, left winding %s' % (where, fr, lefts, cur, ck)
                        for s, _ in ctx.run(e, f, [c, me], st, key):
                            ctx.expect_eq(e, s, num(e.getf(s, me, ED, 'wind_cnt')), own, key + '/own', desc + ': own winding number')
                            ctx.expect_eq(e, s, num(e.getf(s, me, ED, 'wind_cnt2')), oth, key + '/other', desc + ': other-role winding number')
                            for i, d in enumerate(es):
                                if e.getf(s, d, ED, 'wind_cnt') != sym('l%d.wc' % i, True):
                                    ctx.expect(s, False, key + '/left', desc + ': winding number of another edge changed')
                        ctx.count('arrangements')


def right_of(wc, dx):
    return wc if wc * dx > 0 else wc + dx


def spec_edge(i, edges, wcs, fill):
    role, dx = edges[i][:2]
    li = None
    for j in range(i - 1, -1, -1):
        if edges[j][0] == role:
            li = j
            break
    others = [edges[j][1] for j in range(li + 1 if li is not None else 0, i) if edges[j][0] != role]
    if fill == 'even_odd':
        return dx, ((wcs[li][1] if li is not None else 0) + len(others)) % 2
    if li is None:
        return dx, sum(others)
    r = right_of(wcs[li][0], edges[li][1])
    s = r + dx
    return (s if abs(s) > abs(r) else r), wcs[li][1] + sum(others)


def weak_orders(n):
    if n == 0:
        yield ()
        return
    for w in weak_orders(n - 1):
        m = w[-1] if w else 0
        if w:
            yield w + (m,)
        yield w + (m + 1,)


def recalc(ctx, n, fills):
    f = ctx.prog.fn(r'vatti::clipper::recalc_windcnt\(\)')
    where = ctx.prog.where(f)
    kinds = list(itertools.product((0, 1), (1, -1)))
    for fr in fills:
        e = ctx.engine()
        for roles in itertools.product(kinds, repeat=n):
            for xs in weak_orders(n):
                vals = sorted(set(xs))
                lists = []
                for k in range(len(vals) + 1):
                    for sub in itertools.combinations(vals, k):
                        lists.append(sub)
                lists.append(tuple(reversed(vals)) + (vals[0], 0, 9))      # unsorted, duplicates, foreign values
                for lst in lists:
                    st = State()
                    c = mkclipper(e, st, FILL[fr], 1)
                    es = []
                    bs = []
                    wcs = []
                    pos = {v: sym('x%d' % v) for v in set(vals) | {0, 9}}
                    for v, v2 in zip(sorted(pos), sorted(pos)[1:]):
                        fassume(st, pos[v2] - pos[v], POS)
                    for i, (r, dx) in enumerate(roles):
                        d = mkedge(e, st, 'e%d' % i, r, dx)
                        e.setf(st, d, ED, 'curr_x', pos[xs[i]])
                        b = e.alloc_struct(st, OB, name='b%d' % i, lazy=True)
                        e.setf(st, b, OB, 'curr_edge', d)
                        e.setf(st, d, ED, 'bound', b if i != 1 else NULL)
                        es.append(d)
                        bs.append(b)
                        init = ((i % 2 + 1) * dx, i % 2) if fr != 'even_odd' else (dx, i % 2)
                        hit = xs[i] in lst
                        if hit:
                            wcs.append(None)
                            wcs[i] = spec_edge(i, roles, wcs, fr)
                        else:
                            wcs.append(init)
                            e.setf(st, d, ED, 'wind_cnt', init[0])
                            e.setf(st, d, ED, 'wind_cnt2', init[1])
                    link_ael(e, st, c, es)
                    dblvec(e, st, fp(e, c, CL, 'windcnt_change_list'), [pos[v] for v in lst])
                    key = 'recalc/' + fr
                    desc = '%s: fill %s, edges %s at %s, changed positions %s' % (where, fr, roles, xs, lst)
                    for s, _ in ctx.run(e, f, [c], st, key):
                        for i in range(n):
                            hit = xs[i] in lst
                            ctx.expect_eq(e, s, (num(e.getf(s, es[i], ED, 'wind_cnt')), num(e.getf(s, es[i], ED, 'wind_cnt2'))),
                                          (R.c(wcs[i][0]), R.c(wcs[i][1])), key + '/value', desc + ': winding numbers of edge %d' % i)
                            bd = e.getf(s, es[i], ED, 'bound')
                            if hit:
                                ctx.expect_eq(e, s, bd, NULL, key + '/detach', desc + ': recomputed edge %d keeps its output boundary' % i)
                                if i != 1:
                                    ctx.expect_eq(e, s, e.getf(s, bs[i], OB, 'curr_edge'), NULL, key + '/detach', desc + ': output boundary keeps recomputed edge %d' % i)
                            else:
                                ctx.expect_eq(e, s, bd, bs[i] if i != 1 else NULL, key + '/keep', desc + ': edge %d not at a changed position lost its boundary' % i)
                        lst2, err = read_ael(e, s, c)
                        ctx.expect(s, err is None and lst2 == es, key + '/list', desc + ': active list changed')
                    ctx.count('recalc_arrangements')


def check(ctx):
    n = 4 if ctx.thorough else 3
    ctx.rule('calc_windcnt on every arrangement of up to %d edges to the left (role x direction), every fill rule, the nearest same-role edge carrying an arbitrary nonzero winding number (partitioned by sign/step) and arbitrary other-role count: result equals crossing arithmetic' % n)
    ctx.rule('recalc_windcnt on every arrangement of 3 edges, coincident positions and every set of changed positions: exactly the edges at changed positions are recomputed left to right and detached from their output boundary')
    ctx.assumptions = ['winding numbers of edges further left follow the same convention (inductive hypothesis)', 'no int overflow']
    ctx.bounds.append('up to %d edges left of the edge' % n)
    ctx.group('calc', calc, n)
    ctx.group('recalc', recalc, 3, ('even_odd', 'non_zero') if not ctx.thorough else tuple(FILL))
