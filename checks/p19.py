from chainlib import *
from p21 import layouts, alternates


def removal(ctx):
    """taking one open end out of a list of up to five, at every position, and several in every order"""
    f = ctx.prog.fn(r'vatti::clipper::delete_obl_bound\(vatti::out_bound\*\)')
    w = ctx.prog.where(f)
    for n in range(1, 6):
        orders = [(i,) for i in range(n)] + list(itertools.permutations(range(n), 2)) + (list(itertools.permutations(range(n))) if n <= 4 else [])
        for order in orders:
            e = ctx.engine()
            st = State()
            c = mkclipper(e, st)
            bs = [mkbound(e, st, 'b%d' % i) for i in range(n)]
            link_obl(e, st, c, bs)
            states = [st]
            for i in order:
                states = [s2 for s in states for s2, _ in ctx.run(e, f, [c, bs[i]], s, 'remove')]
            for s in states:
                got, err = read_obl(e, s, c)
                want = [b for i, b in enumerate(bs) if i not in order]
                ctx.expect(s, err is None and got == want, 'remove/list', lambda: '%s: %d open ends, removing %s: %s' % (w, n, order, err or 'remaining list is wrong'))
            ctx.count('removals')


def state(e, st, fill=0, clip=4):
    return mkclipper(e, st, fill, clip)


def listed(ctx, e, s, c, key, desc, want, gone):
    got, err = read_obl(e, s, c)
    if not ctx.expect(s, err is None and got == want, key + '/list', lambda: '%s: %s' % (desc, err or 'the list holds %d ends, expected %d in left-to-right order' % (len(got), len(want)))):
        return
    for b in got:
        ctx.expect(s, b not in gone, key + '/gone', lambda: desc + ': a closed end is still listed')


def closing(ctx, n, maxb):
    f = ctx.prog.fn(r'vatti::clipper::close_output\(double\)')
    w = ctx.prog.where(f)
    words = ('L', 'R', 'RL', 'LR', 'LRL', 'RLR', 'LRLR', 'RLRL', 'LRLRL', 'RLRLR', 'LRLRLR')
    k = 0
    for bw in itertools.product(words, repeat=n):
        t = ''.join(bw)
        if not alternates(bw) or len(t) > maxb:
            continue
        m = len(t) // 2
        for match in (list(range(m)), list(range(m))[::-1], list(range(1, m)) + [0]):
            k += 1
            e = ctx.engine()
            st = State()
            c = state(e, st)
            wd = build(e, st, c, bw, ('',) * n, match, 1 if k % 2 else -1, k)
            want, gone = [], []
            for i in range(0, len(wd.bounds), 2):
                (want if wd.bpos[i] != wd.bpos[i + 1] else gone).extend([wd.bounds[i][0], wd.bounds[i + 1][0]])
            desc = '%s: open ends per place %s, chains %s' % (w, list(bw), match)
            for s, _ in ctx.run(e, f, [c, Y], st, 'close'):
                listed(ctx, e, s, c, 'close', desc, want, gone)
            ctx.count('closings')
    # nothing open at all
    e = ctx.engine()
    st = State()
    c = state(e, st)
    for s, _ in ctx.run(e, f, [c, Y], st, 'close'):
        listed(ctx, e, s, c, 'close', '%s: no open end' % w, [], [])


def rebuild(ctx, n, maxb, maxe, stride):
    """two levels one after the other: the list rebuilt at the first is used at the second"""
    f = ctx.prog.fn(r'vatti::clipper::update_ouput_bound\(double\)')
    w = ctx.prog.where(f)
    k = 0
    for bw, ew in layouts(n, maxb, maxe):
        m = len(''.join(bw)) // 2
        for match in (list(range(m)), list(range(m))[::-1])[:2 if m > 1 else 1]:
            k += 1
            if k % stride:
                continue
            e = ctx.engine()
            st = State()
            c = state(e, st)
            wd = build(e, st, c, bw, ew, match, 1 if k % 2 else -1, k)
            dblvec(e, st, fp(e, c, CL, 'windcnt_change_list'), [p[0] for p in wd.pos])
            desc = '%s: open ends per place %s, bounding edges per place %s, chains %s' % (w, list(bw), list(ew), match)
            for s, _ in ctx.run(e, f, [c, Y], st, 'rebuild'):
                want = [e.getf(s, d, ED, 'bound') for d, _ in wd.edges]
                if not ctx.expect(s, all(isinstance(b, Ptr) and b.o != 0 for b in want) and len(set(want)) == len(want), 'rebuild/ends', lambda: desc + ': a bounding edge has no output end of its own'):
                    continue
                listed(ctx, e, s, c, 'rebuild', desc, want, [])
                for (d, _), b in zip(wd.edges, want):
                    ctx.expect_eq(e, s, e.getf(s, b, OB, 'curr_edge'), d, 'rebuild/edge', desc + ': edge of an output end')
                # the same edges again, all of them re-examined: nothing may change
                if len(wd.edges) <= 4 and not any('LR' in x for x in ew):
                    dblvec(e, s, fp(e, c, CL, 'windcnt_change_list'), [wd.pos[0][0]])
                    for (d, _), b in zip(wd.edges, want):
                        e.setf(s, b, OB, 'stop_x', e.getf(s, d, ED, 'curr_x'))
                    for s2, _ in ctx.run(e, f, [c, Y], s, 'rebuild'):
                        w2 = [e.getf(s2, d, ED, 'bound') for d, _ in wd.edges]
                        listed(ctx, e, s2, c, 'rebuild', desc + ', repeated', w2, [])
            ctx.count('rebuilds')


def coincide(ctx):
    """neighbouring bounding edges that coincide enclose nothing and take part in nothing"""
    f = ctx.prog.fn(r'vatti::clipper::update_ouput_bound\(double\)')
    w = ctx.prog.where(f)
    for shape in ('LxxR', 'xxLR', 'LRxx', 'xx', 'LxxxxR'):
        e = ctx.engine()
        st = State()
        c = state(e, st)
        for i in range(7):
            fassume(st, POS_X[i + 1] - POS_X[i], POS)
        es, keep = [], []
        yt = sym('yt')
        fassume(st, yt - Y, POS)
        i = 0
        k = 0
        while i < len(shape):
            pair = shape[i] == 'x'
            top = (sym('t%d' % i), yt)
            if k:
                fassume(st, top[0] - sym('t%d' % prev), POS)
            prev = i
            for j in range(2 if pair else 1):
                d = active(e, st, 'e%d' % (i + j), (POS_X[k], Y), top, (i + j) % 2 == 0, (i + j) % 2)
                e.setf(st, d, ED, 'wind_cnt', 1)
                e.setf(st, d, ED, 'wind_cnt2', 0)
                es.append(d)
                if not pair:
                    keep.append(d)
            i += 2 if pair else 1
            k += 1
        link_ael(e, st, c, es)
        dblvec(e, st, fp(e, c, CL, 'windcnt_change_list'), [POS_X[0]])
        desc = '%s: bounding edges %s (xx: a coinciding pair)' % (w, shape)
        for s, _ in ctx.run(e, f, [c, Y], st, 'coincide'):
            want = [e.getf(s, d, ED, 'bound') for d in keep]
            if ctx.expect(s, all(isinstance(b, Ptr) and b.o for b in want), 'coincide/ends', lambda: desc + ': a bounding edge has no output end'):
                listed(ctx, e, s, c, 'coincide', desc, want, [])
            for d in es:
                if d not in keep:
                    ctx.expect_eq(e, s, e.getf(s, d, ED, 'bound'), NULL, 'coincide/free', desc + ': a coinciding edge gets an output end')


def check(ctx):
    t = ctx.thorough
    ctx.rule('removal of open ends at every position and in every order; closing of meeting ends; rebuilding from the bounding edges for every arrangement of ends and edges over symbolic places, twice in a row: forward and backward links agree, the head is the first element, the list is exactly the ends of the bounding edges from left to right and holds no closed end')
    ctx.rule('coinciding neighbours cancel and take no end')
    ctx.bounds = ['lists of up to 5 ends for removal, 6 for closing, up to %d ends and %d edges over up to 4 places for rebuilding' % ((6, 6) if t else (4, 4))]
    ctx.assumptions = ['ends and edges alternate left/right (P13/P14)', 'real arithmetic']
    ctx.group('removal', removal)
    for n in (1, 2, 3, 4):
        ctx.group('close%d' % n, closing, n, 6)
    ctx.group('rebuild1', rebuild, 1, 4, 4, 1)
    ctx.group('rebuild2', rebuild, 2, 4, 4, 1)
    ctx.group('rebuild3', rebuild, 3, 4, 4, 1 if t else 3)
    ctx.group('rebuild4', rebuild, 4, 4, 4, 1 if t else 3)
    if t:
        ctx.group('rebuild5', rebuild, 3, 6, 6, 5)
    ctx.group('coincide', coincide)
