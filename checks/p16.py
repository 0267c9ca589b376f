from ringlib import *

PROC = r'scan_line::scan_line<vatti::vertex\*>::process\(void\*\)'
ADDS = r'scan_line::scan_line<vatti::vertex\*>::add_segment\(.*\)'
TS = [F(1, 8), F(1, 3), F(3, 5), F(6, 7)]


def one(ctx, rings, cuts, symbolic, flip=0):
    """rings: list of kind words; cuts: {(ring, seg): number}; order of the injected list is scrambled and the first entry doubled"""
    f = ctx.prog.fn(r'vatti::clipper::process_intersect\(\)')
    w = ctx.prog.where(f)
    for scramble in range(3):
        e = ctx.engine()
        e.mem_order = (1, -1, 1)[scramble] if flip == 0 else (-1, 1, -1)[scramble]
        st = State()
        c = mkclipper(e, st)
        data = []
        for r, word in enumerate(rings):
            fl = [(12, 8, 4, 0, 8)[(i + r) % 5] if i % 2 == 0 else 0 for i in range(len(word))]
            data.append(mkring(e, st, word, 'r%dv' % r, None, fl) + (fl,))
        ptrvec(e, st, fp(e, c, CL, 'paths_start'), [d[0][0] for d in data], len(data) + 1)
        items = []
        want = {}
        for (r, i), n in cuts.items():
            ts = []
            for k in range(n):
                if symbolic:
                    t = sym('t%d%d%d' % (r, i, k))
                    fassume(st, t - (ts[-1] if ts else R.c(F(1, 1000))), POS)
                else:
                    t = R.c(TS[k])
                ts.append(t)
            if symbolic and ts:
                fassume(st, R.c(F(999, 1000)) - ts[-1], POS)
            want[(r, i)] = [(data[r][0][i], vec('x%d%d%d' % (r, i, k)), t) for k, t in enumerate(ts)]
            items += want[(r, i)]
            if sum(cuts.values()) > 3:
                for x, y in itertools.combinations(want[(r, i)], 2):
                    fassume(st, x[1][0] - y[1][0], NE)
        lst = list(items)
        if scramble == 1:
            lst.reverse()
        elif scramble == 2 and lst:
            lst = lst[1::2] + lst[::2] + [lst[0]]
        added = []

        def on_add(e_, s, a, f_, d_):
            v = a[1]
            s.events.append(('added', e_.load(s, v, ('ptr',)), a[0]))
            return [(s, UNDEF)]

        def on_proc(e_, s, a, f_, d_):
            b, n = vec_range(e_, s, fp(e_, c, CL, 'break_info_list'))
            s.events.append(('processed', a[0], a[1], n))
            if not s.user.get('second'):
                put_breaks(e_, s, c, lst)
            return [(s, UNDEF)]
        e.hook(ADDS, on_add)
        e.hook(PROC, on_proc)
        desc = '%s: contours %s, crossings per segment %s, list order %d' % (w, rings, {k: v for k, v in cuts.items()}, scramble)
        for s, _ in ctx.run(e, f, [c], st, 'split'):
            adds = [ev[1] for ev in s.events if ev[0] == 'added']
            pr = [ev for ev in s.events if ev[0] == 'processed']
            allv = [v for d in data for v in d[0]]
            ctx.expect(s, len(pr) == 1 and pr[0][2] == c, 'split/search', lambda: desc + ': the crossing search is not run exactly once for this clipper')
            ctx.expect(s, sorted(adds, key=repr) == sorted(allv, key=repr), 'split/registered', lambda: desc + ': %d segments handed to the search, the contours have %d' % (len(adds), len(allv)))
            for r, (vs, pts, geo, fl) in enumerate(data):
                d2 = '%s, contour %d' % (desc, r)
                ring, err = walk(e, s, vs[0])
                if not ctx.expect(s, err is None, 'split/ring', lambda: '%s: %s' % (d2, err)):
                    continue
                # expected
                exp = []
                for i in range(len(vs)):
                    ws = want.get((r, i), [])
                    cut = [R.c(0)] + [x[2] for x in ws] + [R.c(1)]
                    ends = [pts[i]] + [x[1] for x in ws] + [pts[(i + 1) % len(pts)]]
                    for k in range(len(ends) - 1):
                        if len(geo[i]) == 2:
                            g = ('L', [ends[k + 1]])
                        elif len(ws) == 0:
                            g = ('C', geo[i][1:])
                        else:
                            a, b = cut[k], cut[k + 1]
                            g = ('C', [blossom(geo[i], a, a, b), blossom(geo[i], a, b, b), ends[k + 1]])
                        exp.append((vs[i] if k == 0 else None, ends[k], fl[i] if k == 0 else 0, g))
                if not ctx.expect(s, len(ring) == len(exp), 'split/count', lambda: '%s: %d vertices after splitting, expected %d' % (d2, len(ring), len(exp))):
                    continue
                for j, (v, (ov, pt, fg, g)) in enumerate(zip(ring, exp)):
                    if ov is not None:
                        ctx.expect(s, v == ov, 'split/order', lambda: '%s: vertex %d is not the old vertex expected there' % (d2, j))
                    ctx.expect_eq(e, s, e.getf(s, v, VX, 'pt'), pt, 'split/point', '%s: position of vertex %d' % (d2, j))
                    ctx.expect_eq(e, s, e.getf(s, v, VX, 'flags'), fg, 'split/flags', '%s: minimum/maximum marks of vertex %d' % (d2, j))
                    sv = seg_view(e, s, e.getf(s, v, VX, 'next_seg'))
                    if not ctx.expect(s, sv is not None and sv[0] == g[0], 'split/kind', lambda: '%s: segment after vertex %d is %s, expected %s' % (d2, j, sv, g[0])):
                        continue
                    ctx.expect_eq(e, s, sv[1], g[1], 'split/piece', '%s: piece after vertex %d' % (d2, j))
            ctx.expect_eq(e, s, read_ptrvec(e, s, fp(e, c, CL, 'paths_start')), [d[0][0] for d in data], 'split/starts', desc + ': contour starts')
            if scramble == 0:
                n0 = [len(walk(e, s, d[0][0])[0]) for d in data]
                s.user = dict(s.user, second=True)
                for s2, _ in ctx.run(e, f, [c], s, 'again'):
                    pr = [ev for ev in s2.events if ev[0] == 'processed']
                    ctx.expect(s2, pr[-1][3] == 0, 'split/stale', lambda: desc + ': crossings of the run before are still recorded when the next search starts')
                    n1 = [walk(e, s2, d[0][0]) for d in data]
                    ctx.expect(s2, [len(a) for a, _ in n1] == n0 and all(b is None for _, b in n1), 'split/again', lambda: desc + ': a second run without new crossings changes the contours')
        ctx.count('arrangements')


def check(ctx):
    ctx.rule('process_intersect with the crossing search replaced by one that records arbitrary crossings in arbitrary list order (sorted, reversed, shuffled with a duplicate): every contour stays one ring linked both ways, old vertices keep place, position and marks, each cut line or cubic is replaced by pieces through the recorded points whose control points are the exact sub-curves (compared as polynomials in the parameters)')
    ctx.bounds = ['two contours of up to 4 segments, up to 3 crossings per segment (4 in the thorough run)', 'vertices allocated at ascending or at descending addresses']
    ctx.assumptions = ['real arithmetic', 'crossings on one segment have distinct parameters or are identical entries']
    cfg = [(['LLL'], {}, True), (['LLL'], {(0, 0): 1}, True), (['LCL'], {(0, 1): 1}, True), (['LCL'], {(0, 2): 2, (0, 0): 1}, True),
           (['CC'], {(0, 0): 2, (0, 1): 1}, True), (['LLL', 'CLC'], {(1, 2): 2, (0, 2): 1, (1, 1): 2, (0, 1): 1}, True),
           (['LC', 'CL'], {(0, 0): 3, (0, 1): 3, (1, 0): 1, (1, 1): 2}, False)]
    if ctx.thorough:
        cfg += [(['LCCL', 'CLLC'], {(0, 1): 4, (1, 3): 4, (0, 3): 4, (1, 1): 4}, False), (['CC'], {(0, 0): 3}, True)]
    for i, x in enumerate(cfg):
        for flip in (0, 1):
            ctx.group('split%d.%d' % (i, flip), one, *x, flip)
