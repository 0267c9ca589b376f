from readlib import *
from p06 import coef, MARGIN

SPLIT = r'rmath::bezier_cubic::split_y\(double\*, double\*\) const'


# ------------------------------------------------------------------ split_y itself
def extremes(ctx):
    f = ctx.prog.fn(SPLIT)
    w = ctx.prog.where(f)
    x0, x1, x2, x3 = (sym('y%d' % i) for i in range(4))
    shapes = [('constant speed', [x0, x1, R.c(2) * x1 - x0, R.c(3) * x1 - R.c(2) * x0], ''),
              ('quadratic', [x0, x1, x2, R.c(3) * x2 - R.c(3) * x1 + x0], 'b'),
              ('cubic', [x0, x1, x2, x3], 'a')]
    for sname, ys, nz in shapes:
        a, b, c = coef(ys)
        for var in ([None] if not nz else [POS, NEG]):
            e = ctx.engine()
            st = State()
            if var is not None:
                r = a if nz == 'a' else b
                m = R.c(MARGIN)
                fassume(st, (r - m) if var == POS else (r + m), var)
                fassume(st, r, var)
            k = b * b - R.c(4) * a * c
            o = []
            for i in range(2):
                p = Ptr(e.new_obj(st, size=8), 0)
                st.null[p.o] = False
                o.append(p)
            bz, _ = bez(e, st, pts=[(sym('x%d' % i), ys[i]) for i in range(4)])
            for s, n in ctx.run(e, f, [bz] + o, st, 'extremes'):
                if not isinstance(n, int):
                    ctx.expect(s, None, 'extremes/count', 'number of extremes not known')
                    continue
                subs = cases(s, [(k, [NEG, ZER, POS])]) if nz == 'a' else [(s, (0,))]
                for s1, ix in subs:
                    roots = []
                    if nz == 'b':
                        roots = [(R.c(0) - c) / b]
                    elif nz == 'a' and ix[0] == 2:
                        q = app('sqrt', k)
                        lo, hi = (R.c(0) - q - b) / (R.c(2) * a), (q - b) / (R.c(2) * a)
                        roots = [lo, hi] if var == POS else [hi, lo]
                    todo = [(s1, [])]
                    for t in roots:
                        todo = [(s3, v + ([t] if jx == (0, 0) else [])) for s2, v in todo for s3, jx in cases(s2, [(t, [POS, LE]), (R.c(1) - t, [POS, LE])])]
                    for s2, exp in todo:
                        judge(ctx, e, s2, n, o, exp, '%s: %s vertical shape, leading sign %s' % (w, sname, {None: '-', POS: '+', NEG: '-'}[var]), k)


def judge(ctx, e, s, n, o, exp, desc, k):
    got = [e.load(s, p, ('double',)) for p in o[:max(0, min(n, 2))]]
    if n == len(exp):
        good = True
        for g, x in zip(got, exp):
            if not isinstance(g, R):
                good = False
            elif not (alg_zero(g - x) or s.facts.rsign(g - x) <= ZER):
                good = False
        if good:
            ctx.ok()
            return
    ctx.n_ob += 1
    vals = [g for g in got if isinstance(g, R)]
    if len(vals) != len(got):
        ctx.expect(s, False, 'extremes/unset', desc + ': an extreme counted was not set')
        return

    def test(vs):
        g, x = vs[:len(got)], vs[len(got):len(got) + len(exp)]
        if len(g) != len(x):
            return '%d extremes reported, the curve has %d interior ones' % (len(g), len(x))
        if any(abs(p - q) > 1e-7 * (1 + abs(q)) for p, q in zip(g, x)):
            return 'extremes %s reported, expected %s (increasing)' % (g, x)
    m = ctx.refute(s, vals + exp + [R.c(1)], test)
    if m:
        ctx.expect(s, False, 'extremes/value', '%s: %s' % (desc, m))
    elif ctx.feasible(s) is None:
        ctx.n_ob -= 1
        ctx.count('paths_without_point')
    else:
        ctx.inconclusive('extremes/value', desc + ': not proved; facts ' + short(s.facts))


# ------------------------------------------------------------------ reading commands
def build(word):
    """word -> (facts, commands, expected contours)
    M move; x/y line differing in x / only in y; z zero-length; a,b,c cubic cut 0/1/2 times; d,e cubics whose first control heights agree with the start; h level cubic; i level cubic back to its start"""
    facts, commands, contours, splits = [], [], [], []
    last = (R.c(0), R.c(0))
    cur = None
    lo, hi = R.c(F(1, 1000)), R.c(F(999, 1000))
    for i, k in enumerate(word):
        nm = '%s%d' % (k, i)
        if k == 'M':
            to = vec(nm)
            commands.append(('move_to', [last, to]))
            cur = [to, []]
            contours.append(cur)
            last = to
            continue
        if cur is None:
            cur = [last, []]
            contours.append(cur)
        if k in 'xyz':
            to = (sym(nm + '.x') if k == 'x' else last[0], sym(nm + '.y') if k in 'xy' else last[1])
            if k == 'x':
                facts.append((to[0] - last[0], NE))
            elif k == 'y':
                facts.append((to[1] - last[1], NE))
            commands.append(('line_to', [last, to]))
            if k != 'z':
                cur[1].append(('L', [last, to]))
        else:
            c1, c2, to = vec(nm + '.1'), vec(nm + '.2'), vec(nm + '.3')
            ts = []
            if k in 'abc':
                facts.append((c1[1] - last[1], NE))
                ts = [sym('%s.t%d' % (nm, j)) for j in range('abc'.index(k))]
            elif k == 'd':
                c1 = (c1[0], last[1])
                facts.append((c2[1] - last[1], NE))
                ts = [sym(nm + '.t0')]
            elif k == 'e':
                c1, c2 = (c1[0], last[1]), (c2[0], last[1])
                facts.append((to[1] - last[1], NE))
                ts = []
            elif k == 'h':
                c1, c2, to = (c1[0], last[1]), (c2[0], last[1]), (to[0], last[1])
                facts.append((to[0] - last[0], NE))
            elif k == 'i':
                c1, c2, to = (c1[0], last[1]), (c2[0], last[1]), last
            commands.append(('cubic_to', [last, c1, c2, to]))
            prev = lo
            for t in ts:
                facts.append((t - prev, POS))
                prev = t
            if ts:
                facts.append((hi - ts[-1], POS))
            splits.append(([last, c1, c2, to], ts))
            if k == 'h':
                cur[1].append(('L', [last, to]))
            elif k != 'i':
                full = [R.c(0)] + ts + [R.c(1)]
                for j in range(len(full) - 1):
                    cur[1].append(('C', ([last, c1, c2, to], full[j], full[j + 1])))
        last = to
    return facts, commands, contours, splits


def reading(ctx, words):
    f = ctx.prog.fn(ADD)
    w = ctx.prog.where(f)
    for word in words:
        e = ctx.engine()
        st = State()
        facts, commands, contours, splits = build(word)
        for r, sg in facts:
            fassume(st, r, sg)
        c = mkclipper(e, st)
        rd = reader(ctx, e, commands, word)
        log = {}

        def split_y(e_, s, a, f_, d_):
            pts = bez_pts(e_, s, a[0])
            for want, ts in splits:
                if all(eq(e_, s, x, y) is True for x, y in zip(pts, want)):
                    for p, t in zip(a[1:3], ts):
                        e_.store(s, p, t, 8)
                    return [(s, len(ts))]
            s.events.append(('imprecise', 'split_y of another curve'))
            s.events.append(('other_curve', pts, s.stack))
            return [(s, 0)]
        e.hook(SPLIT, split_y)

        def ivl(e_, s, a, f_, d_):
            s.events.append(('contour', a[1], a[2], a[3], a[4], s.stack))
            s.user.setdefault('contours', ())
            s.user['contours'] = s.user['contours'] + (snapshot(e_, s, a[1], a[2]),)
            return [(s, None)]
        e.hook(r'vatti::clipper::insert_vertex_list\(vatti::vertex\*, vatti::vertex\*, river::path_type, bool\)', ivl)
        pth = user_obj(e, st)
        desc = '%s: command word %s' % (w, word)
        for s, _ in ctx.run(e, f, [c, rd, pth, 1, 0], st, 'reading'):
            oc = [ev for ev in s.events if ev[0] == 'other_curve']
            if oc:
                ctx.expect(None, False, 'reading/curve', '%s: the extremes of a different curve than the one read are used at %s' % (desc, e.fmt_stack(oc[0][-1])))
                continue
            got = [x for x in s.user.get('contours', ()) if x is not None]
            want = [k for k in contours if k[1]]
            # contours without a single piece may be handed on or not
            got_n = [x for x in got if len(x[0]) > 1 or x[1]]
            ctx.expect(s, len(got_n) == len(want), 'reading/contours', lambda: '%s: %d contours with pieces read, expected %d' % (desc, len(got_n), len(want)))
            if len(got_n) != len(want):
                continue
            for (verts, err), (start, pieces) in zip(got_n, want):
                ctx.expect(s, err is None, 'reading/links', lambda: '%s: %s' % (desc, err))
                if err:
                    continue
                compare_chain(ctx, e, s, verts, start, pieces, desc)


def user_obj(e, st):
    u = Ptr(e.new_obj(st, lazy='path', size=64), 0)
    st.null[u.o] = False
    return u


def snapshot(e, s, first, end):
    if not isinstance(first, Ptr) or first.o == 0 or not isinstance(end, Ptr) or end.o == 0:
        return None
    vs, err = chain(e, s, first, end)
    out = []
    for i, v in enumerate(vs):
        out.append((e.getf(s, v, VX, 'pt'), e.getf(s, v, VX, 'flags'),
                    seg_view(e, s, e.getf(s, v, VX, 'next_seg')) if i + 1 < len(vs) else None))
    return out, err


def compare_chain(ctx, e, s, verts, start, pieces, desc):
    ctx.expect(s, len(verts) == len(pieces) + 1, 'reading/pieces', lambda: '%s: %d pieces, expected %d' % (desc, len(verts) - 1, len(pieces)))
    if len(verts) != len(pieces) + 1:
        return
    ctx.expect_eq(e, s, verts[0][0], start, 'reading/start', desc + ': contour does not start at its move')
    u = sym('u')
    for i, (kind, data) in enumerate(pieces):
        pt, fl, sv = verts[i]
        npt = verts[i + 1][0]
        ctx.expect(s, fl == 0, 'reading/flags', desc + ': fresh vertex carries marks')
        ctx.expect(s, sv is not None and sv[0] == kind, 'reading/kind', lambda: '%s: piece %d is %s, expected %s' % (desc, i, sv and sv[0], kind))
        if sv is None or sv[0] != kind:
            continue
        ctx.expect_eq(e, s, sv[1][-1], npt, 'reading/gap', '%s: piece %d does not end at the next vertex' % (desc, i))
        if kind == 'L':
            ctx.expect_eq(e, s, (pt, npt), (data[0], data[1]), 'reading/line', '%s: line %d' % (desc, i))
        else:
            pts, t0, t1 = data
            ctx.expect_eq(e, s, bern([pt] + list(sv[1]), u), mapt(pts, t0, t1, u), 'reading/cubic', '%s: piece %d is not the cubic between its extremes' % (desc, i))


def words(ctx):
    al = 'xyzabcdehi'
    out = []
    for k in al:
        out += ['M' + k, k, 'Mx' + k, 'M' + k + 'x', 'M' + k + 'Mx', 'Mx' + 'M' + k + 'y']
    out += ['', 'M', 'MM', 'MxyM', 'MMx', 'MzMx', 'Mbb', 'Mcc', 'Mcb', 'Mbc', 'Mcxb', 'Mhxi', 'xMyMa']
    if ctx.thorough:
        out += ['M' + ''.join(p) for p in itertools.product(al, repeat=2)]
        out += ['M' + ''.join(p) for p in itertools.product('xzbcMh', repeat=3)]
    return sorted(set(out), key=lambda x: (len(x), x))


def check(ctx):
    ctx.rule('split_y: on every sign case of leading coefficient, discriminant and root positions it returns exactly the interior roots of the derivative, increasing')
    ctx.rule('add_path driven by an arbitrary reader: contour chains (vertices, segments, links) equal the commands, cubics cut at the extremes split_y reports (Bezier identities), zero-length lines dropped, level cubics as lines')
    ctx.assumptions = ['real arithmetic', 'extremes lie in [0.001, 0.999] or are absent (the code ignores those within 1e-6 of an end)', 'leading coefficients are 0 or at least %g' % MARGIN]
    ctx.bounds = ['command words up to length %d' % 4]
    ctx.group('extremes', extremes)
    ctx.group('reading', reading, words(ctx))
