from ringlib import *

MAXF, MINF = 4, 8
SG = {'U': POS, 'D': NEG, 'E': ZER}


def expected(word):
    """word[i]: direction from vertex i to vertex i+1 (cyclic) -> (list of vertex groups that are minima, maxima)"""
    n = len(word)
    if 'U' not in word and 'D' not in word:
        return [], []
    # groups of vertices joined by level steps
    groups, seen = [], set()
    for i in range(n):
        if word[(i - 1) % n] == 'E':
            continue
        g = [i]
        j = i
        while word[j] == 'E':
            j = (j + 1) % n
            g.append(j)
        groups.append((word[(i - 1) % n], g, word[j]))
    return [g for a, g, b in groups if a == 'D' and b == 'U'], [g for a, g, b in groups if a == 'U' and b == 'D']


def feasible(word):
    return ('U' in word) == ('D' in word)


def one(ctx, f, w, word, dup, cub, role, pre, opn=0):
    n = len(word)
    e = ctx.engine()
    st = State()
    c = mkclipper(e, st)
    pts = [vec('p%d' % i) for i in range(n)]
    # level steps share the height symbol; a level word keeps heights equal
    ys = [None] * n
    for i in range(n):
        if ys[i] is None:
            ys[i] = pts[i][1]
            j = i
            while word[j] == 'E' and ys[(j + 1) % n] is None:
                j = (j + 1) % n
                ys[j] = ys[i]
    if word[n - 1] == 'E' and ys[n - 1] != ys[0]:
        old = ys[n - 1]
        ys = [ys[0] if y == old else y for y in ys]
    pts = [(p[0], y) for p, y in zip(pts, ys)]
    for i in range(n):
        j = (i + 1) % n
        if word[i] == 'E':
            if n > 1:
                fassume(st, pts[j][0] - pts[i][0], NE)
        elif not fassume(st, pts[j][1] - pts[i][1], SG[word[i]]):
            return False
    chain_pts = pts + ([pts[0]] if dup else [])
    vs = [mkvertex(e, st, 'v%d' % i, p) for i, p in enumerate(chain_pts)]
    segs = []
    for i in range(len(vs) - 1):
        e.setf(st, vs[i], VX, 'next', vs[i + 1])
        e.setf(st, vs[i + 1], VX, 'prev', vs[i])
        if i in cub and word[i] != 'E':
            g = mkcubic(e, st, vec('c%d' % i), vec('d%d' % i), chain_pts[i + 1])
        else:
            g = mkline(e, st, chain_pts[i + 1])
        segs.append(seg_view(e, st, g))
        e.setf(st, vs[i], VX, 'next_seg', g)
    e.setf(st, vs[0], VX, 'prev', NULL)
    e.setf(st, vs[-1], VX, 'next', NULL)
    e.setf(st, vs[-1], VX, 'next_seg', NULL)
    old_lm, old_ps = [], []
    if pre:
        ov = mkvertex(e, st, 'old')
        lm = e.alloc_struct(st, LM, name='oldlm', lazy=False)
        e.setf(st, lm, LM, 'vert', ov)
        e.setf(st, lm, LM, 'polytype', 1 - role)
        e.setf(st, lm, LM, 'is_open', 0)
        old_lm, old_ps = [lm], [ov]
        ptrvec(e, st, fp(e, c, CL, 'local_minima_list'), old_lm)
        ptrvec(e, st, fp(e, c, CL, 'paths_start'), old_ps)
    desc = '%s: contour with steps %s, %s, %s' % (w, word, 'last point repeats the first' if dup else 'left open', 'clip' if role else 'subject')
    mins, maxs = expected(word)
    for s, _ in ctx.run(e, f, [c, vs[0], vs[-1], role, opn], st, 'close'):
        lms = read_ptrvec(e, s, fp(e, c, CL, 'local_minima_list'))
        pss = read_ptrvec(e, s, fp(e, c, CL, 'paths_start'))
        if not mins:
            ctx.expect(s, lms == old_lm and pss == old_ps, 'level/ignored', lambda: desc + ': a contour without height is registered')
            continue
        ctx.expect(s, len(pss) == len(old_ps) + 1 and pss[:len(old_ps)] == old_ps, 'starts/count', lambda: desc + ': %d contours registered, expected one more than before' % len(pss))
        if len(pss) != len(old_ps) + 1:
            continue
        ring, err = walk(e, s, vs[0])
        if not ctx.expect(s, err is None and ring == vs[:n], 'ring/closed', lambda: '%s: %s' % (desc, err or 'the ring has %d vertices, the contour %d' % (len(ring), n))):
            continue
        ctx.expect(s, pss[-1] in ring, 'starts/member', lambda: desc + ': the registered start is not a vertex of the contour')
        for i, v in enumerate(ring):
            ctx.expect_eq(e, s, e.getf(s, v, VX, 'pt'), pts[i], 'ring/point', '%s: position of vertex %d' % (desc, i))
            sv = seg_view(e, s, e.getf(s, v, VX, 'next_seg'))
            want = segs[i] if i < len(segs) else ('L', [pts[0]])
            ctx.expect_eq(e, s, sv[1], want[1], 'ring/segment', '%s: segment leaving vertex %d' % (desc, i)) if sv is not None and sv[0] == want[0] and len(sv[1]) == len(want[1]) else \
                ctx.expect(s, False, 'ring/segment', lambda: '%s: segment leaving vertex %d is %s' % (desc, i, short(sv)))
        fl = [e.getf(s, v, VX, 'flags') for v in ring]
        for name, bit, groups in (('minimum', MINF, mins), ('maximum', MAXF, maxs)):
            marked = [i for i in range(n) if isinstance(fl[i], int) and fl[i] & bit]
            if any(not isinstance(x, int) for x in fl):
                ctx.expect(s, None, 'marks/unknown', desc + ': marks not known')
                continue
            for g in groups:
                k = [i for i in marked if i in g]
                ctx.expect(s, len(k) == 1, 'marks/' + name, lambda: '%s: local %s at vertices %s is marked %d times' % (desc, name, g, len(k)))
            extra = [i for i in marked if not any(i in g for g in groups)]
            ctx.expect(s, not extra, 'marks/extra-' + name, lambda: '%s: vertex %s is marked as local %s without being one' % (desc, extra, name))
        new = lms[len(old_lm):]
        ctx.expect(s, lms[:len(old_lm)] == old_lm, 'minima/kept', lambda: desc + ': minima registered earlier are lost')
        at = [e.getf(s, m, LM, 'vert') for m in new]
        ctx.expect(s, len(new) == len(mins), 'minima/count', lambda: '%s: %d minima registered, the contour has %d' % (desc, len(new), len(mins)))
        for g in mins:
            k = [v for v in at if v in [ring[i] for i in g]]
            ctx.expect(s, len(k) == 1, 'minima/once', lambda: '%s: minimum at vertices %s registered %d times' % (desc, g, len(k)))
        for m, v in zip(new, at):
            ctx.expect_eq(e, s, e.getf(s, m, LM, 'polytype'), role, 'minima/role', desc + ': role of a registered minimum')
            if v in ring and isinstance(fl[ring.index(v)], int):
                ctx.expect(s, bool(fl[ring.index(v)] & MINF), 'minima/mark', lambda: desc + ': registered minimum vertex is not marked')
    ctx.count('contours')
    return True


def words(ctx, n):
    f = ctx.prog.fn(r'vatti::clipper::insert_vertex_list\(vatti::vertex\*, vatti::vertex\*, river::path_type, bool\)')
    w = ctx.prog.where(f)
    for word in itertools.product('UDE', repeat=n):
        if not feasible(word):
            continue
        word = ''.join(word)
        k = words.k = words.k + 1
        for dup in (0, 1):
            one(ctx, f, w, word, dup, {k % n, (k + 2) % n}, (k + dup) % 2, k % 3 == 0)


words.k = 0


def degenerate(ctx):
    f = ctx.prog.fn(r'vatti::clipper::insert_vertex_list\(vatti::vertex\*, vatti::vertex\*, river::path_type, bool\)')
    w = ctx.prog.where(f)
    for name in ('nothing', 'single point', 'returns to its start'):
        e = ctx.engine()
        st = State()
        c = mkclipper(e, st)
        if name == 'nothing':
            a = b = NULL
        else:
            a = b = mkvertex(e, st, 'a')
            for k in ('next', 'prev', 'next_seg'):
                e.setf(st, a, VX, k, NULL)
            if name == 'returns to its start':
                b = mkvertex(e, st, 'b', vec('a'))
                e.setf(st, a, VX, 'next', b)
                e.setf(st, b, VX, 'prev', a)
                e.setf(st, b, VX, 'next', NULL)
                e.setf(st, a, VX, 'next_seg', mkcubic(e, st, vec('c'), vec('d'), vec('a')))
        for s, _ in ctx.run(e, f, [c, a, b, 0, 0], st, 'degenerate'):
            ctx.expect(s, read_ptrvec(e, s, fp(e, c, CL, 'local_minima_list')) == [] and read_ptrvec(e, s, fp(e, c, CL, 'paths_start')) == [],
                       'degenerate/ignored', lambda: '%s: contour consisting of %s is registered' % (w, name))


def check(ctx):
    m = 6 if ctx.thorough else 5
    ctx.rule('insert_vertex_list on every contour shape of 2..%d vertices given as a cyclic word over {ascending, descending, level}, heights symbolic, with and without the last point repeating the first, line and cubic segments mixed: ring closed with agreeing links, closing line only when needed, one mark per turn, one registration with the contour\'s role per minimum, nothing for level or empty contours' % m)
    ctx.bounds = ['contours of up to %d vertices' % m]
    for n in range(2, m + 1):
        ctx.group('words%d' % n, words, n)
    ctx.group('degenerate', degenerate)
