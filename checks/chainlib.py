"""Output chains (out_polygon with its two open ends) and the state of the sweep at one level.

A chain is read in the order in which it will be reported: from its down end back to its origin, then along
its up side to its up end (a completed chain: origin, up side, down side backwards, origin).  Every old piece has a
known start and end, so a chain is gap free exactly when each piece starts where the walk stands."""
from sweeplib import *

Y = sym('y')
POS_X = [sym('x%d' % i) for i in range(8)]


class World:
    pass


def level(e, st, c, n):
    """n symbolic positions in increasing order on the level Y"""
    for i in range(n - 1):
        fassume(st, POS_X[i + 1] - POS_X[i], POS)
    return [(POS_X[i], Y) for i in range(n)]


def below(e, st, name):
    """a symbolic point strictly below the level"""
    p = vec(name)
    fassume(st, Y - p[1], POS)
    return p


def piece(e, st, w, name, a, b, kind, reverse=False):
    """segment from a to b (stored with target b); registered with its geometry"""
    if kind == 'L':
        g = mkline(e, st, b)
        pts = [a, b]
    else:
        c1, c2 = vec(name + '.c'), vec(name + '.d')
        g = mkcubic(e, st, c1, c2, b)
        pts = [a, c1, c2, b]
    w.pieces.append((g, pts))
    return g


def build(e, st, c, bwords, ewords, match, order=1, var=0, mode=None, roles=0):
    """bwords[i]/ewords[i]: sides ('L','R') of the open ends / bounding edges at position i, left to right.
    match[j]: the number of the R end that belongs to the chain of L end j.
    mode[i]: None detached | 'K' edge just started, still attached | 'M' edge passes the level, attached"""
    w = World()
    w.pieces = []
    n = len(bwords)
    pos = level(e, st, c, n)
    w.pos = pos
    mode = mode or [None] * n
    w.bounds, w.edges = [], []
    w.bpos, w.epos = [], []
    for i in range(n):
        for sd in bwords[i]:
            b = mkbound(e, st, 'b%d' % len(w.bounds), None, 1 if sd == 'L' else -1, pos[i][0])
            w.bounds.append((b, sd))
            w.bpos.append(i)
        for k, sd in enumerate(ewords[i]):
            nm = 'e%d' % len(w.edges)
            bot = below(e, st, nm + '.bot') if mode[i] == 'M' else pos[i]
            top = vec(nm + '.top')
            fassume(st, top[1] - Y, POS)
            if k:
                fassume(st, top[0] - sym('e%d.top.x' % (len(w.edges) - 1)), POS)
            # contour direction of the edge is independent of the side it bounds
            up = (len(w.edges) + i + var) % 2 == 0
            d = active(e, st, nm, bot, top, up, (len(w.edges) + roles) % 2, None, pos[i][0])
            e.setf(st, d, ED, 'wind_cnt', 1)
            e.setf(st, d, ED, 'wind_cnt2', 0)
            w.edges.append((d, sd))
            w.epos.append(i)
    for i in range(n):
        if mode[i]:
            b = [x for x, p in zip(w.bounds, w.bpos) if p == i]
            d = [x for x, p in zip(w.edges, w.epos) if p == i]
            assert len(b) == len(d) == 1 and b[0][1] == d[0][1]
            e.setf(st, b[0][0], OB, 'curr_edge', d[0][0])
            e.setf(st, d[0][0], ED, 'bound', b[0][0])
    ls = [b for b, s in w.bounds if s == 'L']
    rs = [b for b, s in w.bounds if s == 'R']
    w.polys = []
    w.old = []
    for j, l in enumerate(ls):
        r = rs[match[j]]
        o = below(e, st, 'o%d' % j)

        def end(b):
            ce = e.getf(st, b, OB, 'curr_edge')
            if ce != NULL:
                return e.getf(st, ce, ED, 'bot')
            return (e.getf(st, b, OB, 'stop_x'), Y)
        ue, de = end(r), end(l)
        ks = ('LC', 'CL', 'CC', 'LL')[(j + var) % 4]
        U, D = [], []
        mu, md = below(e, st, 'mu%d' % j), below(e, st, 'md%d' % j)
        if (j + var) % 3 == 1:
            U = [piece(e, st, w, 'u%d0' % j, o, ue, ks[0])]
        else:
            U = [piece(e, st, w, 'u%d0' % j, o, mu, ks[0]), piece(e, st, w, 'u%d1' % j, mu, ue, ks[1])]
        if (j + var) % 3 == 2:
            D = [piece(e, st, w, 'd%d0' % j, de, o, ks[1])]
        else:
            D = [piece(e, st, w, 'd%d0' % j, md, o, ks[1]), piece(e, st, w, 'd%d1' % j, de, md, ks[0])]
        p = mkpoly(e, st, 'p%d' % j, 0, r, l, U, D, o)
        w.old.append((p, l, r))
    lst = [p for p, _, _ in w.old]
    if order == -1:
        lst.reverse()
    for i, p in enumerate(lst):
        e.setf(st, p, OP, 'idx', i)
    w.polys = lst
    ptrvec(e, st, fp(e, c, CL, 'output_list'), lst, len(lst) + 1)
    link_obl(e, st, c, [b for b, _ in w.bounds])
    link_ael(e, st, c, [d for d, _ in w.edges])
    return w


def fills(words):
    """filled state right of each position"""
    out, k = [], 0
    for x in words:
        k += len(x)
        out.append(k % 2)
    return out


def pt_eq(e, s, a, b):
    return eq(e, s, a, b)


def known_piece(e, s, w, g):
    for q, pts in w.pieces:
        if q == g:
            return pts
    sv = seg_view(e, s, g)
    if sv is None:
        return None
    for q, pts in w.pieces:       # copied pieces
        if len(pts) - 1 == len(sv[1]) and sv[0] == ('C' if len(pts) == 4 else 'L') and eq(e, s, sv[1], pts[1:]) is True and \
                (len(pts) == 4 or False):
            return pts
    return None


def walk_chain(ctx, e, s, w, key, desc, start, segs, used, horiz, mid=None):
    """follow segs from start; returns the end point or None. mid=(index, point): where the walk must stand before piece index"""
    cur = start
    for i, g in enumerate(segs):
        if mid is not None and mid[0] == i:
            ctx.expect_eq(e, s, cur, mid[1], key + '/origin', '%s: the down side does not start at the chain\'s origin' % desc)
        k = known_piece(e, s, w, g)
        if k is not None:
            used.append(g)
            ctx.expect_eq(e, s, cur, k[0], key + '/gap', '%s: piece %d of the chain does not start where the chain stands' % (desc, i))
            sv = seg_view(e, s, g)
            want = ('C' if len(k) == 4 else 'L', k[1:])
            if ctx.expect(s, sv is not None and sv[0] == want[0], key + '/piece', lambda: desc + ': a piece changed its kind'):
                ctx.expect_eq(e, s, sv[1], want[1], key + '/piece', desc + ': a piece changed its geometry')
            cur = k[-1]
            continue
        sv = seg_view(e, s, g)
        if not ctx.expect(s, sv is not None and sv[0] == 'L', key + '/new', lambda: '%s: piece %d of the chain is neither an old piece nor a line' % (desc, i)):
            return None
        to = sv[1][0]
        ctx.expect_eq(e, s, (cur[1], to[1]), (Y, Y), key + '/new', '%s: an added connecting line does not run along the level' % desc)
        horiz.append((cur[0], to[0]))
        cur = to
    if mid is not None and mid[0] == len(segs):
        ctx.expect_eq(e, s, cur, mid[1], key + '/origin', '%s: the down side does not start at the chain\'s origin' % desc)
    return cur


def coverage(ctx, e, s, w, key, desc, horiz, bfill, afill):
    """net signed coverage of every interval between neighbouring positions"""
    n = len(w.pos)
    cov = [0] * max(0, n - 1)

    def where(x):
        for i in range(n):
            if eq(e, s, x, w.pos[i][0]) is True:
                return i
        return None
    for a, b in horiz:
        i, j = where(a), where(b)
        if not ctx.expect(s, i is not None and j is not None, key + '/where', lambda: '%s: a connecting line runs from %s to %s, not between two places of the level' % (desc, short(a, 60), short(b, 60))):
            return
        for k in range(min(i, j), max(i, j)):
            cov[k] += 1 if i < j else -1
    for k in range(n - 1):
        want = afill[k] - bfill[k]
        ctx.expect(s, cov[k] == want, key + '/cover', lambda: '%s: between place %d and %d the result is %s below and %s above the level, but the boundary runs there %+d times (expected %+d)' % (
            desc, k, k + 1, ('empty', 'filled')[bfill[k]], ('empty', 'filled')[afill[k]], cov[k], want))


def judge(ctx, e, s, c, w, key, desc, ends, bfill, afill):
    """ends: list of (bound, edge or None, side): the open ends expected, left to right; bound None = any"""
    obl, err = read_obl(e, s, c)
    if not ctx.expect(s, err is None, key + '/links', lambda: '%s: open end list: %s' % (desc, err)):
        return
    if not ctx.expect(s, len(obl) == len(ends), key + '/ends', lambda: '%s: %d open ends remain, expected %d' % (desc, len(obl), len(ends))):
        return
    used, horiz = [], []
    seen = []
    open_polys = []
    for i, (b, (wb, we, side)) in enumerate(zip(obl, ends)):
        if wb is not None:
            ctx.expect(s, b == wb, key + '/ends', lambda: '%s: open end %d is not the one expected there' % (desc, i))
        if we is not None:
            ctx.expect_eq(e, s, e.getf(s, b, OB, 'curr_edge'), we, key + '/attach', '%s: edge followed by open end %d' % (desc, i))
            ctx.expect_eq(e, s, e.getf(s, we, ED, 'bound'), b, key + '/attach', '%s: output end of edge %d' % (desc, i))
        wd = e.getf(s, b, OB, 'wind_dx')
        ctx.expect(s, isinstance(wd, int) and (wd > 0) == (side == 'L') and wd != 0 if not isinstance(wd, R) else None, key + '/side', lambda: '%s: open end %d bounds the result on its %s side but grows the %s side of its chain' % (
            desc, i, {'L': 'left', 'R': 'right'}[side], 'up' if isinstance(wd, int) and wd < 0 else 'down'))
        p = e.getf(s, b, OB, 'owner')
        if not ctx.expect(s, isinstance(p, Ptr) and p.o != 0, key + '/owner', lambda: '%s: open end %d belongs to no chain' % (desc, i)):
            return
        fld = 'down_bound' if isinstance(wd, int) and wd > 0 else 'up_bound'
        ctx.expect_eq(e, s, e.getf(s, p, OP, fld), b, key + '/owner', '%s: chain of open end %d, its %s' % (desc, i, fld))
        if p not in open_polys:
            open_polys.append(p)
    lst = read_ptrvec(e, s, fp(e, c, CL, 'output_list'))
    ctx.expect(s, len(set(lst)) == len(lst), key + '/listed', lambda: desc + ': a chain is listed twice')
    for p in open_polys:
        ctx.expect(s, p in lst, key + '/listed', lambda: desc + ': an open chain is not in the list of chains')
        ctx.expect_eq(e, s, e.getf(s, p, OP, 'is_complete'), 0, key + '/complete', desc + ': an open chain counts as complete')

    def end_of(b):
        ce = e.getf(s, b, OB, 'curr_edge')
        if isinstance(ce, Ptr) and ce.o != 0:
            return e.getf(s, ce, ED, 'bot')
        return (e.getf(s, b, OB, 'stop_x'), Y)
    for p in lst:
        U, D = read_ptrvec(e, s, fp(e, p, OP, 'up_path')), read_ptrvec(e, s, fp(e, p, OP, 'down_path'))
        o = e.getf(s, p, OP, 'origin')
        if p in open_polys:
            ub, db = e.getf(s, p, OP, 'up_bound'), e.getf(s, p, OP, 'down_bound')
            if not ctx.expect(s, ub in obl and db in obl, key + '/owner', lambda: desc + ': an end of an open chain is not in the open end list'):
                continue
            end = walk_chain(ctx, e, s, w, key, desc, end_of(db), D[::-1] + U, used, horiz, (len(D), o))
            if end is not None:
                ctx.expect_eq(e, s, end, end_of(ub), key + '/end', desc + ': the up side does not end where its open end is')
        elif U or D:
            ctx.expect_eq(e, s, e.getf(s, p, OP, 'is_complete'), 1, key + '/complete', desc + ': a closed chain is not marked complete, so it is never reported')
            end = walk_chain(ctx, e, s, w, key, desc, o, U + D[::-1], used, horiz)
            if end is not None:
                ctx.expect_eq(e, s, end, o, key + '/closed', desc + ': a completed chain does not return to its origin')
    for q, pts in w.pieces:
        k = len([1 for x in used if x == q])
        ctx.expect(s, k == 1, key + '/kept', lambda: '%s: an old piece occurs %d times in the chains' % (desc, k))
    coverage(ctx, e, s, w, key, desc, horiz, bfill, afill)
    # no edge outside keeps an end that is gone
    for d, _ in w.edges:
        b = e.getf(s, d, ED, 'bound')
        if isinstance(b, Ptr) and b.o != 0:
            ctx.expect(s, b in obl, key + '/stale', lambda: desc + ': an edge still refers to an output end that was closed')
