"""Closed contours (rings of vertices) as the clipper keeps them."""
from readlib import *


def mkring(e, st, kinds, name='v', pts=None, flags=None):
    """ring of vertices; kinds[i] is the kind of the segment leaving vertex i"""
    n = len(kinds)
    pts = pts or [vec('%s%d' % (name, i)) for i in range(n)]
    vs = [mkvertex(e, st, '%s%d' % (name, i), pts[i], (flags or [0] * n)[i]) for i in range(n)]
    geo = []
    for i, k in enumerate(kinds):
        j = (i + 1) % n
        e.setf(st, vs[i], VX, 'next', vs[j])
        e.setf(st, vs[j], VX, 'prev', vs[i])
        if k == 'L':
            g = mkline(e, st, pts[j])
            geo.append([pts[i], pts[j]])
        else:
            c1, c2 = vec('%s%d.c1' % (name, i)), vec('%s%d.c2' % (name, i))
            g = mkcubic(e, st, c1, c2, pts[j])
            geo.append([pts[i], c1, c2, pts[j]])
        e.setf(st, vs[i], VX, 'next_seg', g)
    return vs, pts, geo


def walk(e, s, first, limit=80):
    """(vertices in ring order, error)"""
    out, cur = [], first
    while True:
        out.append(cur)
        nx = e.getf(s, cur, VX, 'next')
        if not isinstance(nx, Ptr) or nx.o == 0:
            return out, 'ring is broken after vertex %d' % len(out)
        if e.getf(s, nx, VX, 'prev') != cur:
            return out, 'backward link after vertex %d does not point back' % len(out)
        if nx == first:
            return out, None
        if nx in out or len(out) > limit:
            return out, 'ring does not return to its start'
        cur = nx


def blossom(g, a, b, c):
    """polar value of the cubic g"""
    def mix(p, q, t):
        u = R.c(1) - t
        return tuple(p[k] * u + q[k] * t for k in (0, 1))
    x, y, z = mix(g[0], g[1], a), mix(g[1], g[2], a), mix(g[2], g[3], a)
    x, y = mix(x, y, b), mix(y, z, b)
    return mix(x, y, c)


def put_breaks(e, st, c, items):
    """items: [(vertex, point, t)] appended to the clipper's break list"""
    lay = [e.off(BI, k)[0] for k in ('vert', 'break_point', 't')]
    mkvector(e, st, fp(e, c, CL, 'break_info_list'),
             [[(lay[0], v, 8), (lay[1], p[0], 8), (lay[1] + 8, p[1], 8), (lay[2], t, 8)] for v, p, t in items],
             e.prog.sizeof(BI), len(items) + 2)
