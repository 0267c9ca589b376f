from common import *


def bez(e, st, name='b', pts=None):
    p = e.alloc_struct(st, BZ, name=None, lazy=False)
    pts = pts or [vec('%s%d' % (name, i)) for i in range(4)]
    for i in range(4):
        e.setf(st, p, BZ, 'p%d' % i, pts[i])
    return p, pts


def bez_pts(e, st, p):
    return [e.getf(st, p, BZ, 'p%d' % i) for i in range(4)]


def bern(pts, t):
    one = R.c(1)
    k = one - t
    w = [k * k * k, R.c(3) * k * k * t, R.c(3) * k * t * t, t * t * t]
    return tuple(sum4([w[i] * num(pts[i][c]) for i in range(4)]) for c in (0, 1))


def sum4(l):
    r = l[0]
    for x in l[1:]:
        r = r + x
    return r


def bern1(xs, t):
    k = R.c(1) - t
    w = [k * k * k, R.c(3) * k * k * t, R.c(3) * k * t * t, t * t * t]
    return sum4([w[i] * num(xs[i]) for i in range(4)])


def mapt(pts, a, b, u):
    return bern(pts, a + (b - a) * u)


def sret(e, st, cls):
    p = e.alloc_struct(st, cls, name=None, lazy=False)
    return p


def const_tol(r, tol):
    """|r| <= tol for constant r"""
    return isinstance(r, R) and r.isconst() and abs(float(r.cv())) <= tol


def closed_form_zero(r, tol=1e-12):
    """polynomial is zero up to rounding of constants in the source"""
    if not isinstance(r, R):
        return None
    return all(abs(float(c)) <= tol for c in r.n.t.values())


def truths(e, outs):
    """split outcomes on an undecided boolean result"""
    for s, v in outs:
        if isinstance(v, (Cond, R)):
            d = e.decide(s, v)
            if d is not None:
                yield s, d
                continue
            s2 = s.clone()
            if e.assume(s, v, True):
                yield s, True
            if e.assume(s2, v, False):
                yield s2, False
        elif v is TOP or v is UNDEF:
            s.events.append(('imprecise', 'result'))
            yield s, None
        else:
            yield s, bool(v & 1 if isinstance(v, int) else v)


def cases(st, conds):
    """split a state on signs: conds = [(R, [signset,...])] -> list of (state, index tuple)"""
    out = [(st, ())]
    for r, parts in conds:
        nxt = []
        for s, ix in out:
            for i, p in enumerate(parts):
                s2 = s.clone()
                if s2.facts.assume(s2.facts.rpoly(r), p):
                    nxt.append((s2, ix + (i,)))
        out = nxt
    return out


def flat(r, which):
    """arguments of a (nested) min/max value"""
    if r.d == ONE and len(r.n.t) == 1:
        (m, c), = r.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k, n, pl, _ = ATOMS[m[0][0]]
            if k == 'app' and n == which:
                return [y for x in pl for y in flat(x, which)]
            if k == 'app' and n in ('min', 'max') and len(pl) == 2 and n != which:
                return [r]
    return [r]


def leaves(r):
    if r.d == ONE and len(r.n.t) == 1:
        (m, c), = r.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k, n, pl, _ = ATOMS[m[0][0]]
            if k == 'app' and n in ('min', 'max'):
                return [y for x in pl for y in leaves(x)]
    return [r]
