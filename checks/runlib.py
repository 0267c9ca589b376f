"""Whole runs through the public interface on symbolic triangles."""
from readlib import *
from pathlib_ import *

PR = 'river::processor'
ADDR_ = r'river::processor::add_path\(void \(\*\).*'
ADDP = r'river::processor::add_path\(std::vector<river::path, .*> const&, river::path_type\)'
PRCB = r'river::processor::process\(river::clip_type, river::fill_rule, river::path_traverse_funcs, void\*\)'
PRPS = r'river::processor::process\(river::clip_type, river::fill_rule, std::vector<river::path, .*>&\)'
SETS = ('move_to', 'line_to', 'arc_to', 'cubic_to')


def processor(ctx, e, st):
    p = e.alloc_struct(st, PR, lazy=False)
    o = ctx.run(e, r'river::processor::processor\(\)', [p], st, 'construct')
    if len(o) != 1:
        raise Unsupported('processor constructor has %d outcomes' % len(o))
    return p, o[0][0]


def triangle(st, name, above=None, flip=False):
    """A bottom, B middle right, C top (between in x); above: lies above the point given; flip: B on the left"""
    A, B, C = vec(name + 'A'), vec(name + 'B'), vec(name + 'C')
    s = -1 if flip else 1
    fassume(st, B[1] - A[1], POS)
    fassume(st, C[1] - B[1], POS)
    fassume(st, C[1] - A[1], POS)
    fassume(st, (C[0] - A[0]) * R.c(s), POS)
    fassume(st, (B[0] - C[0]) * R.c(s), POS)
    fassume(st, (B[0] - A[0]) * R.c(s), POS)
    fassume(st, ((B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0])) * R.c(s), POS)
    if above is not None:
        for a in (A, B, C):
            for b in above:
                fassume(st, a[1] - b[1], POS)
    return A, B, C


def commands(*contours):
    out, last = [], vec('zero')
    for c in contours:
        out.append(('move_to', [last, c[0]]))
        for a, b in zip(c, c[1:]):
            out.append(('line_to', [a, b]))
        last = c[-1]
    return out


def add(ctx, e, s, p, contours, role):
    rd = reader(ctx, e, commands(*contours), 'add')
    return [x for x, _ in ctx.run(e, ADDR_, [p, rd, NULL, role], s, 'add')]


def run(ctx, e, s, p, op, fill):
    collector(e)
    fo, u = funcs_obj(e, s, SETS), user_ptr(e, s)
    s.user = dict(s.user, n0=len(s.events))
    return [(x, u) for x, _ in ctx.run(e, PRCB, [p, CLIP[op], FILL[fill], fo, u], s, 'run')]


def reported(s, n0):
    """list of contours (points) reported since event n0; None if malformed"""
    out = []
    for ev in s.events[n0:]:
        if ev[0] != 'rep':
            continue
        if ev[1] == 'move_to':
            out.append([ev[2][-1]])
        elif not out:
            return None
        else:
            out[-1].append(ev[2][-1])
    return out


def same_loop(e, s, got, want):
    """closed point loops equal up to start and direction"""
    g = list(got)
    if len(g) > 1 and eq(e, s, g[0], g[-1]) is True:
        g = g[:-1]
    if len(g) != len(want):
        return False
    for d in (1, -1):
        w = list(want)[::d]
        for k in range(len(w)):
            if eq(e, s, g, w[k:] + w[:k]) is True:
                return True
    return False


def same_result(e, s, got, want):
    if got is None or len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        m = [w for w in left if same_loop(e, s, g, w)]
        if not m:
            return False
        left.remove(m[0])
    return True
