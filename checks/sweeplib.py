"""Active edges with their vertices and segments, as the sweep keeps them."""
from ringlib import *


def active(e, st, name, bot, top, up, role=0, ctrl=None, curr_x=None, flags=0):
    """edge from bot to top; up: contour runs upwards along it. Returns the edge"""
    d = mkedge(e, st, name, role, -1 if up else 1)
    e.setf(st, d, ED, 'bot', bot)
    e.setf(st, d, ED, 'top', top)
    e.setf(st, d, ED, 'curr_x', curr_x if curr_x is not None else bot[0])
    v = mkvertex(e, st, name + '.vt', top, flags)
    u = mkvertex(e, st, name + '.vb', bot)
    a, b = (u, v) if up else (v, u)
    e.setf(st, a, VX, 'next', b)
    e.setf(st, b, VX, 'prev', a)
    to = top if up else bot
    if ctrl is None:
        g = mkline(e, st, to)
    else:
        c = ctrl if up else (ctrl[1], ctrl[0])
        g = mkcubic(e, st, c[0], c[1], to)
    e.setf(st, a, VX, 'next_seg', g)
    e.setf(st, d, ED, 'vertex_top', v)
    return d


def line_x(bot, top, y):
    return bot[0] + (top[0] - bot[0]) * (y - bot[1]) / (top[1] - bot[1])


def mkbound(e, st, name, edge=None, wind_dx=1, stop_x=None, owner=NULL):
    b = e.alloc_struct(st, OB, name=name, lazy=False)
    e.setf(st, b, OB, 'prev_in_obl', NULL)
    e.setf(st, b, OB, 'next_in_obl', NULL)
    e.setf(st, b, OB, 'owner', owner)
    e.setf(st, b, OB, 'curr_edge', edge if edge is not None else NULL)
    e.setf(st, b, OB, 'stop_x', stop_x if stop_x is not None else sym(name + '.stop'))
    e.setf(st, b, OB, 'wind_dx', wind_dx)
    if edge is not None:
        e.setf(st, edge, ED, 'bound', b)
    return b


def mkpoly(e, st, name, idx=0, up=None, down=None, up_path=(), down_path=(), origin=None, complete=0):
    p = e.alloc_struct(st, OP, name=name, lazy=False)
    e.setf(st, p, OP, 'idx', idx)
    e.setf(st, p, OP, 'owner', NULL)
    e.setf(st, p, OP, 'origin', origin or vec(name + '.o'))
    e.setf(st, p, OP, 'up_bound', up if up is not None else NULL)
    e.setf(st, p, OP, 'down_bound', down if down is not None else NULL)
    ptrvec(e, st, fp(e, p, OP, 'up_path'), list(up_path))
    ptrvec(e, st, fp(e, p, OP, 'down_path'), list(down_path))
    e.setf(st, p, OP, 'is_complete', complete)
    e.setf(st, p, OP, 'is_open', 0)
    for b in (up, down):
        if b is not None:
            e.setf(st, b, OB, 'owner', p)
    return p


def link_obl(e, st, c, bounds):
    prev = None
    for b in bounds:
        e.setf(st, b, OB, 'prev_in_obl', prev if prev is not None else NULL)
        if prev is not None:
            e.setf(st, prev, OB, 'next_in_obl', b)
        prev = b
    if bounds:
        e.setf(st, bounds[-1], OB, 'next_in_obl', NULL)
    e.setf(st, c, CL, 'obl_first', bounds[0] if bounds else NULL)
