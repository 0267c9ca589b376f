"""Builders of abstract shapes shared by the checks."""
import os, sys
from harness import *
import itertools

CL = 'vatti::clipper'
ED = 'vatti::edge'
VX = 'vatti::vertex'
LM = 'vatti::local_minima'
OB = 'vatti::out_bound'
OP = 'vatti::out_polygon'
BI = 'vatti::break_info'
SL = 'river::seg_lineto'
SC = 'river::seg_cubicto'
SM = 'river::seg_moveto'
SA = 'river::seg_arcto'
BZ = 'rmath::bezier_cubic'
V2 = 'rmath::vec2'
FILL = {'even_odd': 0, 'non_zero': 1, 'positive': 2, 'negative': 3}
CLIP = {'none': 0, 'intersection': 1, 'union_': 2, 'difference': 3, 'xor_': 4}
ROLE = {'subject': 0, 'clip': 1}


def vtable(prog, cls):
    name = '_ZTVN' + ''.join('%d%s' % (len(x), x) for x in cls.split('::')) + 'E'
    for m in prog.modules:
        if name in m.globals_raw:
            return Ptr(('g', prog.modules[0], name), 16)
    raise Missing('vtable of ' + cls)


def vec(name):
    return (sym(name + '.x'), sym(name + '.y'))


def vec_obj(e, st, v):
    p = Ptr(e.new_obj(st, size=16, tag='vec2'), 0)
    st.null[p.o] = False
    e.setf(st, p, V2, 'x', v[0])
    e.setf(st, p, V2, 'y', v[1])
    return p


def mkseg(e, st, cls, **fields):
    p = e.alloc_struct(st, cls, name=None, lazy=False)
    e.store(st, p, vtable(e.prog, cls), 8)
    for k, v in fields.items():
        e.setf(st, p, cls, k, v)
    return p


def mkline(e, st, target):
    return mkseg(e, st, SL, target=target)


def mkcubic(e, st, c1, c2, target):
    return mkseg(e, st, SC, ctrl1=c1, ctrl2=c2, target=target)


# ---- std::vector<T> images (begin, end, end_of_storage)
def mkvector(e, st, at, items, size, cap=None):
    """write a vector image at pointer `at`; items are lists of (offset, value, size)"""
    cap = cap if cap is not None else len(items)
    if cap == 0:
        for k in (0, 8, 16):
            e.store(st, at.add(k), NULL, 8)
        return None
    o = e.new_obj(st, size=size * cap, tag='heap')
    st.null[o] = False
    b = Ptr(o, 0)
    for i, it in enumerate(items):
        for off, v, s in it:
            e.store(st, b.add(i * size + off), v, s)
    e.store(st, at, b, 8)
    e.store(st, at.add(8), b.add(size * len(items)), 8)
    e.store(st, at.add(16), b.add(size * cap), 8)
    return b


def ptrvec(e, st, at, ptrs, cap=None):
    return mkvector(e, st, at, [[(0, p, 8)] for p in ptrs], 8, cap)


def dblvec(e, st, at, vals, cap=None):
    return mkvector(e, st, at, [[(0, num(v), 8)] for v in vals], 8, cap)


def vec_range(e, st, at):
    b = e.load(st, at, ('ptr',))
    n = e.load(st, at.add(8), ('ptr',))
    if not isinstance(b, Ptr) or not isinstance(n, Ptr):
        raise Unsupported('vector image %r %r' % (b, n))
    if b.o == 0:
        return b, 0
    if b.o != n.o or not isinstance(b.off, int) or not isinstance(n.off, int):
        raise Unsupported('vector image %r %r' % (b, n))
    return b, n.off - b.off


def read_ptrvec(e, st, at):
    b, n = vec_range(e, st, at)
    return [e.load(st, b.add(8 * i), ('ptr',)) for i in range(n // 8)]


def read_dblvec(e, st, at):
    b, n = vec_range(e, st, at)
    return [e.load(st, b.add(8 * i), ('double',)) for i in range(n // 8)]


def read_charvec(e, st, at):
    b, n = vec_range(e, st, at)
    return [e.load(st, b.add(i), ('i', 8)) for i in range(n)]


def fp(e, p, cls, field):
    return p.add(e.off(cls, field)[0])


def mkclipper(e, st, fill=2, clip=1, lazy=False):
    """a clipper whose containers are empty and whose other members are unknown (lazy) or unset"""
    c = e.alloc_struct(st, CL, name='clipper' if lazy else None, lazy=lazy)
    e.setf(st, c, CL, 'cliptype_', clip)
    e.setf(st, c, CL, 'fillrule_', fill)
    lay = e.prog.layout(CL)
    for f in lay:
        if lay[f][2].startswith('std::vector<') or lay[f][2].startswith('vector<'):
            for k in (0, 8, 16):
                e.store(st, c.add(lay[f][0] + k), NULL, 8)
        if 'priority_queue' in lay[f][2]:
            for k in (0, 8, 16):
                e.store(st, c.add(lay[f][0] + k), NULL, 8)
    if 'ael_first' in lay:
        e.setf(st, c, CL, 'ael_first', NULL)
    if 'obl_first' in lay:
        e.setf(st, c, CL, 'obl_first', NULL)
    if 'succeeded_' in lay:
        e.setf(st, c, CL, 'succeeded_', 1)
    return c


def mkvertex(e, st, name, pt=None, flags=0):
    v = e.alloc_struct(st, VX, name=name, lazy=False)
    e.setf(st, v, VX, 'pt', pt if pt is not None else vec(name))
    e.setf(st, v, VX, 'flags', flags)
    return v


def mkedge(e, st, name, role=0, wind_dx=1, cls_fields=None):
    """edge with symbolic geometry, in no list"""
    d = e.alloc_struct(st, ED, name=name, lazy=False)
    e.setf(st, d, ED, 'bot', vec(name + '.bot'))
    e.setf(st, d, ED, 'top', vec(name + '.top'))
    e.setf(st, d, ED, 'curr_x', sym(name + '.cx'))
    e.setf(st, d, ED, 'dx', sym(name + '.dx'))
    e.setf(st, d, ED, 'wind_dx', wind_dx)
    e.setf(st, d, ED, 'wind_cnt', sym(name + '.wc', True))
    e.setf(st, d, ED, 'wind_cnt2', sym(name + '.wc2', True))
    for f in ('prev_in_ael', 'next_in_ael', 'bound', 'vertex_top'):
        e.setf(st, d, ED, f, NULL)
    lm = e.alloc_struct(st, LM, name=name + '.lm', lazy=False)
    e.setf(st, lm, LM, 'polytype', role)
    e.setf(st, lm, LM, 'is_open', 0)
    e.setf(st, lm, LM, 'vert', NULL)
    e.setf(st, d, ED, 'local_min', lm)
    for k, v in (cls_fields or {}).items():
        e.setf(st, d, ED, k, v)
    return d


def link_ael(e, st, c, edges):
    prev = None
    for d in edges:
        e.setf(st, d, ED, 'prev_in_ael', prev if prev is not None else NULL)
        if prev is not None:
            e.setf(st, prev, ED, 'next_in_ael', d)
        prev = d
    if edges:
        e.setf(st, edges[-1], ED, 'next_in_ael', NULL)
    e.setf(st, c, CL, 'ael_first', edges[0] if edges else NULL)


def read_list(e, st, first, cls, nxt, prv, limit=64):
    """(list of nodes, error text)"""
    out = []
    cur = first
    prev = NULL
    while True:
        if cur is UNDEF:
            return out, 'link of element %d was never set' % len(out)
        if not isinstance(cur, Ptr):
            return out, None if cur is TOP else 'link is not a pointer'
        if cur.o == 0:
            return out, None
        p = e.getf(st, cur, cls, prv)
        if p != prev:
            return out + [cur], 'backward link of element %d does not point to its predecessor' % len(out)
        out.append(cur)
        if len(out) > limit:
            return out, 'list does not end'
        prev = cur
        cur = e.getf(st, cur, cls, nxt)


def read_ael(e, st, c):
    return read_list(e, st, e.getf(st, c, CL, 'ael_first'), ED, 'next_in_ael', 'prev_in_ael')


def read_obl(e, st, c):
    return read_list(e, st, e.getf(st, c, CL, 'obl_first'), OB, 'next_in_obl', 'prev_in_obl')


def const(r):
    return R.c(r)


def fassume(st, r, signs):
    """add a fact to the initial state"""
    r = num(r)
    return st.facts.assume(st.facts.rpoly(r), signs)
