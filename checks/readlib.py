"""Drive clipper::add_path through an abstract caller-supplied reader."""
from geo import *
from pathlib_ import FUNCS
from fractions import Fraction as F

ADD = r'vatti::clipper::add_path\(void \(\*\)\(void const\*, river::path_traverse_funcs, void\*\), void const\*, river::path_type, bool\)'


def reader(ctx, e, commands, what):
    """e.cb: calling Ptr(('cb','reader')) replays commands [(slot, [from, ..., to])] through the given functions"""
    def cb(e_, st, name, args):
        if name != 'reader':
            raise Unsupported('callback ' + str(name))
        funcs, user = args[1], args[2]
        st.events.append(('read', args[0]))
        states = [st]
        for slot, pts in commands:
            nxt = []
            for s in states:
                fn = e_.getf(s, funcs, FUNCS, slot)
                if isinstance(fn, Ptr) and fn.o == 0:
                    s.events.append(('skipped', slot))
                    nxt.append(s)
                    continue
                for s2, _ in e_.call(s, fn, [vec_obj(e_, s, p) for p in pts] + [user]):
                    nxt.append(s2)
            states = nxt
        return [(s, UNDEF) for s in states]
    e.cb = cb
    return Ptr(('cb', 'reader'), 0)


def chain(e, s, first, end):
    """vertices from first to end; error text"""
    out = [first]
    cur = first
    while cur != end:
        nx = e.getf(s, cur, VX, 'next')
        if not isinstance(nx, Ptr) or nx.o == 0 or len(out) > 60:
            return out, 'chain breaks after %d vertices' % len(out)
        if e.getf(s, nx, VX, 'prev') != cur:
            return out, 'backward link of vertex %d does not point to its predecessor' % len(out)
        out.append(nx)
        cur = nx
    return out, None


def seg_view(e, s, g):
    """(kind, points) of a concrete segment object"""
    if not isinstance(g, Ptr) or g.o == 0:
        return None
    vt = e.load(s, g, ('ptr',))
    for cls in (SL, SC, SM, SA):
        if vt == vtable(e.prog, cls):
            if cls == SC:
                return 'C', [e.getf(s, g, SC, k) for k in ('ctrl1', 'ctrl2', 'target')]
            return {SL: 'L', SM: 'M', SA: 'A'}[cls], [e.getf(s, g, cls, 'target')]
    return None
