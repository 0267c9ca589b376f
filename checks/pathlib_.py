from common import *

KIND = 'MLC'
SLOT = {'M': 'move_to', 'L': 'line_to', 'C': 'cubic_to'}
FUNCS = 'river::path_traverse_funcs'
PATH = 'river::path'


def cmds(word, tag=''):
    """symbolic commands for a word over MLC -> [(kind, [points])]"""
    out = []
    for i, k in enumerate(word):
        n = 3 if k == 'C' else 1
        out.append((k, [vec('%s%d.%d' % (tag, i, j)) for j in range(n)]))
    return out


def empty_path(e, st):
    p = e.alloc_struct(st, PATH, name=None, lazy=False)
    for f in ('data', 'element_types'):
        for k in (0, 8, 16):
            e.store(st, p.add(e.off(PATH, f)[0] + k), NULL, 8)
    return p


def record(ctx, e, st, path, cs, by_point=True, key='record'):
    """returns list of states"""
    states = [st]
    for k, pts in cs:
        nxt = []
        for s in states:
            if k == 'C':
                a = [path] + [vec_obj(e, s, q) for q in pts]
                f = e.prog.fn(r'river::path::cubicto\(rmath::vec2 const&, rmath::vec2 const&, rmath::vec2 const&\)')
            else:
                nm = 'moveto' if k == 'M' else 'lineto'
                if by_point:
                    a = [path, vec_obj(e, s, pts[0])]
                    f = e.prog.fn(r'river::path::%s\(rmath::vec2 const&\)' % nm)
                else:
                    a = [path, pts[0][0], pts[0][1]]
                    f = e.prog.fn(r'river::path::%s\(double, double\)' % nm)
            for s2, _ in ctx.run(e, f, a, s, key):
                nxt.append(s2)
        states = nxt
    return states


def expected(cs):
    """[(kind, from, pts)] a replay must report"""
    last = (R.c(0), R.c(0))
    out = []
    for k, pts in cs:
        out.append((k, [last] + list(pts)))
        last = pts[-1]
    return out


def collector(e, npts={'move_to': 2, 'line_to': 2, 'arc_to': 4, 'cubic_to': 4}):
    """callbacks Ptr(('cb', name)) record ('rep', name, points, user)"""
    def cb(e, st, name, args):
        n = npts[name]
        pts = []
        for a in args[:n]:
            pts.append((e.load(st, a, ('double',)), e.load(st, a.add(8), ('double',))))
        st.events.append(('rep', name, pts, args[n] if len(args) > n else None, st.stack))
        return [(st, UNDEF)]
    e.cb = cb


def funcs_obj(e, st, present):
    f = e.alloc_struct(st, FUNCS, name=None, lazy=False)
    for slot in ('move_to', 'line_to', 'arc_to', 'cubic_to'):
        e.setf(st, f, FUNCS, slot, Ptr(('cb', slot), 0) if slot in present else NULL)
    return f


def user_ptr(e, st):
    u = Ptr(e.new_obj(st, lazy='user', size=64, tag='user'), 0)
    st.null[u.o] = False
    return u


def compare(ctx, e, st, want, user, key, desc):
    """want: [(slot, points)]"""
    got = [ev for ev in st.events if ev[0] == 'rep']
    if not ctx.expect(st, len(got) == len(want), key + '/count',
                      lambda: '%s: %d commands reported, expected %d (reported %s)' % (desc, len(got), len(want), [g[1] for g in got])):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        at = e.fmt_stack(g[4])
        ctx.expect(st, g[1] == w[0], key + '/kind', lambda: '%s: command %d reported as %s, expected %s at %s' % (desc, i, g[1], w[0], at))
        if g[1] != w[0]:
            return
        for j, (a, b) in enumerate(zip(g[2], w[1])):
            if b is None:
                continue
            ctx.expect_eq(e, st, a, b, '%s/%s/%s' % (key, w[0], 'from' if j == 0 else 'point%d' % j),
                          lambda: '%s: command %d (%s), %s differs at %s' % (desc, i, w[0], 'start point' if j == 0 else 'point %d' % j, at))
        ctx.expect_eq(e, st, g[3], user, key + '/user', lambda: '%s: context pointer of command %d at %s' % (desc, i, at))


def words(n):
    for k in range(n + 1):
        for w in itertools.product(KIND, repeat=k):
            yield ''.join(w)
