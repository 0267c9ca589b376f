from sweeplib import *
from pathlib_ import collector, funcs_obj, user_ptr, compare

SETS = ('move_to', 'line_to', 'arc_to', 'cubic_to')
BUILD = r'vatti::clipper::build_output\(river::path_traverse_funcs, void\*\)'


def seg(e, st, name, kind):
    t = vec(name)
    if kind == 'L':
        return mkline(e, st, t), ('line_to', [t])
    c1, c2 = vec(name + '.c'), vec(name + '.d')
    return mkcubic(e, st, c1, c2, t), ('cubic_to', [c1, c2, t])


def poly(e, st, name, up, down, complete):
    U = [seg(e, st, '%su%d' % (name, i), k) for i, k in enumerate(up)]
    D = [seg(e, st, '%sd%d' % (name, i), k) for i, k in enumerate(down)]
    p = mkpoly(e, st, name, 0, None, None, [g for g, _ in U], [g for g, _ in D], vec(name + '.o'), complete)
    want = []
    if complete and (U or D):
        want.append(('move_to', [None, vec(name + '.o')]))
        last = vec(name + '.o')
        for _, (slot, pts) in U + D[::-1]:
            want.append((slot, [last] + pts))
            last = pts[-1]
    return p, want


def one(ctx, f, polys):
    e = ctx.engine()
    collector(e)
    st = State()
    c = mkclipper(e, st)
    ps, want = [], []
    for i, (u, d, comp) in enumerate(polys):
        p, w = poly(e, st, 'p%d' % i, u, d, comp)
        e.setf(st, p, OP, 'idx', i)
        ps.append(p)
        want += w
    ptrvec(e, st, fp(e, c, CL, 'output_list'), ps)
    fo, u = funcs_obj(e, st, SETS), user_ptr(e, st)
    desc = 'chains (up side, down side, complete) %s' % (list(polys),)
    for s, _ in ctx.run(e, f, [c, fo, u], st, 'report'):
        compare(ctx, e, s, want, u, 'report', desc)
    ctx.count('chain sets')


def single(ctx, m):
    f = ctx.prog.fn(BUILD)
    ws = [''.join(x) for k in range(m + 1) for x in itertools.product('LC', repeat=k)]
    for u in ws:
        for d in ws:
            for comp in (0, 1):
                one(ctx, f, [(u, d, comp)])


def several(ctx):
    f = ctx.prog.fn(BUILD)
    kinds = [('L', 'C', 1), ('CL', '', 1), ('', 'LC', 1), ('', '', 1), ('LC', 'CL', 0), ('', '', 0)]
    for k in (0, 2, 3):
        for combo in itertools.product(kinds, repeat=k):
            one(ctx, f, combo)


def twice(ctx):
    """reporting does not consume or alter the chains"""
    f = ctx.prog.fn(BUILD)
    e = ctx.engine()
    collector(e)
    st = State()
    c = mkclipper(e, st)
    p, want = poly(e, st, 'p', 'LC', 'CL', 1)
    ptrvec(e, st, fp(e, c, CL, 'output_list'), [p])
    fo, u = funcs_obj(e, st, SETS), user_ptr(e, st)
    for s, _ in ctx.run(e, f, [c, fo, u], st, 'report'):
        n = len(s.events)
        for s2, _ in ctx.run(e, f, [c, fo, u], s, 'report'):
            s2.events = s2.events[n:]
            compare(ctx, e, s2, want, u, 'again', 'chain reported a second time')


def check(ctx):
    m = 4 if ctx.thorough else 3
    ctx.rule('build_output on symbolic chains: every complete non-empty chain reports one move to its origin and then its up side forwards and its down side backwards, piece by piece with kind, own coordinates, running start point and the caller\'s target; incomplete and empty chains report nothing')
    ctx.bounds = ['chains with up to %d line/cubic pieces per side' % m, 'up to 3 chains in a list']
    ctx.assumptions = ['write callbacks are all set (the library\'s documentation promises null safety only for path replay)']
    ctx.group('single', single, m)
    ctx.group('several', several)
    ctx.group('twice', twice)
