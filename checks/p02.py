from pathlib_ import *


def subsets(ctx, maxlen):
    f = ctx.prog.fn(r'river::path::traverse\(river::path_traverse_funcs const&, void\*\) const')
    e = ctx.engine()
    collector(e)
    slots = ('move_to', 'line_to', 'cubic_to')
    for r in range(4):
        for present in itertools.combinations(slots, r):
            for arc in (True, False):
                for w in words(maxlen):
                    cs = cmds(w)
                    st = State()
                    p = empty_path(e, st)
                    for s in record(ctx, e, st, p, cs, False):
                        u = user_ptr(e, s)
                        fo = funcs_obj(e, s, present + (('arc_to',) if arc else ()))
                        key = 'subset'
                        outs = ctx.run(e, f, [p, fo, u], s, key)
                        for s2, _ in outs:
                            want = [(SLOT[k], pts) for k, pts in expected(cs) if SLOT[k] in present]
                            compare(ctx, e, s2, want, u, key, 'callbacks set: %s, command word "%s"' % (','.join(present) or 'none', w))
                    ctx.count('words_x_subsets')


def check(ctx):
    n = 4 if ctx.thorough else 3
    ctx.rule('for each of the 8 subsets of unset move/line/cubic callbacks (times the arc slot) and every command word up to length %d: no call through a null function pointer, and the set callbacks receive exactly the commands of their kind with the full-set start points' % n)
    ctx.bounds.append('command words up to length %d' % n)
    ctx.group('subset', subsets, n)
