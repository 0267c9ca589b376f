from pathlib_ import *


def replay(ctx, maxlen):
    f = ctx.prog.fn(r'river::path::traverse\(river::path_traverse_funcs const&, void\*\) const')
    e = ctx.engine()
    collector(e)
    for w in words(maxlen):
        for by_point in (True, False):
            if by_point is False and 'M' not in w and 'L' not in w:
                continue
            cs = cmds(w)
            st = State()
            p = empty_path(e, st)
            for s in record(ctx, e, st, p, cs, by_point):
                u = user_ptr(e, s)
                fo = funcs_obj(e, s, ('move_to', 'line_to', 'arc_to', 'cubic_to'))
                for s2, _ in ctx.run(e, f, [p, fo, u], s, 'replay'):
                    compare(ctx, e, s2, [(SLOT[k], pts) for k, pts in expected(cs)], u, 'replay', 'command word "%s"' % w)
            ctx.count('command_words')


def moved(ctx, maxlen):
    """a path handed over by move construction replays the same"""
    f = ctx.prog.fn(r'river::path::traverse\(river::path_traverse_funcs const&, void\*\) const')
    mv = ctx.prog.find(r'river::path::path\(river::path&&\)', required=False)
    if not mv:
        return
    e = ctx.engine()
    collector(e)
    for w in words(maxlen):
        cs = cmds(w)
        st = State()
        p = empty_path(e, st)
        for s in record(ctx, e, st, p, cs):
            q = e.alloc_struct(s, PATH, name=None, lazy=False)
            for s1, _ in ctx.run(e, mv[0], [q, p], s, 'move'):
                u = user_ptr(e, s1)
                fo = funcs_obj(e, s1, ('move_to', 'line_to', 'arc_to', 'cubic_to'))
                for s2, _ in ctx.run(e, f, [q, fo, u], s1, 'move'):
                    compare(ctx, e, s2, [(SLOT[k], pts) for k, pts in expected(cs)], u, 'move', 'moved path, command word "%s"' % w)


def check(ctx):
    n = 5 if ctx.thorough else 4
    ctx.rule('for every command word over {move,line,cubic} up to length %d with symbolic coordinates: abstract replay of the recorded path reports the word, each start point being the previous end point and the context pointer unchanged' % n)
    ctx.bounds.append('command words up to length %d' % n)
    ctx.group('replay', replay, n)
    ctx.group('move', moved, 3)
