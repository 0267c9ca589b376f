from common import *


def filled(rule, w):
    return {'even_odd': w % 2 != 0, 'non_zero': w != 0, 'positive': w > 0, 'negative': w < 0}[rule]


def result(op, s, c):
    return {'none': False, 'intersection': s and c, 'union_': s or c, 'difference': s and not c, 'xor_': s != c}[op]


# abstract cells of a winding number: representative and facts
OWN = {'le-3': (-3, [(3, LE)]), '-2': (-2, [(2, ZER)]), '-1': (-1, [(1, ZER)]), '1': (1, [(-1, ZER)]), '2': (2, [(-2, ZER)]), 'ge3': (3, [(-3, GE)])}
OTH = {'le-3': (-3, [(3, LE)]), '-2': (-2, [(2, ZER)]), '-1': (-1, [(1, ZER)]), '0': (0, [(0, ZER)]), '1': (1, [(-1, ZER)]), '2': (2, [(-2, ZER)]), 'ge3': (3, [(-3, GE)])}


def table(ctx):
    f = ctx.prog.fn(r'vatti::clipper::is_contributing\(vatti::edge\*\)')
    where = ctx.prog.where(f)
    for (fr, fv), (op, ov), (role, rv) in itertools.product(FILL.items(), CLIP.items(), ROLE.items()):
        e = ctx.engine()
        for dx in (1, -1):
            for (ok, (orep, ocons)), (tk, (trep, tcons)) in itertools.product(OWN.items(), OTH.items()):
                if fr == 'even_odd' and (ok not in ('1', '-1') or orep != dx or tk not in ('0', '1')):
                    continue
                st = State()
                c = mkclipper(e, st, fv, ov, lazy=True)
                d = mkedge(e, st, 'e', rv, dx)
                wc, wc2 = e.getf(st, d, ED, 'wind_cnt'), e.getf(st, d, ED, 'wind_cnt2')
                for k, s in ocons:
                    fassume(st, wc + R.c(k), s)
                for k, s in tcons:
                    fassume(st, wc2 + R.c(k), s)
                # own winding number on the two sides: the stored one and its neighbour one step nearer to zero
                a, b = orep, orep - (1 if orep > 0 else -1)
                ra, rb = filled(fr, a), filled(fr, b)
                o = filled(fr, trep)
                if role == 'subject':
                    want = result(op, ra, o) != result(op, rb, o)
                else:
                    want = result(op, o, ra) != result(op, o, rb)
                key = 'table/%s/%s/%s' % (fr, op, role)
                outs = ctx.run(e, f, [c, d], st, key)
                for s, v in outs:
                    ctx.expect_eq(e, s, v, int(want), key,
                                  '%s: fill rule %s, operation %s, %s edge with own winding %s, other winding %s: expected contributing=%s' % (where, fr, op, role, ok, tk, want))
                ctx.count('table_cells')


def check(ctx):
    ctx.rule('decision table of is_contributing, over the sign/step partition of both winding numbers, equals "result filled on one side only" computed from the fill rule and operation definitions')
    ctx.assumptions = ['own winding number stored on an edge is the one of the adjacent region farther from zero, never 0 (established by the propagation rule, checked separately)',
                       'even-odd: own = direction, other in {0,1}']
    ctx.group('table', table)
