from runlib import *
import p16


def result(op, fill, subj, clip):
    """boolean result for contours (points, turns counter-clockwise) that are pairwise disjoint"""
    subj, clip = ([c for c, ccw in x if fill in ('even_odd', 'non_zero') or (fill == 'positive') == ccw] for x in (subj, clip))
    return {'none': [], 'intersection': [], 'union_': subj + clip, 'difference': subj, 'xor_': subj + clip}[op]


def sequence(ctx, steps, flips=(False, True)):
    """steps: ('add', role) adds a new triangle above all earlier ones; ('run', op, fill)"""
    e = ctx.engine()
    e.mem_order = 1
    # simple disjoint contours have no crossings: the search (P07, P15, P27) is cut off, everything else is the real code
    for h in (p16.PROC, p16.ADDS):
        e.hook(h, lambda e_, s_, a, f, d: [(s_, UNDEF)])
    p, s = processor(ctx, e, State())
    states = [s]
    subj, clip, last, k = [], [], None, 0
    for i, x in enumerate(steps):
        nxt = []
        if x[0] == 'add':
            for s in states:
                t = triangle(s, 't%d' % k, last, flips[k % len(flips)])
            for s in states:
                nxt += add(ctx, e, s, p, [t], x[1])
            (subj if x[1] == 0 else clip).append((list(t), not flips[k % len(flips)]))
            last = (last or ()) + t
            k += 1
        else:
            want = result(x[1], x[2], subj, clip)
            for s in states:
                for s2, u in run(ctx, e, s, p, x[1], x[2]):
                    got = reported(s2, s2.user['n0'])
                    ctx.expect(s2, same_result(e, s2, got, want), 'sequence/result',
                               lambda: 'calls %s: run %d reports %s contours, the inputs added so far give %d under %s, %s%s' % (
                                   steps, i, 'malformed' if got is None else len(got), len(want), x[1], x[2], '' if got is None or len(got) != len(want) else ' with different corners'))
                    nxt.append(s2)
        states = nxt
    ctx.count('call sequences')


def leftover(ctx, op, fill):
    """the lists of an earlier, broken-off sweep still hang in the processor: they must not be followed"""
    e = ctx.engine()
    e.mem_order = 1
    for h in (p16.PROC, p16.ADDS):
        e.hook(h, lambda e_, s_, a, f, d: [(s_, UNDEF)])
    p, s = processor(ctx, e, State())
    t = triangle(s, 't', None, False)
    for s in add(ctx, e, s, p, [t], 0):
        c = e.getf(s, p, PR, 'pptr').add(e.off('river::processor_private', 'clipper')[0])
        for fld, cls in (('ael_first', ED), ('obl_first', OB)):
            o = e.alloc_struct(s, cls, name='old_' + fld, lazy=True)
            s.mem[o.o].freed = True
            e.setf(s, c, CL, fld, o)
        want = result(op, fill, [(list(t), True)], [])
        for s2, u in run(ctx, e, s, p, op, fill):
            got = reported(s2, s2.user['n0'])
            ctx.expect(s2, same_result(e, s2, got, want), 'leftover/result', 'a run that starts with the lists of an earlier sweep still set reports a different result (%s, %s)' % (op, fill))


def check(ctx):
    ctx.rule('sequences of add and run calls on one processor, analysed from its constructor through the public interface on symbolic triangles: every run reports exactly the contours the inputs added so far give, whatever runs came before')
    ctx.rule('crossings recorded by an earlier run are gone before the next crossing search, and a run without new crossings leaves the contours as they are')
    ctx.rule('a run entered with the edge and boundary lists of an earlier sweep still set neither follows them nor reports anything from them')
    ctx.bounds = ['sequences of up to %d runs' % (4 if ctx.thorough else 3), 'triangles disjoint in height; crossings injected abstractly into the search']
    ctx.assumptions = ['real arithmetic']
    A, U, I, X, D = ('add', 0), ('run', 'union_', 'non_zero'), ('run', 'intersection', 'non_zero'), ('run', 'xor_', 'even_odd'), ('run', 'difference', 'even_odd')
    B = ('add', 1)
    seqs = [[A, U, U], [A, I, U], [A, U, I], [A, X, D, U], [A, U, A, U], [A, X, B, X], [B, D, A, D], [A, U, U, U], [U, A, U],
            [A, ('run', 'none', 'even_odd'), X]]
    P, N = ('run', 'union_', 'positive'), ('run', 'xor_', 'negative')
    seqs += [[A, P, N, P], [A, A, N, P, N], [A, B, U, P, X, N]]
    if ctx.thorough:
        seqs += [[A, U, A, U, B, X, I], [A, B, D, U, D], [A, A, U, B, X, U]]
    for i, q in enumerate(seqs):
        ctx.group('sequence%d' % i, sequence, q)
    for op, fill in (('union_', 'non_zero'), ('intersection', 'even_odd'), ('xor_', 'positive')):
        ctx.group('leftover/' + op, leftover, op, fill)
    for i, x in enumerate([(['LLL'], {(0, 0): 1}, True), (['LCL'], {(0, 1): 1, (0, 2): 2}, True)]):
        ctx.group('crossings%d' % i, p16.one, *x)
