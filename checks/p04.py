from runlib import *
import p16
import p20


def fresh(ctx):
    e = ctx.engine()
    e.mem_order = 1
    for h in (p16.PROC, p16.ADDS):
        e.hook(h, lambda e_, s_, a, f, d: [(s_, UNDEF)])
    p, s = processor(ctx, e, State())
    return e, p, s


def mkpaths(ctx, e, s, per_path):
    """a std::vector<path>; per_path: for each path the contours it holds. Returns (states, vector pointer)"""
    size = e.prog.sizeof(PATH)
    o = Ptr(e.new_obj(s, size=size * max(1, len(per_path)), tag='heap'), 0)
    s.null[o.o] = False
    v = Ptr(e.new_obj(s, size=24, tag='vector'), 0)
    s.null[v.o] = False
    states = [s]
    for i, contours in enumerate(per_path):
        q = o.add(size * i)
        for f in ('data', 'element_types'):
            for k in (0, 8, 16):
                e.store(s, q.add(e.off(PATH, f)[0] + k), NULL, 8)
    for i, contours in enumerate(per_path):
        cs = []
        for c in contours:
            cs += [('M', [c[0]])] + [('L', [x]) for x in c[1:]]
        states = [s2 for s1 in states for s2 in record(ctx, e, s1, o.add(size * i), cs)]
    for s1 in states:
        e.store(s1, v, o, 8)
        e.store(s1, v.add(8), o.add(size * len(per_path)), 8)
        e.store(s1, v.add(16), o.add(size * len(per_path)), 8)
    return states, v


def roles(ctx, plan):
    """plan: [(overload, role, [contours per path])]; the difference of disjoint contours reports exactly the subjects"""
    e, p, s = fresh(ctx)
    states = [s]
    subj, clip, last, k = [], [], (), 0
    for over, role, per in plan:
        per_path = []
        for n in per:
            cs = []
            for _ in range(n):
                for s1 in states:
                    t = triangle(s1, 't%d' % k, last or None, bool(k % 2))
                cs.append(t)
                (subj if role == 0 else clip).append((list(t), k % 2 == 0))
                last = t
                k += 1
            per_path.append(cs)
        nxt = []
        for s1 in states:
            if over == 'paths':
                sts, v = mkpaths(ctx, e, s1, per_path)
                for s2 in sts:
                    nxt += [x for x, _ in ctx.run(e, ADDP, [p, v, role], s2, 'add')]
            else:
                sts = [s1]
                for cs in per_path:
                    sts = [y for x in sts for y in add(ctx, e, x, p, cs, role)]
                nxt += sts
        states = nxt
    desc = 'inputs (overload, role, contours per path) %s' % plan
    for s1 in states:
        for op in ('difference', 'union_'):
            s0 = s1.clone()
            want = p20.result(op, 'non_zero', subj, clip)
            for s2, u in run(ctx, e, s0, p, op, 'non_zero'):
                got = reported(s2, s2.user['n0'])
                ctx.expect(s2, same_result(e, s2, got, want), 'roles/' + op, lambda: '%s: %s reports %s contours, expected the %d %s' % (
                    desc, op, None if got is None else len(got), len(want), 'subject contours' if op == 'difference' else 'contours given'))
                for ev in s2.events[s2.user['n0']:]:
                    if ev[0] == 'rep':
                        ctx.expect_eq(e, s2, ev[3], u, 'target/user', desc + ': output target handed to a callback')
    ctx.count('input plans')


def settings(ctx):
    """operation and fill rule reach the clipper unchanged, through both overloads"""
    for op in CLIP:
        for fill in FILL:
            for over in ('callbacks', 'paths'):
                e, p, s = fresh(ctx)
                seen = []

                def grab(e_, s_, a, f, d):
                    s_.events.append(('settings', e_.getf(s_, a[0], CL, 'cliptype_'), e_.getf(s_, a[0], CL, 'fillrule_')))
                    return [(s_, 0)]
                e.hook(r'vatti::clipper::is_contributing\(vatti::edge\*\)', grab)
                t = triangle(s, 't')
                for s1 in add(ctx, e, s, p, [t], 0):
                    if over == 'callbacks':
                        collector(e)
                        outs = ctx.run(e, PRCB, [p, CLIP[op], FILL[fill], funcs_obj(e, s1, SETS), user_ptr(e, s1)], s1, 'run')
                    else:
                        sts, v = mkpaths(ctx, e, s1, [])
                        outs = ctx.run(e, PRPS, [p, CLIP[op], FILL[fill], v], s1, 'run')
                    for s2, _ in outs:
                        got = [ev for ev in s2.events if ev[0] == 'settings']
                        if not got:
                            ctx.inconclusive('settings', 'no edge is examined')
                        for ev in got:
                            ctx.expect_eq(e, s2, (ev[1], ev[2]), (CLIP[op], FILL[fill]), 'settings', 'operation %s, fill rule %s through the %s overload: settings in force when edges are examined' % (op, fill, over))


def simple_results(ctx):
    """every operation and fill rule on disjoint inputs of both directions"""
    for op in CLIP:
        for fill in FILL:
            e, p, s = fresh(ctx)
            subj, clip, last = [], [], ()
            states = [s]
            for k, role in enumerate((0, 1, 0, 1) if fill in ('positive', 'negative') else (0, 1)):
                for s1 in states:
                    t = triangle(s1, 't%d' % k, last or None, k >= 2)
                last = t
                states = [y for x in states for y in add(ctx, e, x, p, [t], role)]
                (clip if role else subj).append((list(t), k < 2))
            want = p20.result(op, fill, subj, clip)
            for s1 in states:
                for s2, u in run(ctx, e, s1, p, op, fill):
                    got = reported(s2, s2.user['n0'])
                    ctx.expect(s2, same_result(e, s2, got, want), 'simple/' + op, lambda: '%s, %s of disjoint contours: %s reported, expected %d' % (op, fill, None if got is None else len(got), len(want)))
            ctx.count('simple results')


CPROC = r'vatti::clipper::process\(river::clip_type, river::fill_rule, river::path_traverse_funcs, void\*\)'


def collecting(ctx, maxlen):
    """the path-collecting run records exactly what the callback run reports"""
    hit = [0]
    for word in words(maxlen):
        if word and word[0] != 'M':
            continue
        for pre in (0, 1):
            e, p, s = fresh(ctx)
            cs = cmds(word)

            def drive(e_, st, a, f, d):
                hit[0] += 1
                states = [st]
                for slot, pts in [(SLOT[k], q) for k, q in expected(cs)]:
                    nxt = []
                    for s1 in states:
                        fn = e_.getf(s1, a[3], FUNCS, slot)
                        if isinstance(fn, Ptr) and fn.o == 0:
                            s1.events.append(('unset', slot))
                            nxt.append(s1)
                            continue
                        nxt += [x for x, _ in e_.call(s1, fn, [vec_obj(e_, s1, q) for q in pts] + [a[4]])]
                    states = nxt
                return [(x, UNDEF) for x in states]
            e.hook(CPROC, drive)
            old = [[[vec('old0'), vec('old1')]]] if pre else []
            sts, v = mkpaths(ctx, e, s, old)
            desc = 'collected command word "%s"%s' % (word, ', output not empty before' if pre else '')
            for s1 in sts:
                for s2, _ in ctx.run(e, PRPS, [p, 1, 0, v], s1, 'collect'):
                    size = e.prog.sizeof(PATH)
                    b, n = vec_range(e, s2, v)
                    n //= size
                    parts = []
                    for k, pts in cs:
                        if k == 'M':
                            parts.append([])
                        parts[-1].append((k, pts))
                    if not ctx.expect(s2, n == len(parts) + pre, 'collect/count', lambda: '%s: %d paths, expected %d' % (desc, n, len(parts) + pre)):
                        continue
                    if not [ev for ev in s2.events if ev[0] == 'unset']:
                        ctx.ok()
                    for i, part in enumerate(parts):
                        q = b.add(size * (i + pre))
                        data = read_dblvec(e, s2, q.add(e.off(PATH, 'data')[0]))
                        want = [x for k, pts in part for pt in pts for x in pt]
                        ctx.expect_eq(e, s2, data, want, 'collect/data', '%s: coordinates of path %d' % (desc, i))
                        ty = read_charvec(e, s2, q.add(e.off(PATH, 'element_types')[0]))
                        ctx.expect(s2, len(ty) == len(part), 'collect/types', lambda: '%s: path %d has %d commands, expected %d' % (desc, i, len(ty), len(part)))
                        collector(e)
                        u = user_ptr(e, s2)
                        n0 = len(s2.events)
                        for s3, _ in ctx.run(e, r'river::path::traverse\(river::path_traverse_funcs const&, void\*\) const', [q, funcs_obj(e, s2, SETS), u], s2, 'collect'):
                            s3.events = s3.events[n0:]
                            compare(ctx, e, s3, [(SLOT[k], pts) for k, pts in expected(part)], u, 'collect', desc + ', path %d' % i)
                    for i in range(pre):
                        data = read_dblvec(e, s2, b.add(e.off(PATH, 'data')[0]))
                        ctx.expect_eq(e, s2, data, [x for pt in (vec('old0'), vec('old1')) for x in pt], 'collect/kept', desc + ': path already in the output')
        ctx.count('collected words')
    if not hit[0]:
        ctx.inconclusive('collecting', 'the collecting overload does not go through the callback overload')


def plans(ctx):
    ps = []
    for over in ('paths', 'reader'):
        for r in (0, 1):
            ps += [[(over, r, [1])], [(over, r, [2])], [(over, r, [1, 1])], [(over, r, [1]), (over, 1 - r, [1])], [(over, r, [2, 1]), (over, 1 - r, [1, 2])]]
    ps += [[('paths', 0, [1]), ('reader', 1, [2]), ('paths', 1, [1]), ('reader', 0, [1])], [('reader', 1, [3]), ('paths', 0, [3])],
           [('paths', 0, [1, 0, 1]), ('paths', 1, [0, 1])]]
    for i, q in enumerate(ps):
        ctx.group('roles%d' % i, roles, q)


def check(ctx):
    m = 5 if ctx.thorough else 4
    ctx.rule('from the processor\'s constructor through both input overloads on symbolic disjoint contours: the difference reports exactly the contours given as subject, the union all of them, with the caller\'s target in every callback')
    ctx.rule('operation and fill rule in force when edges are examined equal the ones given, for all 20 combinations and both run overloads; results of all combinations on disjoint contours of both directions')
    ctx.rule('the collecting overload, driven with every command word, appends exactly the paths and commands reported')
    ctx.bounds = ['up to 6 contours over up to 4 inputs', 'command words of up to %d commands' % m]
    ctx.assumptions = ['contours disjoint in height for the role analysis; crossing search cut off', 'real arithmetic']
    plans(ctx)
    ctx.group('settings', settings)
    ctx.group('simple', simple_results)
    ctx.group('collecting', collecting, m)
