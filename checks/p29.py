import re, subprocess, tempfile, shutil
from runlib import *
import p16, p27, irload
from ringlib import mkring, put_breaks

DTOR = r'river::processor::~processor\(\)'
POOLD = r'boost::object_pool<.*>::~object_pool\(\)'


def pool_dtor(e, st, a, f, d):
    """~object_pool: destroys every record it still holds, then releases them"""
    m = re.match(r'boost::object_pool<(.*), boost::default_user_allocator_new_delete>::~object_pool', d)
    cls = m.group(1) if m else None
    st.events.append(('pool_dead', a[0], cls))
    sts = [st]
    fs = e.prog.find(re.escape(cls) + r'::~' + re.escape(cls.split('::')[-1]) + r'\(\)', required=False) if cls else []
    for ev in [x for x in st.events if x[0] == 'pool' and x[3] == a[0]]:
        nxt = []
        for s in sts:
            if s.mem[ev[2]].freed:
                nxt.append(s)
                continue
            outs = [(s, None)] if not fs else e.call(s, fs[0], [Ptr(ev[2], 0)])
            for s2, _ in outs:
                s2.wobj(ev[2]).freed = True
                nxt.append(s2)
        sts = nxt
    return [(s, UNDEF) for s in sts]


def balance(ctx, s, key, desc, keep=()):
    """everything allocated since the start has been released (double release ends the path and is reported there)"""
    left = [ev for ev in s.events if ev[0] == 'new' and not s.mem[ev[1]].freed and ev[1] not in keep]
    e = ctx.engines[-1]
    ctx.expect(s, not left, key, lambda: '%s: %d of %d allocations are never released, first: %s bytes from %s' % (
        desc, len(left), len([1 for ev in s.events if ev[0] == 'new']), left[0][2], e.fmt_stack(left[0][3])))
    recs = [ev for ev in s.events if ev[0] == 'pool' and not s.mem[ev[2]].freed]
    ctx.expect(s, not recs, key + '-records', lambda: '%s: %d records outlive the processor, first a %s from %s' % (desc, len(recs), recs[0][1], e.fmt_stack(recs[0][4])))


def engine(ctx):
    e = ctx.engine()
    e.mem_order = 1
    e.hook(POOLD, pool_dtor)
    e.hook(p27.ISECT, lambda e_, s, a, f, d: [(s, UNDEF)])
    return e


def lifetime(ctx, steps, variant):
    """steps as in P20; variant: how results are taken ('cb' callbacks, 'paths' container)"""
    e = engine(ctx)
    p, s = processor(ctx, e, State())
    states = [s]
    last, k = None, 0
    out = None
    if variant == 'paths':
        out = Ptr(e.new_obj(s, size=24, zero=True, tag='paths'), 0)
        s.null[out.o] = False
    tri = {}
    for x in steps:
        nxt = []
        for s in states:
            if x[0] == 'add':
                t = triangle(s, 't%d' % k, last, False)
                if last is not None:
                    for a in t:
                        for b in last[-3:]:
                            fassume(s, a[0] - b[0], POS)
                tri[k] = t
                nxt += add(ctx, e, s, p, [t], x[1])
            elif variant == 'cb':
                nxt += [s2 for s2, _ in run(ctx, e, s, p, x[1], x[2])]
            else:
                nxt += [s2 for s2, _ in ctx.run(e, PRPS, [p, CLIP[x[1]], FILL[x[2]], out], s, 'run')]
        if x[0] == 'add':
            last = (last or ()) + tri[k]
            k += 1
        states = nxt
    desc = 'processor built, %s, destroyed (%s)' % (', '.join('add' if x[0] == 'add' else 'run %s' % x[1] for x in steps) or 'unused', {'cb': 'results by callbacks', 'paths': 'results in a container'}[variant])
    n = 0
    for s in states:
        ends = [s2 for s2, _ in ctx.run(e, DTOR, [p], s, 'destroy')]
        if out is not None:
            vd = e.prog.fn(r'std::vector<river::path, std::allocator<river::path> >::~vector\(\)')
            ends = [s3 for s2 in ends for s3, _ in ctx.run(e, vd, [out], s2, 'drop results')]
        for s2 in ends:
            n += 1
            balance(ctx, s2, 'lifetime', desc)
    ctx.expect(None, True if n else None, 'lifetime/reached', desc + ': no path reaches the end')
    ctx.count('lifetimes')


def splitting(ctx, rings, cuts):
    """a clipper that splits its contours, then goes away"""
    e = ctx.engine()
    e.mem_order = 1
    e.hook(POOLD, pool_dtor)
    st = State()
    c = e.alloc_struct(st, CL, name=None, lazy=False)
    o = ctx.run(e, r'vatti::clipper::clipper\(\)', [c], st, 'construct')
    for st, _ in o:
        data = [mkring(e, st, w, 'r%dv' % i) for i, w in enumerate(rings)]
        ptrvec(e, st, fp(e, c, CL, 'paths_start'), [d[0][0] for d in data], len(data) + 1)
        items = []
        for (r, i), n in cuts.items():
            items += [(data[r][0][i], vec('x%d%d%d' % (r, i, k)), R.c(p16.TS[k])) for k in range(n)]

        def search(e_, s, a, f, d):
            put_breaks(e_, s, c, items[::-1])
            return [(s, UNDEF)]
        e.hook(p16.PROC, search)
        e.hook(p16.ADDS, lambda e_, s, a, f, d: [(s, UNDEF)])
        desc = 'clipper with contours %s split %s, destroyed' % (rings, cuts)
        for s, _ in ctx.run(e, r'vatti::clipper::process_intersect\(\)', [c], st, 'split'):
            for s2, _ in ctx.run(e, r'vatti::clipper::~clipper\(\)', [c], s, 'destroy'):
                balance(ctx, s2, 'split', desc)
    ctx.count('lifetimes')


def search(ctx):
    """the pair search releases its points and segments"""
    for sl in ([(0, 1, 0, 1)], [(0, 1, 0, 1), (1, 2, 0, 1)], [(0, 2, 0, 1), (1, 3, 0, 1), (2, 2, 0, 1)], [(0, 0, 0, 1), (0, 0, 0, 1)]):
        e = engine(ctx)
        st = State()
        c = e.alloc_struct(st, CL, name=None, lazy=False)
        nx = 1 + max(max(s[:2]) for s in sl)
        for st, _ in ctx.run(e, r'vatti::clipper::clipper\(\)', [c], st, 'construct'):
            X = [sym('X%d' % i) for i in range(nx)]
            Y = [sym('Y0'), sym('Y1')]
            for L in (X, Y):
                for a, b in zip(L, L[1:]):
                    fassume(st, b - a, POS)
            starts = [mkring(e, st, 'LL', 's%d_' % i, [(X[q[0]], Y[q[2]]), (X[q[1]], Y[q[3]])])[0][0] for i, q in enumerate(sl)]
            ptrvec(e, st, fp(e, c, CL, 'paths_start'), starts, len(starts) + 1)
            for s, _ in ctx.run(e, r'vatti::clipper::process_intersect\(\)', [c], st, 'search'):
                for s2, _ in ctx.run(e, r'vatti::clipper::~clipper\(\)', [c], s, 'destroy'):
                    balance(ctx, s2, 'search', 'pair search over %d contours' % len(sl))
        ctx.count('lifetimes')


PROBE = '''#include "river.h"
#include <new>
#include <utility>
#include <type_traits>
using river::processor;
extern "C" {
%s
}
'''
WAYS = {
    'copy construction': ('std::is_copy_constructible_v<processor>', 'void vp_probe(processor* d, processor& s) { new (d) processor(static_cast<const processor&>(s)); }', False),
    'copy assignment': ('std::is_copy_assignable_v<processor>', 'void vp_probe(processor* d, processor& s) { *d = static_cast<const processor&>(s); }', True),
    'move construction': ('std::is_move_constructible_v<processor>', 'void vp_probe(processor* d, processor& s) { new (d) processor(std::move(s)); }', False),
    'move assignment': ('std::is_move_assignable_v<processor>', 'void vp_probe(processor* d, processor& s) { *d = std::move(s); }', True),
}


def duplicable(trait):
    """compile-time question about the class: 1 yes, 0 no, None not decidable"""
    d = tempfile.mkdtemp(prefix='vp29_')
    try:
        res = []
        for neg in ('', '!'):
            p = os.path.join(d, 'q%d.cpp' % len(res))
            open(p, 'w').write(PROBE % ('static_assert(%s(%s));' % (neg, trait)))
            r = subprocess.run(['clang++', '-fsyntax-only', '-std=gnu++17', '-w'] + irload.includes() + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res.append(r.returncode == 0)
        return 1 if res == [True, False] else 0 if res == [False, True] else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def duplicate(ctx, way):
    trait, code, assign = WAYS[way]
    q = duplicable(trait)
    if q is None:
        raise Unsupported('cannot decide ' + trait)
    if q == 0:
        ctx.ok()
        ctx.count('kinds of duplication ruled out at compile time')
        return
    # allowed: then each object has to own internals of its own
    d = tempfile.mkdtemp(prefix='vp29_')
    try:
        src = os.path.join(d, 'probe.cpp')
        open(src, 'w').write(PROBE % code)
        prog = irload.Program(extra_sources=[src], tag='p29' + way.replace(' ', ''))
        if any(s == src for s, _ in prog.errors):
            raise Unsupported('probe does not compile')
        e = ctx.engine(prog=prog)
        e.mem_order = 1
        e.hook(POOLD, pool_dtor)
        st = State()
        a = e.alloc_struct(st, PR, lazy=False)
        b = e.alloc_struct(st, PR, lazy=False)
        sts = [s for s, _ in ctx.run(e, r'river::processor::processor\(\)', [a], st, 'construct')]
        if assign:
            sts = [s2 for s in sts for s2, _ in ctx.run(e, r'river::processor::processor\(\)', [b], s, 'construct')]
        sts = [s2 for s in sts for s2, _ in ctx.run(e, 'vp_probe', [b, a], s, 'duplicate')]
        for order in ((a, b), (b, a)):
            n = 0
            for s in sts:
                ends = [s.clone()]
                for x in order:
                    ends = [s3 for s2 in ends for s3, _ in ctx.run(e, DTOR, [x], s2, way + ', then both destroyed')]
                for s2 in ends:
                    n += 1
                    balance(ctx, s2, 'duplicate', '%s of a processor, then both destroyed' % way)
            ctx.expect(None, True if n else None, 'duplicate/' + way, way + ': no path reaches the end')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    ctx.rule('whole life of a processor through the public interface (constructor, adds, runs, destructor) on symbolic contours, with the real pair search: every allocation is released, none twice, nothing is used after its release, and every pool record is destroyed with its pool')
    ctx.rule('splitting of contours and the pair search release what they allocate')
    ctx.rule('copying and moving a processor is either rejected by the compiler (static assertion on the header) or gives each object its own internals')
    ctx.bounds = ['up to 3 contours and 3 runs per processor; up to 3 cuts per segment']
    ctx.assumptions = ['boost::object_pool destroys and frees the records it holds', 'no allocation fails']
    A, B, U, I, X, D = ('add', 0), ('add', 1), ('run', 'union_', 'non_zero'), ('run', 'intersection', 'non_zero'), ('run', 'xor_', 'even_odd'), ('run', 'difference', 'even_odd')
    seqs = [[], [A], [A, U], [A, B, U], [A, B, I], [A, U, B, X, D], [A, U, U], [A, A, B, X]]
    for i, q in enumerate(seqs):
        for v in ('cb', 'paths'):
            ctx.group('lifetime%d-%s' % (i, v), lifetime, q, v)
    for i, x in enumerate([(['LLL'], {}), (['LCL'], {(0, 0): 1, (0, 1): 1}), (['CC', 'LLL'], {(0, 0): 3, (1, 2): 2, (0, 1): 1})]):
        ctx.group('splitting%d' % i, splitting, *x)
    ctx.group('search', search)
    for wname in WAYS:
        ctx.group(wname, duplicate, wname)
