import re
from runlib import *
import p16, p27
from ringlib import mkring, put_breaks

POOLED = {'vatti::vertex': None, 'vatti::edge': None, 'vatti::out_bound': None, 'vatti::out_polygon': None, 'vatti::local_minima': None}


def shape(st, name, pts):
    """a polygon of fixed form at any place and of any width and height"""
    if 'frame' not in st.user:
        st.user = dict(st.user, frame=1)
        for k in ('sx', 'sy'):
            fassume(st, sym(k), POS)
            fassume(st, sym(k) - R.c(1), POS)      # well above the code's tolerance
    return tuple((sym('tx') + sym('sx') * R.c(x), sym('ty') + sym('sy') * R.c(y)) for x, y in pts)


def leaves(prog, cls, base=0, seen=()):
    """[(offset, size, kind, name)] of every scalar of a record"""
    out = []
    for n, (off, size, tn, kind) in [(n, (l[0], l[1], l[2], l[3])) for n, l in prog.layout(cls).items()]:
        if kind == 'struct':
            if tn.startswith('std::vector<'):
                out += [(base + off + 8 * i, 8, 'ptr', n) for i in range(3)]
            else:
                out += [(o, s, k, n + '.' + m) for o, s, k, m in leaves(prog, tn, base + off)]
        else:
            out.append((base + off, size, kind, n))
    return out


def unset(e, s, p, cls):
    """names of scalars of the record that were never set"""
    out = []
    for off, size, kind, n in leaves(e.prog, cls):
        v = e.load(s, p.add(off), e.KT.get(kind, ('i', size * 8)))
        if v is UNDEF:
            out.append(n)
    return out


def engine(ctx, search=True):
    e = ctx.engine()
    e.mem_order = 1
    e.undef_log = []
    if not search:
        e.hook(p27.ISECT, lambda e_, s, a, f, d: [(s, UNDEF)])
    return e


def judge(ctx, e, s, desc, n0=0):
    """records of this path: own type, room, every scalar set"""
    for ev in s.events[n0:]:
        if ev[0] == 'oob_store' and (s.mem[ev[1]].tag or '').startswith('pool:'):
            ctx.expect(s, False, 'room', lambda: '%s: %d bytes are written at offset %s of a record of %s bytes (%s) at %s' % (
                desc, ev[3], ev[2], ev[4], s.mem[ev[1]].tag[5:], e.fmt_stack(ev[5])))
    for ev in [x for x in s.events[n0:] if x[0] == 'pool']:
        cls, p = ev[1], Ptr(ev[2], 0)
        if s.mem[p.o].freed:
            continue
        try:
            vt = vtable(e.prog, cls)
        except Missing:
            vt = None
        if vt is not None:
            got = e.load(s, p, ('ptr',))
            ctx.expect(s, got == vt, 'type', lambda: '%s: a record taken from the pool of %s at %s is %s' % (
                desc, cls, e.fmt_stack(ev[4]), 'never constructed' if got is UNDEF else 'constructed as something else'))
        u = unset(e, s, p, cls)
        ctx.expect(None, True if not u else None, 'unset/' + cls, lambda: '%s: %s of a %s made at %s never set (not read on the paths analysed)' % (desc, ', '.join(u[:4]), cls, e.fmt_stack(ev[4])))


def uses(ctx, e, desc):
    """values never set that a computation, test or address depends on"""
    for s, stack in e.undef_log:
        ctx.expect(s, False, 'read', lambda: '%s: a value that was never set is used at %s' % (desc, e.fmt_stack(stack)))
    if not e.undef_log:
        ctx.ok()
    e.undef_log = []


def value(e, st, ty, i):
    if 'vec2' in ty:
        v = vec('a%d' % i)
        return vec_obj(e, st, v), v
    if ty.endswith('*'):
        cls = ty[:-1].strip()
        p = e.alloc_struct(st, cls, name='a%d' % i)
        return p, p
    if ty == 'bool':
        return 1, 1
    if ty in ('double',):
        return sym('a%d' % i), sym('a%d' % i)
    return 1, 1


def factories(ctx):
    n = 0
    for f in ctx.prog.find(r'vatti::clipper::new_\w+\(.*\)', required=False):
        d = f.demangled if isinstance(f.demangled, str) else f.demangled()
        e = engine(ctx)
        st = State()
        c = mkclipper(e, st)
        tys = [t.strip() for t in d[d.index('(') + 1:d.rindex(')')].split(',') if t.strip()]
        for k in range(2 if 'bool' in tys else 1):
            s0 = st.clone()
            args = [value(e, s0, t, i) for i, t in enumerate(tys)]
            if k:
                args = [(0, 0) if t == 'bool' else a for a, t in zip(args, tys)]
            n0 = len(s0.events)
            for s, r in ctx.run(e, f, [c] + [a[0] for a in args], s0, 'factory'):
                recs = [x for x in s.events[n0:] if x[0] == 'pool']
                if len(recs) != 1 or not isinstance(r, Ptr) or r.o != recs[0][2]:
                    continue
                n += 1
                where = ctx.prog.where(f)
                cls = recs[0][1]
                ls = leaves(e.prog, cls)
                ctx.expect(s, len(unset(e, s, r, cls)) < len(ls), 'constructed', lambda: '%s: a %s is handed out without having been constructed' % (where, cls))
                judge(ctx, e, s, where, n0)
                cls = recs[0][1]
                if not args:
                    continue
                # each value asked for is held, once, by a member of its own type and in the order asked
                want = [(t, a[1]) for t, a in zip(tys, args)]
                mem = []
                for name, (off, size, tn, kind) in sorted(e.prog.layout(cls).items(), key=lambda x: x[1][0]):
                    if name.startswith('_vptr'):
                        continue
                    mem.append((name, e.getf(s, r, cls, name)))
                for i, (t, w) in enumerate(want):
                    if len(mem) != len(want):
                        break
                    ctx.expect_eq(e, s, mem[i][1], w, 'requested', '%s: %s of the new %s' % (where, mem[i][0], cls))
        uses(ctx, e, d)
        ctx.count('factories')
    ctx.expect(None, True if n else None, 'factories', 'no factory found')


SHAPES = {
    'triangle': [(0, 0), (4, 3), (1, 7)],
    'box': [(0, 0), (4, 0), (4, 5), (0, 5)],
    'two bottoms': [(0, 1), (3, 6), (5, 0), (7, 9), (2, 10)],
    'two tops': [(0, 0), (9, 1), (7, 9), (5, 4), (1, 8)],
    'steps': [(0, 0), (6, 0), (6, 3), (4, 3), (4, 6), (0, 6)],
    'flag': [(1, 2), (8, 1), (5, 4)],
    'cross bar': [(-1, 2), (9, 3), (9, 5), (-1, 4)],
    'inner': [(1, 1), (3, 2), (2, 4)],
    'far': [(20, 1), (24, 2), (22, 9)],
}


def sweep(ctx, adds, op, fill):
    """one run over contours of the given forms; roles as given"""
    e = engine(ctx)
    p, s = processor(ctx, e, State())
    states = [s]
    n0 = 0
    for i, (nm, role) in enumerate(adds):
        states = [s2 for s in states for s2 in add(ctx, e, s, p, [shape(s, 'c%d' % i, SHAPES[nm])], role)]
    desc = '%s of %s' % (op.strip('_'), ' and '.join('%s (%s)' % (a, 'clip' if r else 'subject') for a, r in adds))
    n = 0
    for s in states:
        for s2, u in run(ctx, e, s, p, op, fill):
            n += 1
            judge(ctx, e, s2, desc)
            for ev in s2.events:
                if ev[0] == 'rep':
                    for pt in ev[2]:
                        ctx.expect(s2, all(v is not UNDEF for v in pt), 'reported', lambda: '%s: a coordinate that was never set is reported at %s' % (desc, e.fmt_stack(ev[4])))
    uses(ctx, e, desc)
    ctx.expect(None, True if n else None, 'reached', desc + ': no path reaches the end')
    ctx.count('runs')
    return states


def check(ctx):
    ctx.rule('every factory leaves a record of its pool\'s own type (dispatch table), inside its room, with every scalar set and the requested values in place; then no later read of a record can meet a value never set')
    ctx.rule('whole runs over contours of fixed form at any place and scale: no computation, test, address or reported coordinate depends on a value never set (locals and list nodes included)')
    ctx.bounds = ['forms: %s, alone and in pairs' % ', '.join(SHAPES)]
    ctx.group('factories', factories)
    U, I, D, X = 'union_', 'intersection', 'difference', 'xor_'
    for a, op, fill in [
            ([('triangle', 0)], U, 'non_zero'), ([('box', 0)], U, 'even_odd'), ([('two bottoms', 0)], U, 'non_zero'), ([('two tops', 0)], U, 'positive'),
            ([('steps', 0)], X, 'even_odd'), ([('triangle', 0), ('far', 1)], U, 'non_zero'),
            ([('triangle', 0), ('inner', 1)], D, 'non_zero'), ([('triangle', 0), ('flag', 1)], U, 'non_zero'), ([('triangle', 0), ('flag', 1)], I, 'even_odd'),
            ([('triangle', 0), ('cross bar', 1)], D, 'non_zero'), ([('box', 0), ('cross bar', 0)], U, 'non_zero'), ([('two tops', 0), ('cross bar', 1)], X, 'even_odd'),
            ([('two bottoms', 0), ('steps', 1)], I, 'non_zero'), ([('box', 0), ('steps', 1)], D, 'non_zero'), ([('box', 0), ('box', 1)], I, 'non_zero')]:
        ctx.group('run %s %s' % (op, '+'.join(x[0] for x in a)), sweep, a, op, fill)
