import re
from sweeplib import *

CLS = {'moveto': SM, 'lineto': SL, 'arcto': SA, 'cubicto': SC}
TAG = {'moveto': 0, 'lineto': 1, 'arcto': 2, 'cubicto': 3}
FIELDS = {'moveto': ['target'], 'lineto': ['target'], 'arcto': ['target', 'center', 'longarc'], 'cubicto': ['ctrl1', 'ctrl2', 'target']}


def mk(e, st, kind, large=1):
    vals = {f: (sym('long', True) if f == 'longarc' else vec('s.' + f)) for f in FIELDS[kind]}
    if kind == 'arcto':
        vals['longarc'] = large
    return mkseg(e, st, CLS[kind], **vals), vals


def fields(e, s, p, kind):
    return [e.getf(s, p, CLS[kind], f) for f in FIELDS[kind]]


def view(ctx, e, s, p, kind, want, key, desc):
    vt = e.load(s, p, ('ptr',)) if isinstance(p, Ptr) and p.o != 0 else None
    if ctx.expect(s, vt == vtable(e.prog, CLS[kind]), key + '/kind', lambda: desc + ': the result is not of the same segment kind'):
        for f, got, w in zip(FIELDS[kind], fields(e, s, p, kind), want):
            ctx.expect_eq(e, s, got, w, '%s/%s' % (key, f), '%s: %s' % (desc, f))


def segs(ctx, kind, large=1):
    cn = CLS[kind]
    q = re.escape(cn)
    w = {}
    # in-place copy over memory of unknown content, also over memory that held another kind
    for hold in (None, 'cubicto'):
        e = ctx.engine()
        st = State()
        p, vals = mk(e, st, kind, large)
        old = [vals[f] for f in FIELDS[kind]]
        f = ctx.prog.fn(q + r'::copy\(void\*\) const')
        if hold:
            mem, _ = mk(e, st, hold)
        else:
            mem = Ptr(e.new_obj(st, size=e.prog.sizeof(cn), tag='heap'), 0)
            st.null[mem.o] = False
        desc = '%s: copy of a %s' % (ctx.prog.where(f), kind)
        for s, _ in ctx.run(e, f, [p, mem], st, 'copy'):
            view(ctx, e, s, mem, kind, old, 'copy', desc)
            view(ctx, e, s, p, kind, old, 'copy/source', desc + ' (the original)')
    e = ctx.engine()
    st = State()
    p, vals = mk(e, st, kind, large)
    old = [vals[f] for f in FIELDS[kind]]
    f = ctx.prog.fn(q + r'::deep_copy\(\) const')
    for s, r in ctx.run(e, f, [p], st, 'deep_copy'):
        desc = '%s: newly allocated copy of a %s' % (ctx.prog.where(f), kind)
        ctx.expect(s, isinstance(r, Ptr) and r.o != p.o, 'deep/new', lambda: desc + ': not a new object')
        view(ctx, e, s, r, kind, old, 'deep', desc)
    f = ctx.prog.fn(q + r'::get_type\(\) const')
    for s, r in ctx.run(e, f, [p], st.clone(), 'type'):
        ctx.expect_eq(e, s, r, TAG[kind], 'type', '%s: kind reported by a %s' % (ctx.prog.where(f), kind))
    f = ctx.prog.fn(q + r'::get_target\(\) const')
    for s, r in ctx.run(e, f, [p], st.clone(), 'target'):
        ctx.expect_eq(e, s, (e.load(s, r, ('double',)), e.load(s, r.add(8), ('double',))), vals['target'], 'target', '%s: end point reported by a %s' % (ctx.prog.where(f), kind))
    # reversal
    f = ctx.prog.fn(q + r'::reverse\(rmath::vec2 const&\)')
    st1 = st.clone()
    fr = vec('from')
    for s, _ in ctx.run(e, f, [p, vec_obj(e, st1, fr)], st1, 'reverse'):
        back = dict(vals, target=fr)
        if kind == 'cubicto':
            back['ctrl1'], back['ctrl2'] = vals['ctrl2'], vals['ctrl1']
        desc = '%s: reversed %s' % (ctx.prog.where(f), kind)
        view(ctx, e, s, p, kind, [back[x] for x in FIELDS[kind]], 'reverse', desc)
        for s2, _ in ctx.run(e, f, [p, vec_obj(e, s, vals['target'])], s, 'reverse'):
            view(ctx, e, s2, p, kind, old, 'reverse/twice', desc + ' twice')
    # the object is used through its base class: virtual dispatch table must lead to this class's own functions
    ctx.count('segment kinds')


def typed_copy(ctx):
    f = ctx.prog.fn(r'vatti::clipper::copy_seg\(vatti::edge const\*, bool\)')
    w = ctx.prog.where(f)
    for kind in 'LC':
        for up in (True, False):
            for rev in (0, 1):
                e = ctx.engine()
                st = State()
                c = mkclipper(e, st)
                ctrl = (vec('c1'), vec('c2')) if kind == 'C' else None
                bot, top = vec('bot'), vec('top')
                d = active(e, st, 'e', bot, top, up, 0, ctrl)
                # curve as the edge's contour runs it
                a, b = (bot, top) if up else (top, bot)
                pts = [a] + (list(ctrl if up else ctrl[::-1]) if ctrl else []) + [b]
                if rev:
                    pts = pts[::-1]
                desc = '%s: %s of the %s of an edge running %s' % (w, 'reversed copy' if rev else 'copy', {'L': 'line', 'C': 'cubic'}[kind], 'up' if up else 'down')
                own = seg_own(e, st, d, up)
                before = seg_view(e, st, own)
                for s, r in ctx.run(e, f, [c, d, rev], st, 'copy_seg'):
                    oob = [ev for ev in s.events if ev[0] == 'oob_store']
                    ctx.expect(s, not oob, 'typed/room', lambda: desc + ': writes %d bytes at offset %d of a record of %s bytes' % (oob[0][3], oob[0][2], oob[0][4]))
                    sv = seg_view(e, s, r)
                    if ctx.expect(s, sv is not None and sv[0] == kind and r != own, 'typed/kind', lambda: desc + ': result is %s' % short(sv)):
                        ctx.expect_eq(e, s, sv[1], pts[1:], 'typed/geometry', desc)
                    ctx.expect_eq(e, s, seg_view(e, s, own)[1], before[1], 'typed/source', desc + ': the contour\'s own segment')


def seg_own(e, st, d, up):
    v = e.getf(st, d, ED, 'vertex_top')
    u = e.getf(st, v, VX, 'prev') if up else v
    return e.getf(st, u, VX, 'next_seg')


COORD = ['bot.x', 'bot.y', 'top.x', 'top.y', 'c1.x', 'c1.y', 'c2.x', 'c2.y']


def coincide(ctx):
    f = ctx.prog.fn(r'vatti::is_same\(vatti::edge const\*, vatti::edge const\*\)')
    w = ctx.prog.where(f)
    for ka in 'LC':
        for kb in 'LC':
            for ua in (True, False):
                for ub in (True, False):
                    for ro in (0, 1):
                        diffs = [None] + (COORD if ka == kb == 'C' else COORD[:4])
                        for diff in diffs if ka == kb else [None]:
                            e = ctx.engine()
                            st = State()

                            def pt(nm, side):
                                out = []
                                for ax in 'xy':
                                    n = '%s.%s' % (nm, ax)
                                    if side and diff == n:
                                        q = sym('o' + n)
                                        fassume(st, q - sym(n), NE)
                                        if nm in ('c1', 'c2'):     # not by chance the other control point
                                            fassume(st, q - sym('c2.' + ax if nm == 'c1' else 'c1.' + ax), NE)
                                        out.append(q)
                                    else:
                                        out.append(sym(n))
                                return tuple(out)
                            fassume(st, sym('top.y') - sym('bot.y'), POS)
                            es = []
                            for side, (k, u) in enumerate(((ka, ua), (kb, ub))):
                                ctrl = (pt('c1', side), pt('c2', side)) if k == 'C' else None
                                es.append(active(e, st, 'e%d' % side, pt('bot', side), pt('top', side), u, ro if side else 0, ctrl))
                            same = ka == kb and diff is None
                            desc = '%s: edges of kind %s/%s, running %s/%s, %s' % (w, ka, kb, 'up' if ua else 'down', 'up' if ub else 'down',
                                                                                 'equal' if same else 'of different kind' if ka != kb else 'differing in ' + diff)
                            for order in ((0, 1), (1, 0)):
                                for s, r in ctx.run(e, f, [es[order[0]], es[order[1]]], st.clone(), 'coincide'):
                                    ctx.expect_eq(e, s, r, 1 if same else 0, 'coincide/' + ('equal' if same else 'different'), '%s: reported %s' % (desc, 'different' if same else 'coincident'))
                            ctx.count('coincidence cases')


def check(ctx):
    ctx.rule('copy, deep_copy, get_type, get_target and reverse of every segment class on symbolic coordinates: same class (dispatch table) and every field, source untouched, reversal swaps ends and control points and is an involution')
    ctx.rule('copy_seg for every kind, edge direction and requested direction; is_same for every kind and direction pair and every single differing coordinate')
    ctx.assumptions = ['two cubics running the same way with exchanged control points are left open (they cross midway and are split before being compared)']
    for k in CLS:
        ctx.group('segment-' + k, segs, k)
    ctx.group('segment-arcto-small', segs, 'arcto', 0)
    ctx.group('typed', typed_copy)
    ctx.group('coincide', coincide)
