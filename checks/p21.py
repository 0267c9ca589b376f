from chainlib import *


def alternates(words, even=True):
    t = ''.join(words)
    return (not even or len(t) % 2 == 0) and all(ch == 'LR'[i % 2] for i, ch in enumerate(t))


BW = ('', 'L', 'R', 'RL')
EW = ('', 'L', 'R', 'RL', 'LR', 'LRL', 'RLR', 'LRLR', 'RLRL')


def layouts(n, maxb, maxe):
    bs = [x for x in itertools.product(BW, repeat=n) if alternates(x) and len(''.join(x)) <= maxb]
    es = [x for x in itertools.product(EW, repeat=n) if alternates(x) and len(''.join(x)) <= maxe]
    for b in bs:
        for d in es:
            if all(x or y for x, y in zip(b, d)):
                yield b, d


def one(ctx, f, where, bw, ew, match, order, var, mode):
    e = ctx.engine()
    st = State()
    c = mkclipper(e, st, FILL['even_odd'], CLIP['xor_'])
    w = build(e, st, c, bw, ew, match, order, var, mode)
    dblvec(e, st, fp(e, c, CL, 'windcnt_change_list'), [p[0] for p, m in zip(w.pos, mode) if m is None] or [w.pos[0][0]])
    desc = '%s: open ends per place %s, bounding edges per place %s, chains %s%s' % (where, list(bw), list(ew), match, ', %s' % mode if any(mode) else '')
    for s, _ in ctx.run(e, f, [c, Y], st, 'assemble'):
        ends = [(e.getf(s, d, ED, 'bound'), d, sd) for d, sd in w.edges]
        judge(ctx, e, s, c, w, 'assemble', desc, ends, fills(bw), fills(ew))
    ctx.count('assembly arrangements')


def assemble(ctx, n, maxb, maxe, stride=1):
    f = ctx.prog.fn(r'vatti::clipper::update_ouput_bound\(double\)')
    where = ctx.prog.where(f)
    k = 0
    for bw, ew in layouts(n, maxb, maxe):
        m = len(''.join(bw)) // 2
        for match in itertools.permutations(range(m)):
            k += 1
            if k % stride:
                continue
            single = [i for i in range(n) if bw[i] == ew[i] and len(bw[i]) == 1]
            mode = [None] * n
            for i in single:
                mode[i] = (None, 'K', 'M')[(k + i) % 3]
            one(ctx, f, where, bw, ew, match, 1 if k % 2 else -1, k // 2, mode)


def closing(ctx, n, maxb):
    """left and right ends meeting in one place are closed at the top of a scanbeam"""
    f = ctx.prog.fn(r'vatti::clipper::close_output\(double\)')
    where = ctx.prog.where(f)
    k = 0
    words = ('', 'L', 'R', 'RL', 'LR', 'LRL', 'RLR', 'LRLR', 'RLRL')
    for bw in itertools.product(words, repeat=n):
        if not alternates(bw) or len(''.join(bw)) > maxb or not all(bw):
            continue
        m = len(''.join(bw)) // 2
        for match in itertools.permutations(range(m)):
            k += 1
            e = ctx.engine()
            st = State()
            c = mkclipper(e, st, FILL['even_odd'], CLIP['xor_'])
            w = build(e, st, c, bw, ('',) * n, match, 1 if k % 2 else -1, k // 2)
            ends, i = [], 0
            while i < len(w.bounds):
                (l, _), (r, _) = w.bounds[i], w.bounds[i + 1]
                if w.bpos[i] != w.bpos[i + 1]:
                    ends += [(l, None, 'L'), (r, None, 'R')]
                i += 2
            desc = '%s: open ends per place %s, chains %s' % (where, list(bw), match)
            for s, _ in ctx.run(e, f, [c, Y], st, 'close'):
                judge(ctx, e, s, c, w, 'close', desc, ends, fills(bw), fills(bw))
            ctx.count('closing arrangements')


def growth(ctx):
    """an edge that ends at the level hands its curve to the chain it bounds"""
    f = ctx.prog.fn(r'vatti::clipper::do_top_of_scanbeam\(double\)')
    where = ctx.prog.where(f)
    for kind in 'LC':
        for side in 'LR':
            for up in (0, 1):
                for then in ('max', 'line', 'mid'):
                    e = ctx.engine()
                    st = State()
                    c = mkclipper(e, st)
                    w = World()
                    w.pieces, w.pos, w.edges = [], level(e, st, c, 2), []
                    ctl = None
                    ds, bs = [], []
                    for i, sd in enumerate('LR'):
                        mine = sd == side
                        bot = below(e, st, 'e%d.bot' % i)
                        top = w.pos[i]
                        kk = kind if mine else 'L'
                        uu = bool(up) if mine else i == 0
                        ctrl = (vec('ec%d' % i), vec('ed%d' % i)) if kk == 'C' else None
                        th = then if mine else 'line'
                        if th == 'mid':
                            top = vec('e%d.top' % i)
                            fassume(st, top[1] - Y, POS)
                            if kk == 'C':
                                continue
                        d = active(e, st, 'e%d' % i, bot, top, uu, 0, ctrl, sym('old%d' % i), 4 if th == 'max' else 0)
                        v = e.getf(st, d, ED, 'vertex_top')
                        nv = mkvertex(e, st, 'n%d' % i)
                        fassume(st, sym('n%d.y' % i) - Y, NEG if th == 'max' else POS)
                        a, b2 = (v, nv) if uu else (nv, v)
                        e.setf(st, a, VX, 'next', b2)
                        e.setf(st, b2, VX, 'prev', a)
                        b = mkbound(e, st, 'b%d' % i, d, 1 if sd == 'L' else -1, sym('old%d' % i))
                        ds.append(d)
                        bs.append(b)
                    if len(ds) < 2:
                        continue
                    w.edges = list(zip(ds, 'LR'))
                    o = below(e, st, 'o')
                    U = [piece(e, st, w, 'u', o, e.getf(st, ds[1], ED, 'bot'), 'C')]
                    D = [piece(e, st, w, 'd', e.getf(st, ds[0], ED, 'bot'), o, 'L')]
                    p = mkpoly(e, st, 'p', 0, bs[1], bs[0], U, D, o)
                    ptrvec(e, st, fp(e, c, CL, 'output_list'), [p], 2)
                    link_obl(e, st, c, bs)
                    link_ael(e, st, c, ds)
                    info = [(e.getf(st, d, ED, 'bot'), e.getf(st, d, ED, 'top'), e.getf(st, d, ED, 'vertex_top')) for d in ds]
                    desc = '%s: %s edge on the %s side of the result, contour running %s, %s' % (
                        where, {'L': 'line', 'C': 'cubic'}[kind], {'L': 'left', 'R': 'right'}[side], 'up' if up else 'down',
                        {'max': 'ending there', 'line': 'followed by another', 'mid': 'passing the level'}[then])
                    for s, _ in ctx.run(e, f, [c, Y], st, 'grow'):
                        U2, D2 = (read_ptrvec(e, s, fp(e, p, OP, k)) for k in ('up_path', 'down_path'))
                        for i, (path, old, sd) in enumerate(((D2, D, 'L'), (U2, U, 'R'))):
                            th = then if sd == side else 'line'
                            kk = kind if sd == side else 'L'
                            bot, top, _ = info[i]
                            x = w.pos[i][0] if th != 'mid' else line_x(bot, top, Y)
                            ctx.expect_eq(e, s, e.getf(s, bs[i], OB, 'stop_x'), x, 'grow/stop', '%s: place where the %s end stands' % (desc, sd))
                            want = len(old) + (0 if th == 'mid' else 1)
                            if not ctx.expect(s, len(path) == want and path[:len(old)] == old, 'grow/count', lambda: '%s: %s side has %d pieces, expected %d' % (desc, sd, len(path), want)):
                                continue
                            if th == 'mid':
                                continue
                            sv = seg_view(e, s, path[-1])
                            ctl = [vec('ec%d' % i), vec('ed%d' % i)]
                            g = [top] if sd == 'R' else [bot]
                            if kk == 'C':
                                g = (ctl if sd == 'R' else ctl[::-1]) + g
                            if ctx.expect(s, sv is not None and sv[0] == kk and path[-1] not in [q for q, _ in w.pieces], 'grow/kind', lambda: desc + ': piece added to the %s side is %s' % (sd, short(sv))):
                                ctx.expect_eq(e, s, sv[1], g, 'grow/piece', desc + ': curve added to the %s side of the chain' % sd)
                        # the contour itself is not disturbed by handing out a piece
                        for i, d in enumerate(ds):
                            bot, top, v = info[i]
                            u = [x for x in (e.getf(s, v, VX, 'prev'), e.getf(s, v, VX, 'next')) if isinstance(x, Ptr) and x.o and eq(e, s, e.getf(s, x, VX, 'pt'), bot) is True]
                            if not u:
                                ctx.expect(s, False, 'grow/contour', desc + ': the contour\'s vertices changed')
                                continue
                            uu = bool(up) if 'LR'[i] == side else i == 0
                            sv = seg_view(e, s, e.getf(s, u[0] if uu else v, VX, 'next_seg'))
                            ctl = [vec('ec%d' % i), vec('ed%d' % i)]
                            isC = (kind if 'LR'[i] == side else 'L') == 'C'
                            exp = ((ctl if uu else ctl[::-1]) if isC else []) + [top if uu else bot]
                            if ctx.expect(s, sv is not None and len(sv[1]) == len(exp), 'grow/contour', lambda: desc + ': the contour\'s own segment changed'):
                                ctx.expect_eq(e, s, sv[1], exp, 'grow/contour', desc + ': the contour\'s own segment')
                    ctx.count('growth cases')


def check(ctx):
    ctx.rule('output assembly at a level for every arrangement of open chain ends and bounding edges over symbolic places: every chain gap free, every old piece kept once, added pieces only along the level and covering exactly the intervals where the result differs below and above it (with the direction that keeps the result on its left), every end attached to its edge, closed chains complete')
    ctx.rule('closing of meeting ends, and growth of chains by the edges ending at a level (exact curve, direction by side)')
    t = ctx.thorough
    ctx.bounds = ['up to 4 places on a level', 'up to %d open ends and %d bounding edges on one level' % ((6, 6) if t else (4, 4)), 'chains of 2..4 pieces']
    ctx.assumptions = ['ends and edges alternate left/right (established by P13/P14)', 'real arithmetic']
    ctx.group('growth', growth)
    for n in (1, 2, 3):
        ctx.group('close%d' % n, closing, n, 6 if t else 4)
    ctx.group('assemble1', assemble, 1, 4, 4)
    ctx.group('assemble2', assemble, 2, 4, 4)
    ctx.group('assemble3', assemble, 3, 4, 4, 1 if t else 3)
    ctx.group('assemble4', assemble, 4, 4, 4, 1 if t else 3)
    if t:
        ctx.group('assemble3+', assemble, 3, 6, 6, 7)
