import re
from p24 import *
import irload

DEF = ['-DRIVER_GRAPHICS_DEBUG=1', '-DRIVER_DEVELOP_TEST=1', '-I' + os.path.join(irload.VERIF, 'stubs', 'qt'), '-I' + os.path.join(irload.REPO, 'debug_util')]
DRAW = r'debug_util::\w+\(.*\)'
_P = {}


def debug_program():
    if 'p' not in _P:
        _P['p'] = irload.Program(flags=DEF, tag='.gdebug')
        bad = [s for s, _ in _P['p'].errors]
        if bad:
            raise Unsupported('the debugging configuration of %s cannot be compiled with the drawing stubs' % os.path.basename(bad[0]))
    return _P['p']


def norm(f):
    t = f.body if isinstance(f.body, str) else '\n'.join(f.body)
    t = re.sub(r',? !\w+ !\d+|#\d+|!\d+|\.str(\.\d+)?|^\s*call void @llvm\.dbg.*$', '', t, flags=re.M)
    t = re.sub(r'@__const\.[\w.]+', '@c', t)
    return re.sub(r'\s+', ' ', t)


def differing(a, b):
    """functions of the library whose code depends on the configuration"""
    out = []
    for n, f in a.index.items():
        g = b.index.get(n)
        d = a.demangle(n)
        if g is not None and re.match(r'(?:[\w:*& ]+ )?(river|vatti|rmath|scan_line|dcel)::', d) and norm(f) != norm(g):
            out.append(n)
    return out


class Same:
    """two heaps are the same from the given roots, up to the naming of objects"""

    def __init__(self, e1, s1, e2, s2):
        self.e1, self.s1, self.e2, self.s2 = e1, s1, e2, s2
        self.map = {}
        self.bad = None

    def val(self, a, b, what):
        if self.bad:
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.ptr(a, b, what)
        if a is UNDEF and b is UNDEF:
            return
        if isinstance(a, (int, R)) and isinstance(b, (int, R)):
            if num(a) != num(b):
                self.bad = '%s is %s without and %s with drawing' % (what, short(a, 60), short(b, 60))
            return
        if type(a) != type(b) or (isinstance(a, (str, tuple)) and a != b):
            self.bad = '%s differs (%s, %s)' % (what, short(a, 60), short(b, 60))

    def ptr(self, a, b, what):
        if not isinstance(a.o, int) or not isinstance(b.o, int):
            na, nb = [x.o[-1] if isinstance(x.o, tuple) else x.o for x in (a, b)]
            if na != nb or a.off != b.off:
                self.bad = '%s points to %s without and %s with drawing' % (what, a, b)
            return
        if (a.o == 0) != (b.o == 0) or a.off != b.off:
            self.bad = '%s points elsewhere with drawing' % what
            return
        if a.o == 0:
            return
        if a.o in self.map:
            if self.map[a.o] != b.o:
                self.bad = '%s points to another object with drawing' % what
            return
        self.map[a.o] = b.o
        self.todo.append((a.o, b.o, what))

    def run(self, roots):
        self.todo = []
        for a, b, w in roots:
            self.val(a, b, w)
        while self.todo and not self.bad:
            x, y, what = self.todo.pop()
            ox, oy = self.s1.mem.get(x), self.s2.mem.get(y)
            if ox is None or oy is None:
                continue
            if ox.freed != oy.freed:
                self.bad = '%s: released in one configuration only' % what
                return
            t = ox.tag or 'object'
            for k in sorted(set(ox.cells) | set(oy.cells), key=str):
                cx, cy = ox.cells.get(k), oy.cells.get(k)
                if cx is None or cy is None:
                    if (cx or cy)[0] is UNDEF:
                        continue
                    if (cx or cy)[0] in (0,) and ((oy if cy is None else ox).zero):
                        continue
                    self.bad = '%s+%s is set in one configuration only' % (t, k)
                    return
                self.val(cx[0], cy[0], '%s+%s' % (t, k))


def both(ctx, adds, op, fill):
    """the same calls in both configurations"""
    P = {0: ctx.prog, 1: debug_program()}
    res = {}
    for d in (0, 1):
        e = ctx.engine(prog=P[d])
        e.mem_order = 1
        e.hook(DRAW, lambda e_, s, a, f, n: [(s, UNDEF)])
        if any('curved' in x[0] for x in adds):      # these contours do not cross
            e.hook(p27.ISECT, lambda e_, s, a, f, n: [(s, UNDEF)])
        p, s = processor(ctx, e, State())
        states, stages = [s], []
        for i, (nm, role) in enumerate(adds):
            c = outline(s, 'c%d' % i, FORMS[nm])
            states = [s2 for s in states for s2 in add_cmds(ctx, e, s, p, c, role)]
            stages.append([s.clone() for s in states])
        outs = []
        for s in states:
            for s2, u in run(ctx, e, s, p, op, fill):
                outs.append((s2, u))
        res[d] = (e, p, stages, outs)
    desc = '%s of %s' % (op.strip('_'), ' and '.join('%s (%s)' % (a, 'clip' if r else 'subject') for a, r in adds))
    e1, p1, st1, o1 = res[0]
    e2, p2, st2, o2 = res[1]
    for i, (x, y) in enumerate(zip(st1, st2)):
        if ctx.expect(None, len(x) == len(y), 'paths', '%s: %d ways through reading without and %d with drawing' % (desc, len(x), len(y))):
            for a, b in zip(x, y):
                q = Same(e1, a, e2, b)
                q.run([(p1, p2, 'processor')])
                ctx.expect(b, q.bad is None, 'state/add', lambda: '%s: after reading contour %d: %s' % (desc, i, q.bad))
    if ctx.expect(None, len(o1) == len(o2), 'paths', '%s: %d ways through the run without and %d with drawing' % (desc, len(o1), len(o2))):
        for (a, ua), (b, ub) in zip(o1, o2):
            q = Same(e1, a, e2, b)
            q.run([(p1, p2, 'processor')])
            ctx.expect(b, q.bad is None, 'state/run', lambda: '%s: after the run: %s' % (desc, q.bad))
            ra = [ev for ev in a.events if ev[0] == 'rep']
            rb = [ev for ev in b.events if ev[0] == 'rep']
            same = len(ra) == len(rb) and all(x[1] == y[1] and len(x[2]) == len(y[2]) and all(eq(e2, b, u, v) is True for u, v in zip(x[2], y[2])) and (x[3] == ua) == (y[3] == ub) for x, y in zip(ra, rb))
            ctx.expect(b, same, 'report', lambda: '%s: %d commands reported without and %d with drawing, or with other points or target' % (desc, len(ra), len(rb)))
    ctx.count('runs compared')


FORMS = dict(SHAPES)
FORMS['curved'] = [(0, 0), ((1, 1), (2, 2), (4, 3)), (1, 7)]
FORMS['curved box'] = [(10, 0), (14, 0), ((15, 2), (16, 4), (18, 6)), (10, 6)]

FORMS['curved lens'] = [(10, 0), ((11, 2), (12, 4), (14, 6))]
FORMS['sliver'] = [(30, 0), (33, 4)]
FORMS['level'] = [(30, 0), (33, 0), (35, 0)]
FORMS['repeated points'] = [(30, 0), (30, 0), (33, 4), (33, 4), (30, 0)]
FORMS['closed'] = [(30, 0), (33, 4), (31, 6), (30, 0)]
FORMS['point'] = [(30, 0)]
FORMS['ring'] = [(10, 0), ((11, 2), (12, 4), (14, 6)), ((10, 4), (9, 2), (10, 0))]


def outline(st, name, form):
    """commands of a contour; triples are cubics"""
    def at(q):
        return shape(st, name, [q])[0]
    out, last = [], vec('zero')
    for i, q in enumerate(form):
        if isinstance(q[0], tuple):
            pts = [at(x) for x in q]
            out.append(('cubic_to', [last] + pts))
            last = pts[-1]
        else:
            pt = at(q)
            out.append(('move_to' if i == 0 else 'line_to', [last, pt]))
            last = pt
    return out


def add_cmds(ctx, e, s, p, cs, role):
    rd = reader(ctx, e, cs, 'add')
    return [x for x, _ in ctx.run(e, ADDR_, [p, rd, NULL, role], s, 'add')]


def coverage(ctx, runs):
    a, b = ctx.prog, debug_program()
    diff = differing(a, b)
    e = None
    seen = set()
    for r in runs:
        n = len(ctx.engines)
        both(ctx, *r)
        for x in ctx.engines[n:]:
            seen |= set(x.visited)
    for n in diff:
        f = b.index[n]
        d = b.demangle(n)
        if d.startswith('dcel::'):
            continue       # not reachable through the public interface
        ctx.expect(None, True if (n in seen or f in seen) else None, 'covered/' + d.split('(')[0], '%s differs between the configurations and is not exercised' % d)
        ctx.count('functions that depend on the configuration')


U, I, D, X = 'union_', 'intersection', 'difference', 'xor_'
RUNS = [([('curved lens', 1), ('triangle', 0)], U, 'non_zero'), ([('curved lens', 0), ('sliver', 1), ('level', 1)], X, 'even_odd'), ([('repeated points', 0), ('point', 1)], U, 'non_zero'),
        ([('repeated points', 1), ('point', 0), ('closed', 1)], U, 'non_zero'), ([('level', 0), ('sliver', 0), ('closed', 0)], D, 'negative'),
        ([('triangle', 0)], U, 'non_zero'), ([('curved', 0)], U, 'non_zero'), ([('curved', 0), ('curved box', 1)], U, 'even_odd'), ([('two bottoms', 0), ('far', 1)], X, 'non_zero'),
        ([('triangle', 0), ('cross bar', 1)], D, 'non_zero'), ([('box', 0), ('steps', 1)], I, 'even_odd'), ([('two tops', 0), ('flag', 0), ('far', 1)], U, 'positive')]


def check(ctx):
    ctx.rule('both configurations of the library (drawing off and on) interpreted over the same calls: the processor, everything reachable from it and every reported command are the same after each call')
    ctx.rule('every function whose code depends on the configuration is among those compared')
    ctx.bounds = ['contours of fixed form (lines and cubics) at any place and scale, up to three per run']
    ctx.assumptions = ['the drawing library (debug_util, Qt) does not call back into this library']
    ctx.group('coverage', coverage, RUNS)
    if ctx.thorough:
        for op in (U, I, D, X):
            for a in sorted(FORMS):
                for b in sorted(SHAPES):
                    ctx.group('%s %s %s' % (op, a, b), both, [(a, 0), (b, 1)], op, 'non_zero')
