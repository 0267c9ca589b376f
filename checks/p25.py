import re
from ringlib import *
from geo import truths

SKIP = re.compile(r'^(std::(less|greater)<(double|void|[^<>]*\*)> *|__gnu_cxx::__ops::.*)$')


def targs(s):
    """top-level template arguments of 'a, b<c, d>, e' """
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def balanced(s, i):
    """end of the bracket group opening at s[i]"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in '<(':
            d += 1
        elif s[j] in '>)':
            d -= 1
            if d == 0:
                return j
    return len(s) - 1


FREE = re.compile(r'(?:^|\s)std::(?:__)?(sort|stable_sort|partial_sort|nth_element|inplace_merge|merge|lower_bound|upper_bound|binary_search|equal_range|push_heap|pop_heap|make_heap|sort_heap|is_sorted|min_element|max_element)<')
MEMB = re.compile(r'std::(?:__cxx11::)?list<.*>::(sort|merge)<')
TREE = re.compile(r'std::_Rb_tree<')


def comparators(ctx):
    """{comparator type: set of users}, and function-pointer comparators found at call sites"""
    types, direct = {}, {}
    for m in ctx.prog.modules:
        if m.src.startswith(ROOT):
            continue
        for name in m.fns:
            d = ctx.prog.demangle(name)
            if re.search(r'\bdcel::', d):
                continue        # not reachable from the public interface
            q = FREE.search(d) or MEMB.search(d)
            if q:
                i = q.end() - 1
                a = targs(d[i + 1:balanced(d, i)])
                c = a[-1]
                if len(a) == 1 and FREE.search(d):
                    continue    # operator<
                if q.re is FREE and q.group(1) in ('lower_bound', 'upper_bound', 'binary_search', 'equal_range') and len(a) == 2:
                    continue
                types.setdefault(c, set()).add(d[:60])
            q = TREE.search(d)
            if q:
                a = targs(d[q.end():balanced(d, q.end() - 1)])
                if len(a) >= 5:
                    types.setdefault(a[3], set()).add('ordered container')
    return types


def pointers(ctx):
    """functions passed as an argument of a sort: {name: user}"""
    out = {}
    for m in ctx.prog.modules:
        if m.src.startswith(ROOT):
            continue
        for f in m.fns.values():
            d = ctx.prog.demangle(f.name)
            if re.search(r'\bdcel::', d):
                continue
            for line in f.body:
                q = re.search(r'@("[^"]+"|[\w.$]+)\((.*)\)', line)
                if not q or ' call ' not in ' ' + line and 'invoke ' not in line:
                    continue
                g = ctx.prog.demangle(q.group(1).strip('"'))
                if FREE.search(g) or MEMB.search(g):
                    for x in re.findall(r'@("[^"]+"|[\w.$]+)', q.group(2)):
                        out[x.strip('"')] = d
    return out


def make(e, st, ty, name, group):
    """symbolic element of the given type: (argument value, key for the direction rule or None)"""
    ref = ty.endswith('&')
    t = re.sub(r'\bconst\b|&', '', ty).strip()
    t = re.sub(r'\s+', ' ', t)
    key = None
    if t == 'vatti::local_minima*':
        v = mkvertex(e, st, name + '.v', vec(name))
        lm = e.alloc_struct(st, LM, name=name, lazy=True)
        st.null[lm.o] = False
        e.setf(st, lm, LM, 'vert', v)
        val = lm
        key = (sym(name + '.y'), sym(name + '.x'))
    elif t == 'vatti::break_info':
        o = e.alloc_struct(st, BI, name=name, lazy=True)
        st.null[o.o] = False
        e.setf(st, o, BI, 'vert', group['vert'])
        e.setf(st, o, BI, 't', sym(name + '.t'))
        e.setf(st, o, BI, 'break_point', vec(name))
        key = ((group['vert'],), sym(name + '.t'))
        return (o if ref else None), key
    elif re.match(r'(std::)?pair<rmath::data, rmath::data ?>', t.replace('std::', '')):
        o = Ptr(e.new_obj(st, lazy=name, size=None, tag='pair'), 0)
        st.null[o.o] = False
        off = e.off('rmath::data', 't0')[0]
        t0 = sym(name + '.t0')
        e.store(st, o.add(off), t0, 8)
        return (o if ref else None), (t0,)
    elif t.endswith('scan_point*') or t.endswith('scan_point const*'):
        o = Ptr(e.new_obj(st, lazy=name, size=None, tag='scan_point'), 0)
        st.null[o.o] = False
        x = sym(name + '.x')
        e.store(st, o, x, 8)          # position is the first member
        val = o
        key = (x,)
    elif t.endswith('bound_data'):
        o = Ptr(e.new_obj(st, lazy=name, size=None, tag='bound'), 0)
        st.null[o.o] = False
        lay = None
        for m in e.prog.modules:
            m.struct_di('')
            for k in m._layouts:
                if k.endswith('bound_data'):
                    lay = m.layout(k)
        if lay and 'curr_x' in lay and 'obl_index' in lay:
            x, i = sym(name + '.x'), sym(name + '.i', True)
            e.store(st, o.add(lay['curr_x'][0]), x, 8)
            e.store(st, o.add(lay['obl_index'][0]), i, 8)
            key = (x, i)
        return (o if ref else None), key
    elif t == 'double':
        x = sym(name)
        if not ref:
            return x, (x,)
        o = Ptr(e.new_obj(st, size=8, tag='num'), 0)
        st.null[o.o] = False
        e.store(st, o, x, 8)
        return o, (x,)
    elif t.endswith('*'):
        o = Ptr(e.new_obj(st, lazy=name, size=None, tag=t), 0)
        st.null[o.o] = False
        val = o
    elif ref:
        o = Ptr(e.new_obj(st, lazy=name, size=None, tag=t), 0)
        st.null[o.o] = False
        return o, None
    else:
        return None, None
    if not ref:
        return val, key
    cell = Ptr(e.new_obj(st, size=8, tag='cell'), 0)
    st.null[cell.o] = False
    e.store(st, cell, val, 8)
    return cell, key


def below(k, l):
    """sign conditions under which key k is smaller: list of alternative fact lists"""
    if len(k) == 2 and isinstance(k[0], tuple):
        return [[(l[1] - k[1], POS)]] if k[0] == l[0] else None
    out = []
    for i in range(len(k)):
        out.append([(k[j] - l[j], ZER) for j in range(i)] + [(l[i] - k[i], POS)])
    return out


def axioms(ctx, name, f, ats, member, order, verts):
    """f: comparator; ats: argument types"""
    e = ctx.engine()
    e.mem_order = order
    st = State()
    v = [mkvertex(e, st, 'V%d' % i) for i in range(3)]
    el = [make(e, st, ats[0], 'abc'[i], {'vert': v[verts[i]]}) for i in range(3)]
    if any(x[0] is None for x in el):
        raise Unsupported('comparator arguments of type %s' % ats[0])
    this = Ptr(e.new_obj(st, lazy='cmp', size=None, tag='cmp'), 0)
    st.null[this.o] = False
    desc = '%s: ordering over %s' % (ctx.prog.where(f), re.sub(r'\s*const\s*', ' ', ats[0]).strip(' &'))

    def cmp(s, i, j):
        """[(state, bool)]"""
        return list(truths(e, ctx.run(e, f, ([this] if member else []) + [el[i][0], el[j][0]], s, name)))

    for s, r in cmp(st.clone(), 0, 0):
        ctx.expect(s, not r, name + '/irreflexive', lambda: desc + ': an element is ordered before itself')
    for i, j, k in itertools.permutations(range(3)):
        if True:
            for s, r in cmp(st.clone(), i, j):
                if r:
                    for s2, r2 in cmp(s, j, i):
                        ctx.expect(s2, not r2, name + '/asymmetric', lambda: desc + ': two elements are each ordered before the other when %s' % short(s2.facts))
                    for s2, r2 in cmp(s.clone(), j, k):
                        if r2:
                            for s3, r3 in cmp(s2, i, k):
                                ctx.expect(s3, r3, name + '/transitive', lambda: desc + ': a before b before c, but a is not before c when %s' % short(s3.facts))
                else:
                    for s2, r2 in cmp(s, j, i):
                        if r2:
                            continue
                        for s3, r3 in cmp(s2, j, k):
                            if r3:
                                continue
                            for s4, r4 in cmp(s3, k, j):
                                if r4:
                                    continue
                                for s5, r5 in cmp(s4, i, k):
                                    ctx.expect(s5, not r5, name + '/equivalence', lambda: desc + ': a and b are tied, b and c are tied, but a is before c when %s' % short(s5.facts))
    if el[0][1] is not None:
        for i, j in itertools.permutations(range(2)):
            lo = below(el[i][1], el[j][1])
            if lo is None:
                continue
            for alt in lo:
                for s, r in cmp(st_with(st, alt), i, j):
                    ctx.expect(s, r, name + '/direction', lambda: desc + ': the element that has to come first is not ordered first when %s' % short(s.facts))
                for s, r in cmp(st_with(st, alt), j, i):
                    ctx.expect(s, not r, name + '/direction', lambda: desc + ': the element that has to come last is ordered first when %s' % short(s.facts))
    ctx.count('orderings')


def st_with(st, alt):
    s = st.clone()
    for p, sg in alt:
        fassume(s, p, sg)
    return s


def mixed(ctx, name, f, ats, desc):
    """comparison of an element with a bare position"""
    for flip in (0, 1, 2):
        e = ctx.engine()
        st = State()
        a, b = make(e, st, ats[0], 'a', {}), make(e, st, ats[1], 'b', {})
        if a[0] is None or b[0] is None or a[1] is None or b[1] is None:
            raise Unsupported('comparator arguments of type %s' % (ats,))
        fassume(st, a[1][0] - b[1][0], (NEG, ZER, POS)[flip])
        this = Ptr(e.new_obj(st, lazy='cmp', size=None, tag='cmp'), 0)
        st.null[this.o] = False
        for s, r in ctx.run(e, f, [this, a[0], b[0]], st, name):
            if isinstance(r, Cond):
                r = e.decide(s, r)
            ctx.expect(s, None if r is None else bool(r) == (flip == 0), name + '/mixed', lambda: desc + ': comparison of an element with a position is wrong when it lies %s' % ('below', 'at', 'above')[flip])


def op(ctx, c):
    """comparator functions of functor type c: [(function, argument types, member)]"""
    out = []
    seen = set()
    for m in ctx.prog.modules:
        for name in m.fns:
            d = ctx.prog.demangle(name)
            if d.startswith(c + '::operator()(') and d not in seen:
                seen.add(d)
                i = d.index('operator()(') + len('operator()')
                out.append((m.fns[name], targs(d[i + 1:balanced(d, i)]), True))
    return out


def found(ctx, c):
    fs = op(ctx, c)
    if not fs:
        raise Missing('comparison function of %s' % c)
    judge(ctx, c, fs)


def by_pointer(ctx, sym_):
    f = next((m.fns[sym_] for m in ctx.prog.modules if sym_ in m.fns), None)
    if f is None:
        raise Missing('comparison function ' + sym_)
    d = ctx.prog.demangle(sym_)
    i = d.index('(')
    judge(ctx, d[:i], [(f, targs(d[i + 1:balanced(d, i)]), False)])


def judge(ctx, c, fs):
    name = re.sub(r'[^A-Za-z0-9_:$]+', '_', c)[-60:]
    for f, ats, member in fs:
        if len(ats) != 2:
            raise Unsupported('comparator %s' % c)
        t0, t1 = [re.sub(r'\bconst\b|&|\s', '', t) for t in ats]
        if t0 != t1:
            mixed(ctx, name, f, ats, '%s: ordering' % ctx.prog.where(f))
            continue
        if 'break_info' in t0:
            for verts in ((0, 0, 0), (0, 1, 2), (0, 0, 1), (0, 1, 0), (1, 0, 0)):
                for order in (1, -1):
                    axioms(ctx, name, f, ats, member, order, verts)
        else:
            axioms(ctx, name, f, ats, member, 1, (0, 1, 2))


def check(ctx):
    ctx.rule('every comparator instantiated into std::sort, list::sort, a heap or an ordered container (found from the instantiated templates), on three symbolic elements: irreflexive, asymmetric, transitive, transitive ties; for the sweep\'s own records also the direction (minima by height then x; crossings of a segment by parameter; output candidates by x then insertion order; search points by x; curve crossings by parameter)')
    ctx.bounds = ['three elements decide the axioms; record addresses ascending and descending']
    ctx.assumptions = ['coordinates are numbers (no NaN)', 'std::less and std::greater of numbers and pointers are orderings', 'comparators of the dcel part, which the public interface does not reach, are left out']
    ts = comparators(ctx)
    n = 0
    for c in sorted(ts):
        if SKIP.match(c):
            ctx.count('library orderings')
            continue
        if re.match(r'bool \(\*\)\(', c):
            continue        # plain function: found at the call
        n += 1
        ctx.group('ordering ' + c, found, c)
    for g in sorted(pointers(ctx)):
        ctx.group('ordering ' + g, by_pointer, g)

