import re
from fractions import Fraction as F
from pathlib_ import *

STR = r'std::__cxx11::basic_string<char, .*>'
REAL = r'bool boost::spirit::qi::any_real_parser<(\w[\w ]*), (.*?)> ?>::parse<.*>\(.*\) const'
TOK = [ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789']
NARG = {'m': 1, 'l': 1, 'c': 3}


def strings(e):
    """std::string as a pointer to its characters and a length"""
    h = e.hook

    def make(e_, st, this, chars):
        o = e_.new_obj(st, size=len(chars) + 1, tag='text')
        st.null[o] = False
        for i, c in enumerate(list(chars) + [0]):
            e_.store(st, Ptr(o, i), c, 1)
        e_.store(st, this, Ptr(o, 0), 8)
        e_.store(st, this.add(8), len(chars), 8)

    def chars_at(e_, st, p):
        out = []
        while len(out) < 400:
            c = e_.load(st, p.add(len(out)), ('i', 8))
            if not isinstance(c, int):
                raise Unsupported('text')
            if c == 0:
                return out
            out.append(c)
        raise Unsupported("unterminated text")

    def ctor(e_, st, a, f, d):
        make(e_, st, a[0], chars_at(e_, st, a[1]))
        return [(st, UNDEF)]

    def copy(e_, st, a, f, d):
        make(e_, st, a[0], chars_at(e_, st, e_.load(st, a[1], ('ptr',))))
        return [(st, UNDEF)]

    def size(e_, st, a, f, d):
        return [(st, e_.load(st, a[0].add(8), ('i', 64)))]

    def end(e_, st, a, f, d):
        return [(st, e_.load(st, a[0], ('ptr',)).add(e_.load(st, a[0].add(8), ('i', 64))))]
    h(STR + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', ctor)
    h(STR + r'::basic_string\(' + STR + r' const&\)', copy)
    h(STR + r'::~basic_string\(\)', lambda e_, s, a, f, d: [(s, UNDEF)])
    h(STR + r'::(begin|cbegin|data|c_str)\(\)( const)?', lambda e_, s, a, f, d: [(s, e_.load(s, a[0], ('ptr',)))])
    h(STR + r'::(end|cend)\(\)( const)?', end)
    h(STR + r'::(size|length)\(\) const', size)
    h(STR + r'::empty\(\) const', lambda e_, s, a, f, d: [(s, int(e_.load(s, a[0].add(8), ('i', 64)) == 0))])
    h('strlen', lambda e_, s, a, f, d: [(s, len(chars_at(e_, s, a[0])))])


def numbers(e):
    """a numeric literal of the text is one opaque token standing for any number"""
    seen = []

    def parse(e_, st, a, f, d):
        seen.append(1)
        T, pol = re.match(REAL, d).groups()
        pol = pol.split('<')[0].split('::')[-1]
        if pol in ('ureal_policies', 'strict_real_policies', 'strict_ureal_policies'):
            return [(st, 0)]      # rejects negative numbers or integers
        if pol != 'real_policies' or T not in ('double', 'float'):
            raise Unsupported('number parser %s %s' % (T, pol))
        first = e_.load(st, a[1], ('ptr',))
        last = e_.load(st, a[2], ('ptr',))
        while first.off < last.off:
            c = e_.load(st, first, ('i', 8))
            if not isinstance(c, int):
                raise Unsupported('text')
            if c in (32, 9, 10, 11, 12, 13):
                first = first.add(1)
                continue
            e_.store(st, a[1], first, 8)
            if c in TOK:
                v = sym('n%d' % TOK.index(c))
                e_.store(st, a[1], first.add(1), 8)
                e_.store(st, a[5], v if T == 'double' else v * R.c(F(2 ** 26 + 1, 2 ** 26)), 8)     # a value no float can hold
                return [(st, 1)]
            break
        return [(st, 0)]
    e.hook(REAL, parse)
    return seen


def engine(ctx):
    e = ctx.engine()
    e.mem_order = 1
    e.int_ptr = {'on': 0}
    strings(e)
    return e, numbers(e)


def text_of(word, spacing):
    out, k = [], 0
    for ch in word:
        out.append(ord(ch))
        for _ in range(2 * NARG.get(ch, 0)):
            if spacing:
                out.append(32)
            out.append(TOK[k])
            k += 1
        if spacing == 2:
            out += [10, 9]
    return out


def meaning(word):
    """paths the text stands for"""
    out, k = [], 0
    for ch in word:
        n = NARG[ch]
        pts = [(sym('n%d' % (k + 2 * i)), sym('n%d' % (k + 2 * i + 1))) for i in range(n)]
        k += 2 * n
        if ch == 'm':
            out.append([('M', pts)])
        elif out:
            out[-1].append((ch.upper(), pts))
    return out


def letters(n):
    for k in range(n + 1):
        for w in itertools.product('mlc', repeat=k):
            yield ''.join(w)


def parse(ctx, ws, spacing):
    f = ctx.prog.fn(r'river::make_path\(char const\*\)')
    tr = ctx.prog.fn(r'river::path::traverse\(river::path_traverse_funcs const&, void\*\) const')
    for w in ws:
        e, seen = engine(ctx)
        collector(e)
        st = State()
        t = text_of(w, spacing)
        o = e.new_obj(st, size=len(t) + 1, tag='text')
        st.null[o] = False
        for i, c in enumerate(t + [0]):
            e.store(st, Ptr(o, i), c, 1)
        res = Ptr(e.new_obj(st, size=24, zero=True, tag='paths'), 0)
        st.null[res.o] = False
        want = meaning(w)
        desc = 'text "%s"' % ' '.join('%s%s' % (x, '#' * 2 * NARG[x]) for x in w)
        n = 0
        for s, _ in ctx.run(e, f, [res, Ptr(o, 0)], st, 'parse'):
            n += 1
            if w and not seen:
                raise Unsupported('numbers of the text are not read by a number parser this check knows')
            b, end = e.load(s, res, ('ptr',)), e.load(s, res.add(8), ('ptr',))
            sz = e.prog.sizeof(PATH)
            np_ = 0 if b == end else (end.off - b.off) // sz if isinstance(b, Ptr) and isinstance(end, Ptr) and b.o == end.o else None
            if not ctx.expect(s, None if np_ is None else np_ == len(want), 'paths', lambda: '%s: %s paths made, %d written' % (desc, np_, len(want))):
                continue
            for i in range(np_):
                s1 = s.clone()
                s1.events = []
                u = user_ptr(e, s1)
                fo = funcs_obj(e, s1, ('move_to', 'line_to', 'arc_to', 'cubic_to'))
                for s2, _ in ctx.run(e, tr, [b.add(i * sz), fo, u], s1, 'replay'):
                    compare(ctx, e, s2, [(SLOT[k], pts) for k, pts in expected(want[i])], u, 'command', '%s, path %d' % (desc, i))
        ctx.expect(None, True if n else None, 'reached', desc + ': no path reaches the end')
        ctx.count('texts')


def check(ctx):
    ctx.rule('make_path interpreted on every text of up to %d commands over m, l, c, each number of the text standing for an arbitrary value: the paths it returns, replayed, hold exactly the commands written' % (4 if ctx.thorough else 3))
    ctx.rule('no pointer into a path is followed when no path has been started')
    ctx.bounds = ['commands per text (enumerated words); longer selected texts cover growth of the result']
    ctx.assumptions = ['the number parser of boost.spirit turns a numeric literal into its value and leaves other text alone']
    ws = list(letters(4 if ctx.thorough else 3))
    k = 16
    for i in range(k):
        if ws[i::k]:
            ctx.group('words%d' % i, parse, ws[i::k], 1)
    ctx.group('tight', parse, ['m', 'ml', 'mc', 'mlc', 'lmc'], 0)
    ctx.group('loose', parse, ['m', 'ml', 'mc', 'mcl', 'cml'], 2)
    ctx.group('long', parse, ['mclmlcm', 'mmmmmm', 'mlllllll', 'mccc', 'mlmlmlmcl', 'clmclmcl'], 1)
