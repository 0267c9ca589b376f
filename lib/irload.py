"""Compile /repo to LLVM IR (fresh, from the working tree) and parse it lazily."""
import os, re, subprocess, hashlib, tempfile, shutil, sys, struct
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction as F

REPO = os.environ.get('RIVER_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
CXX = 'clang++'


class Unsupported(Exception):
    pass


class Missing(Exception):
    """an anchor could not be located"""


def src_dir():
    return os.path.join(REPO, 'src', 'src')


def list_sources():
    d = src_dir()
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))


BASEFLAGS = ['-std=gnu++17', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
             '-fno-discard-value-names', '-w', '-fno-threadsafe-statics', '-ffp-contract=off']


def includes():
    return ['-I' + os.path.join(REPO, 'src', 'include'), '-I' + src_dir()]


def _tree_hash():
    h = hashlib.sha256()
    for top in ('src', 'debug_util', 'third_parts', 'cadc'):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.cpp', '.h', '.hpp', '.c', '.cc', '.inl', '.txt', '.ipp')):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:24]


def compile_one(src, outdir, extra=(), tag=''):
    out = os.path.join(outdir, os.path.basename(src) + tag + '.ll')
    if os.path.exists(out):
        return out, None
    cmd = [CXX] + BASEFLAGS + includes() + list(extra) + ['-S', '-emit-llvm', src, '-o', out + '.%d.tmp' % os.getpid()]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        return None, p.stderr[:2000]
    os.replace(out + '.%d.tmp' % os.getpid(), out)
    return out, None


def cache_dir():
    d = os.path.join(CACHE, _tree_hash())
    if not os.path.isdir(d):
        if os.path.isdir(CACHE):
            olds = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE))
            for _, x in olds[:-6]:
                shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d


def compile_all(extra_sources=(), flags=(), tag=''):
    d = cache_dir()
    srcs = list_sources() + list(extra_sources)
    res = []
    with ThreadPoolExecutor(8) as ex:
        for s, r in zip(srcs, ex.map(lambda s: compile_one(s, d, flags, tag), srcs)):
            res.append((s, r[0], r[1]))
    return res


# ---------------------------------------------------------------- types
# ('i',n) ('double',) ('float',) ('ptr',) ('void',) ('s',name) ('struct',(..),packed) ('arr',n,t) ('vec',n,t) ('opaque',)

_re_ws = re.compile(r'\s*')
_re_ident = re.compile(r'[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
_re_num = re.compile(r'-?\d+')


class TP:
    """cursor based text parser"""

    def __init__(self, s, pos=0):
        self.s = s
        self.p = pos

    def ws(self):
        s = self.s
        p = self.p
        n = len(s)
        while p < n and s[p] == ' ':
            p += 1
        self.p = p

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.p)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.p):
            self.p += len(t)
            return True
        return False

    def expect(self, t):
        if not self.eat(t):
            raise Unsupported('expected %r at %r' % (t, self.s[self.p:self.p + 60]))

    def word(self):
        self.ws()
        m = re.compile(r'[-a-zA-Z_0-9.]+').match(self.s, self.p)
        if not m:
            return ''
        self.p = m.end()
        return m.group()

    def peekword(self):
        p = self.p
        w = self.word()
        self.p = p
        return w

    def ident(self):
        self.ws()
        m = _re_ident.match(self.s, self.p)
        if not m:
            raise Unsupported('ident at %r' % self.s[self.p:self.p + 60])
        self.p = m.end()
        g = m.group()
        if g[1] == '"':
            return g[0] + g[2:-1]
        return g

    def type(self):
        self.ws()
        s = self.s
        c = s[self.p]
        if c == '%':
            t = ('s', self.ident()[1:])
        elif c == '{':
            self.p += 1
            el = []
            if not self.peek('}'):
                while True:
                    el.append(self.type())
                    if not self.eat(','):
                        break
            self.expect('}')
            t = ('struct', tuple(el), False)
        elif c == '<' and s[self.p + 1] == '{':
            self.p += 2
            el = []
            if not self.peek('}'):
                while True:
                    el.append(self.type())
                    if not self.eat(','):
                        break
            self.expect('}>')
            t = ('struct', tuple(el), True)
        elif c == '<':
            self.p += 1
            n = int(self.word())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('vec', n, e)
        elif c == '[':
            self.p += 1
            n = int(self.word())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        else:
            w = self.word()
            if w and w[0] == 'i' and w[1:].isdigit():
                t = ('i', int(w[1:]))
            elif w in ('double', 'float', 'ptr', 'void', 'x86_fp80', 'metadata', 'opaque', 'half', 'label', 'token'):
                t = (w,)
            else:
                raise Unsupported('type %r' % w)
        # function type suffix e.g. "void (ptr, ...)"
        while True:
            self.ws()
            if self.p < len(s) and s[self.p] == '(':
                # function type
                depth = 0
                while True:
                    ch = s[self.p]
                    if ch == '(':
                        depth += 1
                    elif ch == ')':
                        depth -= 1
                        if depth == 0:
                            self.p += 1
                            break
                    self.p += 1
                t = ('fn', t)
            else:
                break
        return t


PTR = ('ptr',)
DBL = ('double',)


class Inst:
    __slots__ = ('op', 'dst', 'a', 'dbg', 'text')

    def __init__(self, op, dst, a, dbg, text):
        self.op = op
        self.dst = dst
        self.a = a
        self.dbg = dbg
        self.text = text

    def __repr__(self):
        return self.text


class Fn:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body          # list of raw lines
        self._parsed = False
        self.internal = bool(re.match(r'define (?:[a-z_]+ )*(internal|private) ', header))

    @property
    def demangled(self):
        return self.mod.prog.demangle(self.name)

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        h = self.header
        m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\(', h)
        # return type: parse last type before @name
        pre = h[:m.start()]
        self.rettype = _ret_type(pre)
        t = TP(h, m.end())
        self.params = []
        self.byval = []
        self.vararg = False
        if not t.eat(')'):
            while True:
                if t.eat('...'):
                    self.vararg = True
                else:
                    ty = t.type()
                    bv = None
                    sret = False
                    while True:
                        t.ws()
                        if t.s[t.p] in '%,)':
                            break
                        w = t.word()
                        if t.s[t.p] == '(':
                            t.p += 1
                            if w in ('byval', 'sret', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                                aty = t.type()
                                if w == 'byval':
                                    bv = aty
                            else:
                                t.word()
                            t.expect(')')
                        elif w == 'align':
                            t.word()
                        elif w == '':
                            raise Unsupported('param ' + h[t.p:t.p + 40])
                    nm = None
                    if t.s[t.p] == '%':
                        nm = t.ident()
                    self.params.append((ty, nm))
                    self.byval.append(bv)
                if not t.eat(','):
                    break
        m = re.search(r'!dbg !(\d+)', h)
        self.dbg = int(m.group(1)) if m else None
        # unnamed params numbering
        n = 0
        for i, (ty, nm) in enumerate(self.params):
            if nm is None:
                self.params[i] = (ty, '%' + str(n))
                n += 1
            elif nm[1:].isdigit():
                n = int(nm[1:]) + 1
        self.blocks = {}
        self.order = []
        cur = None
        buf = None
        first = True
        for ln in self.body:
            if not ln:
                continue
            if ln[0] != ' ':
                mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                if mm:
                    nm = mm.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    cur = nm
                    self.blocks[cur] = []
                    self.order.append(cur)
                    first = False
                    continue
                continue
            if first:
                cur = str(n)
                self.blocks[cur] = []
                self.order.append(cur)
                first = False
            self.blocks[cur].append(ln)
        # join multi-line (switch, invoke)
        for b, lines in self.blocks.items():
            out = []
            i = 0
            while i < len(lines):
                ln = lines[i].strip()
                if ln.startswith('switch ') and '[' in ln and ']' not in ln:
                    while ']' not in lines[i]:
                        i += 1
                        ln += ' ' + lines[i].strip()
                elif (' invoke ' in ' ' + ln) and 'unwind label' not in ln:
                    while 'unwind label' not in ln:
                        i += 1
                        ln += ' ' + lines[i].strip()
                elif 'landingpad' in ln:
                    while i + 1 < len(lines) and re.match(r'\s+(cleanup|catch |filter )', lines[i + 1]):
                        i += 1
                out.append(ln)
                i += 1
            self.blocks[b] = out
        self.entry = self.order[0]
        self._dec = {}
        return self

    def block(self, b):
        d = self._dec.get(b)
        if d is None:
            d = [x for x in (parse_inst(self.mod, l) for l in self.blocks[b]) if x is not None]
            self._dec[b] = d
        return d


def _ret_type(pre):
    # strip known leading keywords & attributes, the type is the last parseable type at the end
    s = pre.strip()
    # remove 'define' and linkage words
    t = TP(s)
    t.word()
    while True:
        p = t.p
        t.ws()
        if t.p >= len(s):
            raise Unsupported('ret ' + s)
        try:
            q = t.p
            ty = t.type()
            t.ws()
            if t.p >= len(s):
                return ty
            t.p = q
        except Unsupported:
            t.p = q
        # skip attribute word
        if s[t.p] in '%{[<':
            return ty
        w = t.word()
        if not w:
            t.p += 1
        if t.p < len(s) and s[t.p] == '(':
            d = 0
            while True:
                if s[t.p] == '(':
                    d += 1
                if s[t.p] == ')':
                    d -= 1
                    if not d:
                        t.p += 1
                        break
                t.p += 1


_re_dbg = re.compile(r', !dbg !(\d+)')
_re_tail = re.compile(r'(?:, (?:!\w[\w.]* !\d+|align \d+))+$')

FCMP = {'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'uno', 'true', 'false'}
BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


def const_value(mod, ty, t):
    """parse an operand of type ty -> operand tuple"""
    t.ws()
    s = t.s
    c = s[t.p]
    if c == '%':
        return ('r', t.ident())
    if c == '@':
        return ('g', t.ident()[1:])
    if c == 'c' and s.startswith('c"', t.p):
        m = re.compile(r'c"((?:[^"\\]|\\.)*)"').match(s, t.p)
        t.p = m.end()
        raw = m.group(1)
        bs = []
        i = 0
        while i < len(raw):
            if raw[i] == '\\':
                bs.append(int(raw[i + 1:i + 3], 16))
                i += 3
            else:
                bs.append(ord(raw[i]))
                i += 1
        return ('agg', [('i', 8)] * len(bs), [('c', b) for b in bs])
    if c in '{[<' and not (c == '<' and s[t.p + 1] != '{' and ty[0] != 'vec'):
        # aggregate constant
        close = {'{': '}', '[': ']', '<': '>'}[c]
        if s.startswith('<{', t.p):
            t.p += 2
            close = '}>'
        else:
            t.p += 1
        tys, vals = [], []
        if not t.peek(close):
            while True:
                ety = t.type()
                tys.append(ety)
                vals.append(const_value(mod, ety, t))
                if not t.eat(','):
                    break
        t.expect(close)
        return ('agg', tys, vals)
    w = t.word()
    if w in ('true',):
        return ('c', 1)
    if w in ('false',):
        return ('c', 0)
    if w == 'null':
        return ('null',)
    if w in ('undef', 'poison'):
        return ('undef',)
    if w == 'zeroinitializer':
        return ('zero', ty)
    if w == 'none':
        return ('undef',)
    if w == 'getelementptr':
        t.eat('inbounds')
        t.expect('(')
        bty = t.type()
        t.expect(',')
        pty = t.type()
        base = const_value(mod, pty, t)
        idx = []
        while t.eat(','):
            t.eat('inrange')
            ity = t.type()
            idx.append((ity, const_value(mod, ity, t)))
        t.expect(')')
        return ('gep', bty, base, idx)
    if w in CASTS:
        t.expect('(')
        sty = t.type()
        v = const_value(mod, sty, t)
        t.word()
        dty = t.type()
        t.expect(')')
        return ('cast', w, sty, v, dty)
    if w in BINOPS:
        while t.peekword() in ('nuw', 'nsw', 'exact'):
            t.word()
        t.expect('(')
        sty = t.type()
        v1 = const_value(mod, sty, t)
        t.expect(',')
        t.type()
        v2 = const_value(mod, sty, t)
        t.expect(')')
        return ('bin', w, sty, v1, v2)
    if w in ('inttoptr', 'dso_local_equivalent', 'blockaddress', 'icmp', 'select'):
        raise Unsupported('constexpr ' + w)
    # number
    if ty[0] == 'i':
        return ('c', int(w))
    if ty[0] in ('double', 'float'):
        if w.startswith('0x'):
            b = struct.unpack('>d', bytes.fromhex(w[2:].rjust(16, '0')))[0]
            return ('f', b)
        # words like 1.000000e+00
        if t.p < len(s) and s[t.p] == '+':
            t.p += 1
            w += '+' + t.word()
        return ('f', float(w))
    if ty[0] == 'x86_fp80':
        return ('undef',)
    raise Unsupported('const %r of %r' % (w, ty))


def skip_attrs(t):
    """skip parameter attributes after a type"""
    bv = None
    while True:
        t.ws()
        c = t.s[t.p]
        if c in '%@{[<"' or c.isdigit() or c == '-':
            return bv
        p = t.p
        w = t.word()
        if w in ('noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias',
                 'returned', 'inreg', 'dead_on_unwind', 'writable', 'swiftself', 'immarg', 'nest', 'nofree', 'noundef', 'allocptr', 'allocalign'):
            continue
        if w == 'align':
            t.ws()
            if t.eat('('):
                t.word()
                t.expect(')')
            else:
                t.word()
            continue
        if w in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range'):
            d = 0
            while True:
                ch = t.s[t.p]
                if ch == '(':
                    d += 1
                if ch == ')':
                    d -= 1
                    if d == 0:
                        t.p += 1
                        break
                t.p += 1
            continue
        if w in ('byval', 'sret', 'elementtype', 'byref'):
            t.expect('(')
            ty = t.type()
            t.expect(')')
            if w == 'byval':
                bv = ty
            continue
        t.p = p
        return bv


def parse_inst(mod, ln):
    if ln.startswith('call void @llvm.dbg.') or ln.startswith('tail call void @llvm.dbg.'):
        return None
    text = ln
    dbg = None
    m = _re_dbg.search(ln)
    if m:
        dbg = int(m.group(1))
        ln = ln[:m.start()] + (ln[m.end():] if '[' not in ln[m.end():] else ln[m.end():])
    dst = None
    t = TP(ln)
    if ln[0] == '%':
        dst = t.ident()
        t.expect('=')
    op = t.word()
    if op in ('tail', 'musttail', 'notail'):
        op = t.word()
    if op in BINOPS:
        while t.peekword() in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
            t.word()
        ty = t.type()
        a = const_value(mod, ty, t)
        t.expect(',')
        b = const_value(mod, ty, t)
        return Inst('bin', dst, (op, ty, a, b), dbg, text)
    if op == 'load':
        t.eat('atomic')
        t.eat('volatile')
        ty = t.type()
        t.expect(',')
        t.type()
        return Inst('load', dst, (ty, const_value(mod, PTR, t)), dbg, text)
    if op == 'store':
        t.eat('atomic')
        t.eat('volatile')
        ty = t.type()
        v = const_value(mod, ty, t)
        t.expect(',')
        t.type()
        return Inst('store', None, (ty, v, const_value(mod, PTR, t)), dbg, text)
    if op == 'alloca':
        ty = t.type()
        cnt = None
        if t.eat(','):
            if t.peekword() != 'align':
                ity = t.type()
                cnt = const_value(mod, ity, t)
        return Inst('alloca', dst, (ty, cnt), dbg, text)
    if op == 'getelementptr':
        t.eat('inbounds')
        bty = t.type()
        t.expect(',')
        t.type()
        base = const_value(mod, PTR, t)
        idx = []
        while t.eat(','):
            if t.peek('!'):
                break
            ity = t.type()
            idx.append((ity, const_value(mod, ity, t)))
        return Inst('gep', dst, (bty, base, idx), dbg, text)
    if op == 'icmp' or op == 'fcmp':
        w = t.word()
        while w in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            w = t.word()
        ty = t.type()
        a = const_value(mod, ty, t)
        t.expect(',')
        b = const_value(mod, ty, t)
        return Inst(op, dst, (w, ty, a, b), dbg, text)
    if op == 'br':
        if t.peekword() == 'label':
            t.word()
            return Inst('br', None, (t.ident()[1:],), dbg, text)
        t.type()
        c = const_value(mod, ('i', 1), t)
        t.expect(',')
        t.expect('label')
        a = t.ident()[1:]
        t.expect(',')
        t.expect('label')
        b = t.ident()[1:]
        return Inst('cbr', None, (c, a, b), dbg, text)
    if op == 'switch':
        ty = t.type()
        v = const_value(mod, ty, t)
        t.expect(',')
        t.expect('label')
        d = t.ident()[1:]
        t.expect('[')
        cases = []
        while not t.peek(']'):
            cty = t.type()
            cv = const_value(mod, cty, t)
            t.expect(',')
            t.expect('label')
            cases.append((cv[1], t.ident()[1:]))
        return Inst('switch', None, (ty, v, d, cases), dbg, text)
    if op == 'ret':
        if t.peekword() == 'void':
            return Inst('ret', None, None, dbg, text)
        ty = t.type()
        return Inst('ret', None, (ty, const_value(mod, ty, t)), dbg, text)
    if op == 'phi':
        while t.peekword() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            t.word()
        ty = t.type()
        inc = []
        while True:
            t.expect('[')
            v = const_value(mod, ty, t)
            t.expect(',')
            inc.append((v, t.ident()[1:]))
            t.expect(']')
            if not t.eat(','):
                break
        return Inst('phi', dst, (ty, inc), dbg, text)
    if op == 'select':
        t.type()
        c = const_value(mod, ('i', 1), t)
        t.expect(',')
        ty = t.type()
        a = const_value(mod, ty, t)
        t.expect(',')
        t.type()
        b = const_value(mod, ty, t)
        return Inst('select', dst, (c, ty, a, b), dbg, text)
    if op in CASTS:
        t.eat('nneg')
        ty = t.type()
        v = const_value(mod, ty, t)
        t.expect('to')
        return Inst('cast', dst, (op, ty, v, t.type()), dbg, text)
    if op == 'fneg':
        ty = t.type()
        return Inst('fneg', dst, (ty, const_value(mod, ty, t)), dbg, text)
    if op == 'extractvalue':
        ty = t.type()
        v = const_value(mod, ty, t)
        idx = []
        while t.eat(','):
            idx.append(int(t.word()))
        return Inst('extract', dst, (ty, v, idx), dbg, text)
    if op == 'insertvalue':
        ty = t.type()
        v = const_value(mod, ty, t)
        t.expect(',')
        ety = t.type()
        e = const_value(mod, ety, t)
        idx = []
        while t.eat(','):
            idx.append(int(t.word()))
        return Inst('insert', dst, (ty, v, ety, e, idx), dbg, text)
    if op in ('call', 'invoke'):
        # skip cc / ret attrs
        while True:
            t.ws()
            p = t.p
            w = t.peekword()
            if w in ('fastcc', 'ccc', 'coldcc', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'fast', 'nnan',
                     'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inreg'):
                t.word()
                continue
            if w in ('dereferenceable', 'dereferenceable_or_null', 'range'):
                t.word()
                d = 0
                while True:
                    ch = t.s[t.p]
                    if ch == '(':
                        d += 1
                    if ch == ')':
                        d -= 1
                        if d == 0:
                            t.p += 1
                            break
                    t.p += 1
                continue
            if w == 'align':
                t.word()
                t.word()
                continue
            break
        rty = _call_ret(t)
        t.ws()
        callee = const_value(mod, PTR, t)
        t.expect('(')
        args = []
        if not t.eat(')'):
            while True:
                aty = t.type()
                if aty[0] == 'metadata':
                    return None
                bv = skip_attrs(t)
                args.append((aty, const_value(mod, aty, t), bv))
                if not t.eat(','):
                    break
            t.expect(')')
        normal = None
        if op == 'invoke':
            m = re.compile(r'.*to label (%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) unwind label').match(ln, t.p)
            normal = m.group(1)[1:].strip('"')
        return Inst('call', dst, (rty, callee, args, normal), dbg, text)
    if op == 'unreachable':
        return Inst('unreachable', None, None, dbg, text)
    if op in ('landingpad', 'resume', 'cleanuppad', 'catchpad', 'fence'):
        return Inst(op, dst, None, dbg, text)
    if op == 'freeze':
        ty = t.type()
        return Inst('freeze', dst, (ty, const_value(mod, ty, t)), dbg, text)
    if op in ('atomicrmw', 'cmpxchg', 'extractelement', 'insertelement', 'shufflevector', 'va_arg'):
        return Inst('unsup', dst, (op,), dbg, text)
    raise Unsupported('inst ' + ln)


def _call_ret(t):
    # return type, possibly followed by a full function type "(...)" before the callee
    t.ws()
    return t.type()


class Module:
    def __init__(self, prog, path, src):
        self.prog = prog
        self.path = path
        self.src = src
        self.types_raw = {}
        self.types = {}
        self.globals_raw = {}
        self.fns = {}
        self.fns_alias = {}
        self.decls = set()
        self.meta = {}
        with open(path) as fh:
            lines = fh.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                m = re.search(r'@("(?:[^"\\])*"|[-a-zA-Z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.fns[name] = Fn(self, name, ln, lines[i + 1:j])
                i = j
            elif ln.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    nm = m.group(1)[1:].strip('"')
                    self.types_raw[nm] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                if m:
                    self.globals_raw[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            elif ln.startswith('declare'):
                m = re.search(r'@("(?:[^"\\])*"|[-a-zA-Z$._0-9]+)\(', ln)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            i += 1
        self._layouts = None

    # ---- type layout
    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            raw = self.types_raw.get(nm)
            if raw is None:
                raise Unsupported('type ' + nm)
            t = TP(raw).type()
            self.types[nm] = t
        return t

    def size_align(self, ty):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return s, min(s, 16)
        if k == 'double' or k == 'ptr':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return 16, 16
        if k == 's':
            key = ('sz', ty[1])
            r = self.types.get(key)
            if r is None:
                r = self.size_align(self.named(ty[1]))
                self.types[key] = r
            return r
        if k == 'arr':
            s, a = self.size_align(ty[2])
            return s * ty[1], a
        if k == 'vec':
            s, a = self.size_align(ty[2])
            return s * ty[1], s * ty[1]
        if k == 'struct':
            off = 0
            mx = 1
            for e in ty[1]:
                s, a = self.size_align(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                mx = max(mx, a)
            return (off + mx - 1) // mx * mx, mx
        raise Unsupported('size of %r' % (ty,))

    def sizeof(self, ty):
        k = ty[0]
        if k == 'ptr' or k == 'double':
            return 8
        r = self.types.get(('so', ty))
        if r is None:
            r = self.types[('so', ty)] = self.size_align(ty)[0]
        return r

    def fields(self, ty):
        """list of (offset, type) for struct/array types"""
        if ty[0] == 's':
            key = ('fl', ty[1])
            r = self.types.get(key)
            if r is None:
                r = self.fields(self.named(ty[1]))
                self.types[key] = r
            return r
        if ty[0] == 'struct':
            r = self.types.get(('fs', ty))
            if r is not None:
                return r
            off = 0
            r = []
            for e in ty[1]:
                s, a = self.size_align(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                r.append((off, e))
                off += s
            self.types[('fs', ty)] = r
            return r
        if ty[0] in ('arr', 'vec'):
            s = self.sizeof(ty[2])
            return [(i * s, ty[2]) for i in range(ty[1])]
        raise Unsupported('fields of %r' % (ty,))

    # ---- debug info
    def md(self, i, key):
        s = self.meta.get(i)
        if s is None:
            return None
        m = re.search(r'\b' + key + r': (?:"((?:[^"\\]|\\.)*)"|(!?[-\w]+))', s)
        if not m:
            return None
        v = m.group(1) if m.group(1) is not None else m.group(2)
        if m.group(1) is None and v.startswith('!'):
            return int(v[1:])
        return v

    def loc(self, dbg):
        """(file, line) of a DILocation id"""
        if dbg is None or dbg not in self.meta:
            return ('?', 0)
        line = int(self.md(dbg, 'line') or 0)
        sc = self.md(dbg, 'scope')
        for _ in range(30):
            if sc is None:
                return ('?', line)
            f = self.md(sc, 'file')
            if isinstance(f, int):
                fn = self.md(f, 'filename') or '?'
                return (fn, line)
            sc = self.md(sc, 'scope')
        return ('?', line)

    def _build_layouts(self):
        self._layouts = {}
        for i, s in self.meta.items():
            if s.startswith('distinct !DICompositeType(') or s.startswith('!DICompositeType('):
                if 'DIFlagFwdDecl' in s:
                    continue
                if 'DW_TAG_structure_type' not in s and 'DW_TAG_class_type' not in s:
                    continue
                nm = self.md(i, 'name')
                if nm is None:
                    continue
                sc = self.md(i, 'scope')
                full = nm
                k = 0
                while sc is not None and k < 10:
                    n2 = self.md(sc, 'name')
                    if n2 and ('DINamespace' in self.meta[sc] or 'DICompositeType' in self.meta[sc]):
                        full = n2 + '::' + full
                    sc = self.md(sc, 'scope')
                    k += 1
                self._layouts.setdefault(full, i)

    def struct_di(self, name):
        if self._layouts is None:
            self._build_layouts()
        return self._layouts.get(name)

    def di_type_name(self, i, depth=0):
        if not isinstance(i, int) or depth > 10:
            return 'void'
        s = self.meta[i]
        if 'DW_TAG_pointer_type' in s:
            return self.di_type_name(self.md(i, 'baseType'), depth + 1) + '*'
        if 'DW_TAG_reference_type' in s or 'DW_TAG_rvalue_reference_type' in s:
            return self.di_type_name(self.md(i, 'baseType'), depth + 1) + '&'
        if 'DW_TAG_const_type' in s or 'DW_TAG_typedef' in s or 'DW_TAG_volatile_type' in s:
            return self.di_type_name(self.md(i, 'baseType'), depth + 1)
        if 'DICompositeType' in s:
            nm = self.md(i, 'name') or '?'
            sc = self.md(i, 'scope')
            k = 0
            while sc is not None and k < 10:
                n2 = self.md(sc, 'name')
                if n2 and ('DINamespace' in self.meta[sc] or 'DICompositeType' in self.meta[sc]):
                    nm = n2 + '::' + nm
                sc = self.md(sc, 'scope')
                k += 1
            return nm
        return self.md(i, 'name') or '?'

    def di_size(self, i, depth=0):
        """size in bytes of a DI type"""
        if not isinstance(i, int) or depth > 12:
            return 0
        sz = self.md(i, 'size')
        if sz is not None:
            return int(sz) // 8
        return self.di_size(self.md(i, 'baseType'), depth + 1)

    def layout(self, name):
        """field -> (offset, size, type name, kind)"""
        i = self.struct_di(name)
        if i is None:
            return None
        out = {}
        self._layout_into(i, 0, out)
        return out

    def _layout_into(self, i, base, out):
        el = self.md(i, 'elements')
        if el is None:
            return
        ids = [int(x) for x in re.findall(r'!(\d+)', self.meta[el])]
        for e in ids:
            s = self.meta[e]
            if 'DW_TAG_inheritance' in s:
                off = int(self.md(e, 'offset') or 0) // 8
                self._layout_into(self.md(e, 'baseType'), base + off, out)
            elif 'DW_TAG_member' in s and 'DIFlagStaticMember' not in s:
                nm = self.md(e, 'name')
                if nm is None:
                    continue
                off = int(self.md(e, 'offset') or 0) // 8
                bt = self.md(e, 'baseType')
                out[nm] = (base + off, self.di_size(bt), self.di_type_name(bt), self.di_kind(bt))

    def di_kind(self, i, depth=0):
        if not isinstance(i, int) or depth > 12:
            return 'ptr'
        s = self.meta[i]
        if 'DW_TAG_pointer_type' in s or '_reference_type' in s:
            return 'ptr'
        if 'DIBasicType' in s:
            enc = self.md(i, 'encoding')
            if enc == 'DW_ATE_float':
                return 'double'
            return 'int'
        if 'DW_TAG_enumeration_type' in s:
            return 'int'
        if 'DICompositeType' in s:
            return 'struct'
        return self.di_kind(self.md(i, 'baseType'), depth + 1)

    def sizeof_di(self, name):
        i = self.struct_di(name)
        if i is None:
            return None
        return int(self.md(i, 'size')) // 8

    def fn_file_line(self, fn):
        fn.parse()
        if fn.dbg is None:
            return ('?', 0)
        f = self.md(fn.dbg, 'file')
        return (self.md(f, 'filename') if isinstance(f, int) else '?', int(self.md(fn.dbg, 'line') or 0))


class Program:
    def __init__(self, extra_sources=(), flags=(), tag='', only=None):
        self.modules = []
        self.errors = []
        for s, ll, err in compile_all(extra_sources, flags, tag):
            if ll is None:
                self.errors.append((s, err))
                continue
            if only and os.path.basename(s) not in only:
                continue
            self.modules.append(Module(self, ll, s))
        self.index = {}
        for m in self.modules:
            for n, f in m.fns.items():
                if f.internal:
                    continue
                if n not in self.index:
                    self.index[n] = f
            for n, raw in m.globals_raw.items():       # complete-object constructors are aliases of base-object ones
                a = re.search(r'\balias\b.*, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', raw)
                if a and a.group(1).strip('"') in m.fns:
                    m.fns_alias[n] = m.fns[a.group(1).strip('"')]
                    self.index.setdefault(n, m.fns_alias[n])
        self._dem = {}
        self._lay = {}
        self._siz = {}
        self._demangle_all()

    def _demangle_all(self):
        names = set()
        for m in self.modules:
            names |= set(m.fns)
            names |= m.decls
        names = sorted(names)
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        out = p.stdout.split('\n')
        for a, b in zip(names, out):
            self._dem[a] = b
        self.bydem = {}
        for m in self.modules:
            for n, f in m.fns.items():
                d = self._dem[n]
                self.bydem.setdefault(d, f)

    def demangle(self, n):
        return self._dem.get(n, n)

    def find(self, pattern, required=True):
        """functions whose demangled name matches regex (full match)"""
        r = re.compile(pattern)
        out = [f for d, f in self.bydem.items() if r.fullmatch(d)]
        if not out and required:
            raise Missing('no function matches ' + pattern)
        return out

    def fn(self, pattern):
        return self.find(pattern)[0]

    def resolve(self, mod, name):
        f = (mod.fns.get(name) or mod.fns_alias.get(name)) if mod is not None else None
        if f is not None:
            return f
        return self.index.get(name)

    def layout(self, name):
        l = self._lay.get(name)
        if l is not None:
            return l
        for m in self.modules:
            l = m.layout(name)
            if l:
                self._lay[name] = l
                return l
        raise Missing('no struct ' + name)

    def sizeof(self, name):
        s = self._siz.get(name)
        if s is not None:
            return s
        for m in self.modules:
            s = m.sizeof_di(name)
            if s:
                self._siz[name] = s
                return s
        raise Missing('no struct ' + name)

    def where(self, fn, dbg=None):
        mod = fn.mod
        if dbg is not None:
            f, l = mod.loc(dbg)
        else:
            f, l = mod.fn_file_line(fn)
        if f.startswith(REPO):
            f = f[len(REPO) + 1:]
        return '%s:%s' % (f, l)
