"""Mutable static storage: interprocedural address-flow analysis on the IR text."""
import re
from common import *

SYM = r'@(?:"[^"]+"|[-\w.$]+)'
REG = r'%(?:"[^"]+"|[-\w.$]+)'
DERIVE = ('getelementptr', 'bitcast', 'phi', 'select', 'freeze', 'addrspacecast', 'insertvalue', 'extractvalue', 'ptrtoint', 'inttoptr', 'add', 'sub', 'and', 'or')
STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'erand48', 'strtok', 'setlocale', 'fesetround', 'fesetenv', 'feholdexcept', 'feupdateenv', 'feenableexcept',
            'lgamma', 'gamma', 'setenv', 'putenv', 'unsetenv', 'signal', 'sigaction', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam', 'getenv', 'fopen', 'open', 'creat', 'dlopen', 'chdir', 'umask', 'time', 'clock', 'gettimeofday', 'clock_gettime',
            'std::locale::global', 'std::set_new_handler', 'std::set_terminate', 'std::random_device::_M_getval', 'std::chrono::_V2::steady_clock::now', 'std::chrono::_V2::system_clock::now',
            'gethostname', 'getpid', 'gettid', 'pthread_self', 'lgammaf', '__errno_location'}
READERS = re.compile(r'^(llvm\.(dbg|lifetime|assume|invariant|objectsize|prefetch).*|memcmp|strlen|strcmp|strncmp|memchr|printf|puts|fprintf|snprintf|__cxa_guard_.*|__cxa_atexit|__dynamic_cast|_ZdlPv.*|_ZdaPv.*|free)$')
INIT = re.compile(r'^(__cxx_global_var_init.*|_GLOBAL__sub_I_.*|_GLOBAL__I_.*|__tls_init|_ZTH.*)$')


def unq(s):
    return s[1:].strip('"')


class Flow:
    def __init__(self, ctx):
        self.ctx = ctx
        self.fns = {}
        self.local = {}
        self.memo = {}
        for m in ctx.prog.modules:
            if m.src.startswith(ROOT):
                continue
            for n, f in m.fns.items():
                f.parse()
                (self.local if f.internal else self.fns).setdefault((m, n) if f.internal else n, f)

    def callee(self, f, n):
        return self.local.get((f.mod, n)) or self.fns.get(n)

    def guarded(self, f, g):
        """blocks that run only while the function-local static g is being initialised"""
        gv = '_ZGV' + g[2:] if g.startswith('_Z') else None
        if gv is None:
            return set()
        region = set()
        for b, lines in f.blocks.items():
            t = '\n'.join(lines)
            m = re.search(r'br i1 \S+, label %("[^"]+"|[-\w.$]+), label %("[^"]+"|[-\w.$]+)', lines[-1]) if lines else None
            if re.search(r'load .*@"?' + re.escape(gv) + r'\b', t) and m:
                region |= self.reach(f, m.group(1).strip('"')) - self.reach(f, m.group(2).strip('"'))
        return region

    def reach(self, f, start):
        out, work = set(), [start]
        while work:
            b = work.pop()
            if b in out or b not in f.blocks:
                continue
            out.add(b)
            work += [x.strip('"') for x in re.findall(r'label %("[^"]+"|[-\w.$]+)', '\n'.join(f.blocks[b]))]
        return out

    def track(self, mod, g, internal):
        """writes to and escapes of global g: [(function, text)], [(function, text)]"""
        writes, escapes = [], []
        done = set()
        rets = set()           # functions returning an address into g
        work = []
        tok = '@' + g
        pat = re.compile(r'@"?' + re.escape(g) + r'"?(?![-\w.$])')
        everything = list(self.fns.values()) + list(self.local.values())
        for f in everything:
            if internal and f.mod is not mod:
                continue
            if any(pat.search(l) for ls in f.blocks.values() for l in ls):
                work.append((f, frozenset()))
        seen = {}
        while work:
            f, params = work.pop()
            key = id(f)
            old = seen.get(key)
            new = (old or frozenset()) | params
            if old is not None and new == old and (key, len(rets)) in done:
                continue
            seen[key] = new
            done.add((key, len(rets)))
            init = INIT.match(f.name) is not None
            self.scan(f, g, pat, new, work, writes, escapes, rets, everything, init)
        return dict.fromkeys(writes), dict.fromkeys(escapes)

    def scan(self, f, g, pat, params, work, writes, escapes, rets, everything, init):
        skip = self.guarded(f, g)
        T = {f.params[i][1] for i in params if i < len(f.params)}
        final = self.local_flow(f, pat, T, set(), rets, skip, init, 0)
        for kind, l, extra in final:
            d = self.ctx.prog.demangle(f.name)
            if kind == 'write':
                writes.append((d, self.where(f, l), l.strip()[:120]))
            elif kind == 'escape':
                escapes.append((d, self.where(f, l), l.strip()[:120]))
            elif kind == 'ret':
                if f.name not in rets and (not params or self.returns(f, pat, frozenset(), rets)):
                    rets.add(f.name)
                    for h in everything:
                        if any(f.name in l2 for ls in h.blocks.values() for l2 in ls):
                            work.append((h, frozenset()))
            elif kind == 'call':
                name, idx = extra
                h = self.callee(f, name)
                if h is not None:
                    if f.name in ('__cxx_global_var_init',):
                        continue
                    work.append((h, frozenset(idx)))
                elif not READERS.match(name):
                    if re.match(r'(llvm\.mem(cpy|move|set)|memcpy|memmove|memset)', name):
                        if 0 in idx:
                            writes.append((d, self.where(f, l), l.strip()[:120]))
                    else:
                        escapes.append((d, self.where(f, l), l.strip()[:120]))

    def local_flow(self, f, pat, T, slots, rets, skip, init, depth):
        allocas = set()
        for ls in f.blocks.values():
            for l in ls:
                m = re.match(r'\s*(%s) = alloca ' % REG, l)
                if m:
                    allocas.add(m.group(1))

        def tainted(x):
            return x in T or (pat is not None and bool(pat.search(x)))
        final = []
        for _ in range(8):
            before = (len(T), len(slots))
            final = []
            for b, ls in f.blocks.items():
                for l in ls:
                    m = re.match(r'\s*(%s) = .*?(?:call|invoke) .*?(%s)\(' % (REG, SYM), l)
                    if m and unq(m.group(2)) in rets:
                        T.add(m.group(1))
                    if (pat is not None and pat.search(l)) or any(r in T or r in slots for r in re.findall(REG, l)):
                        self.inst(f, l, b in skip or init, T, slots, allocas, tainted, final, rets, depth)
            if (len(T), len(slots)) == before:
                break
        return final

    def returns(self, f, pat, params, rets, depth=0):
        """does f return an address derived from the given parameters (or from the object itself)"""
        key = (id(f), pat.pattern if pat else None, params)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        if depth > 12:
            return False
        T, slots = {f.params[i][1] for i in params if i < len(f.params)}, set()
        final = self.local_flow(f, pat, T, slots, rets, set(), True, depth)
        self.memo[key] = any(k == 'ret' for k, _, _ in final)
        return self.memo[key]

    def where(self, f, l):
        m = re.search(r'!dbg !(\d+)', l)
        try:
            if m:
                loc = f.mod.loc(int(m.group(1)))
                return '%s:%s' % (loc[0], loc[1]) if isinstance(loc, tuple) else str(loc)
        except Exception:
            pass
        return self.ctx.prog.where(f)

    def inst(self, f, l, init, T, slots, allocas, tainted, final, rets, depth):
        s = l.strip()
        m = re.match(r'(%s) = (.*)' % REG, s)
        dst, body = (m.group(1), m.group(2)) if m else (None, s)
        op = body.split(' ', 1)[0]
        if op in ('tail', 'musttail', 'notail'):
            body = body.split(' ', 1)[1]
            op = 'call'
        if op == 'store':
            m = re.match(r'store (?:atomic |volatile )*(.*), ptr ([^,]+(?:\([^)]*\))?)', body)
            q = re.match(r'store (?:atomic |volatile )*(\S+|\{[^}]*\}|<[^>]*>|\[[^\]]*\]) (.*), ptr (getelementptr.*?\)|%s|%s)(?:,|$| )' % (REG, SYM), body)
            if not q:
                return
            val, p = q.group(2), q.group(3)
            if (p in T) or (not p.startswith('%') and tainted(p)):
                if not init:
                    final.append(('write', l, None))
            if val in T or (not val.startswith('%') and tainted(val)):
                if p in allocas:
                    slots.add(p)
                elif not init:
                    final.append(('escape', l, None))
        elif op == 'load':
            q = re.match(r'load (?:atomic |volatile )*(\S+|\{[^}]*\}|<[^>]*>|\[[^\]]*\]), ptr (getelementptr.*?\)|%s|%s)(?:,|$| )' % (REG, SYM), body)
            if q and dst and (q.group(2) in slots or ((q.group(2) in T or (not q.group(2).startswith('%') and tainted(q.group(2)))) and q.group(1) == 'ptr')):
                T.add(dst)
        elif op in DERIVE:
            if dst and (any(r in T for r in re.findall(REG, body)) or tainted(body)):
                T.add(dst)
        elif op in ('atomicrmw', 'cmpxchg'):
            q = re.search(r'ptr (%s|%s)' % (REG, SYM), body)
            if q and tainted(q.group(1)) and not init:
                final.append(('write', l, None))
        elif op == 'ret':
            if any(r in T for r in re.findall(REG, body)) or tainted(body):
                final.append(('ret', l, None))
        elif op in ('call', 'invoke'):
            q = re.search(r'(%s)\(' % SYM, body)
            if not q:
                q2 = re.search(r'(%s)\((.*)\)' % REG, body)
                if q2 and any(r in T for r in re.findall(REG, q2.group(2))):
                    final.append(('escape', l, None))
                return
            i = q.end() - 1
            d, j = 0, i
            for j in range(i, len(body)):
                d += body[j] in '([{'
                d -= body[j] in ')]}'
                if d == 0:
                    break
            args, cur, d = [], '', 0
            for ch in body[i + 1:j]:
                d += ch in '([{<'
                d -= ch in ')]}>'
                if ch == ',' and d == 0:
                    args.append(cur)
                    cur = ''
                else:
                    cur += ch
            args.append(cur)
            idx = [k for k, a in enumerate(args) if any(r in T for r in re.findall(REG, a)) or tainted(a)]
            if idx and dst:
                name = unq(q.group(1))
                h = self.callee(f, name)
                if name.startswith('llvm.threadlocal.address') or (h is not None and self.returns(h, None, frozenset(idx), rets, depth + 1)):
                    T.add(dst)
            if idx and unq(q.group(1)).startswith('llvm.threadlocal.address'):
                return
            if idx and not init:
                if all(re.search(r'\b(readonly|readnone)\b', args[k]) for k in idx):
                    return
                final.append(('call', l, (unq(q.group(1)), idx)))


def statics(ctx):
    fl = Flow(ctx)
    n = 0
    for m in ctx.prog.modules:
        if m.src.startswith(ROOT):
            continue
        for g, raw in m.globals_raw.items():
            s = raw if isinstance(raw, str) else str(raw)
            if not re.search(r'(^|\s)global\s', s) or re.search(r'^(external|appending)\b', s) or g.startswith('_ZGV') or g.startswith('llvm.'):
                continue
            q = re.search(r'global (%"[^"]+"|%[-\w.$]+) zeroinitializer, (?:comdat, )?align 1\b', s)
            if q and empty(m, q.group(1)):
                ctx.count('static objects without data')
                continue
            n += 1
            name = ctx.prog.demangle(g)
            wr, es = fl.track(m, g, bool(re.search(r'\b(internal|private)\b', s)))
            ctx.n_ob += 1
            if wr:
                d, w, l = next(iter(wr))
                ctx.fail('static/' + name, '%s: %s writes to %s, which outlives every processor' % (w, d.split('(')[0], name))
            elif es:
                d, w, l = next(iter(es))
                ctx.inconclusive('static/' + name, '%s: the address of %s leaves %s' % (w, name, d.split('(')[0]))
            else:
                ctx.n_ok += 1
    ctx.count('mutable static objects', n)
    ctx.count('functions scanned', len(fl.fns) + len(fl.local))
    # process-wide state behind library calls
    for key, f in list(fl.fns.items()) + list(fl.local.items()):
        d = ctx.prog.demangle(f.name)
        if not own(d):
            continue
        ctx.fns.add(d.split('(')[0][:120])
        bad = None
        for ls in f.blocks.values():
            for l in ls:
                q = re.search(r'(?:call|invoke) .*?(%s)\(' % SYM, l)
                if q:
                    c = ctx.prog.demangle(unq(q.group(1))).split('(')[0]
                    if c in STATEFUL:
                        bad = (c, fl.where(f, l))
        ctx.expect(None, bad is None, 'process/' + d.split('(')[0], lambda: '%s: %s uses %s, whose state is shared by the whole process' % (bad[1], d.split('(')[0], bad[0]))


def empty(m, ty, depth=0):
    """class type without any data member"""
    raw = m.types_raw.get(ty) or m.types_raw.get(ty.strip('%').strip('"')) or ''
    inner = re.findall(r'%"[^"]+"|%[-\w.$]+', raw)
    if inner:
        return depth < 8 and re.match(r'^(type )?<?\{[^{}\[\]]*\}>?$', raw.strip()) is not None and all(empty(m, t, depth + 1) for t in inner) and not re.search(r'\b(i8|i16|i32|i64|double|float|ptr)\b', re.sub(r'%"[^"]+"|%[-\w.$]+', '', raw))
    return raw.strip() in ('type { i8 }', '{ i8 }') and is_class(m, ty)


def is_class(m, ty):
    return ty.strip('%').strip('"').startswith(('struct.', 'class.'))


def own(d):
    return bool(re.search(r'\b(river|rmath|vatti|scan_line|dcel)::', d.split('(')[0])) or '::' not in d.split('(')[0]


def check(ctx):
    ctx.rule('every non-constant object with static storage in the library\'s compiled units (namespace scope, class static, function-local static, thread-local, template statics): no function writes to it after its initialisation, directly, through a derived, stored, passed or returned address (interprocedural flow over the IR)')
    ctx.rule('no function of the library calls a C or C++ facility that keeps process-wide state')
    ctx.bounds = ['whole program']
    ctx.assumptions = ['the standard library and boost keep no hidden mutable state in functions outside the analysed units']
    ctx.group('statics', statics)
