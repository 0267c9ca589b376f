"""Polynomial / rational-function normal forms used as the value domain.

Atoms are interned; a polynomial is a dict monomial -> coefficient (Fraction or
int) where a monomial is a sorted tuple of (atom id, exponent)."""
from fractions import Fraction as F
from math import gcd

ATOMS = []          # id -> (kind, name, payload)
_INTERN = {}


def atom(kind, name, payload=None, isint=False):
    key = (kind, name, payload)
    i = _INTERN.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append((kind, name, payload, isint))
        _INTERN[key] = i
    return i


def atom_name(i):
    k, n, p, _ = ATOMS[i]
    if k == 'app':
        return '%s(%s)' % (n, ', '.join(str(x) for x in p))
    return n


def _c(x):
    if isinstance(x, int):
        return x
    if x.denominator == 1:
        return x.numerator
    return x


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = _c(c) if not isinstance(c, float) else _c(F(c))
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def var(a):
        return Poly({((a, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def iszero(self):
        return not self.t

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = _c(v + c)
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 1:
            return self
        if not k:
            return Poly({})
        return Poly({m: _c(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return Poly({})
        if len(o.t) == 1 and () in o.t:
            return self.scale(o.t[()])
        if len(self.t) == 1 and () in self.t:
            return o.scale(self.t[()])
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                r[m] = v
        return Poly({m: _c(c) for m, c in r.items() if c})

    def __pow__(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b
            n >>= 1
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def deep_atoms(self):
        s = set()
        todo = list(self.atoms())
        while todo:
            a = todo.pop()
            if a in s:
                continue
            s.add(a)
            k, n, p, _ = ATOMS[a]
            if k == 'app':
                for x in p:
                    if isinstance(x, R):
                        todo += list(x.n.atoms()) + list(x.d.atoms())
        return s

    def content(self):
        """primitive normalisation: returns (k, q) with self = k*q, k>0 rational, q integer primitive."""
        if not self.t:
            return 1, self
        num = 0
        den = 1
        for c in self.t.values():
            c = F(c)
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        k = F(num, den)
        if k == 1:
            return 1, self
        return k, Poly({m: _c(F(c) / k) for m, c in self.t.items()})

    def lead(self):
        m = max(self.t)
        return m, self.t[m]

    def divide(self, o):
        """exact division or None"""
        if o.isconst():
            return self.scale(F(1) / F(o.constval()))
        if not self.t:
            return self
        lm, lc = _lead(o)
        q = {}
        r = self
        n = 0
        while r.t:
            n += 1
            if n > 200:
                return None
            rm, rc = _lead(r)
            m = mdiv(rm, lm)
            if m is None:
                return None
            k = _c(F(rc) / F(lc))
            q[m] = k
            r = r - Poly({m: k}) * o
        return Poly(q)

    def subs(self, mp):
        """substitute atoms by Poly"""
        r = Poly({})
        for m, c in self.t.items():
            t = Poly.const(c)
            for a, e in m:
                if a in mp:
                    t = t * (mp[a] ** e)
                else:
                    t = t * Poly({((a, e),): 1})
            r = r + t
        return r

    def degree_in(self, a):
        d = 0
        for m in self.t:
            for b, e in m:
                if b == a and e > d:
                    d = e
        return d

    def coeffs_in(self, a):
        out = {}
        for m, c in self.t.items():
            e0 = 0
            rest = []
            for b, e in m:
                if b == a:
                    e0 = e
                else:
                    rest.append((b, e))
            out.setdefault(e0, {})[tuple(rest)] = c
        return {e: Poly(t) for e, t in out.items()}

    def __str__(self):
        if not self.t:
            return '0'
        ps = []
        for m, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            s = '*'.join(atom_name(a) + ('^%d' % e if e > 1 else '') for a, e in m)
            if not m:
                s = fmtc(c)
            elif c == 1:
                pass
            elif c == -1:
                s = '-' + s
            else:
                s = fmtc(c) + '*' + s
            ps.append(s)
            if len(ps) > 40:
                ps.append('...')
                break
        return ' + '.join(ps).replace('+ -', '- ')

    __repr__ = __str__


def fmtc(c):
    c = F(c)
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator < 1000:
        return str(c)
    return repr(float(c))


def _lead(p):
    # lexicographic-by-atom order (a proper monomial order: compare as exponent vectors)
    best = None
    for m in p.t:
        if best is None or mgreater(m, best):
            best = m
    return best, p.t[best]


def mgreater(a, b):
    # lex with smaller atom id = more significant
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            if a[i][1] != b[j][1]:
                return a[i][1] > b[j][1]
            i += 1
            j += 1
        else:
            return a[i][0] < b[j][0]
    return i < len(a)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def mdiv(a, b):
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


ONE = Poly({(): 1})
ZERO = Poly({})


class R:
    """rational function n/d; d is never the zero polynomial."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=ONE):
        self.n = n
        self.d = d

    @staticmethod
    def c(x):
        return R(Poly.const(x if not isinstance(x, float) else F(x)))

    def isconst(self):
        return self.n.isconst() and self.d.isconst()

    def cv(self):
        return _c(F(self.n.constval()) / F(self.d.constval()))

    def __add__(self, o):
        if self.d == o.d:
            return mk(self.n + o.n, self.d)
        return mk(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return R(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.d is ONE and o.d is ONE:
            return R(self.n * o.n)
        return mk(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        if o.n.iszero():
            return None
        return mk(self.n * o.d, self.d * o.n)

    def __eq__(self, o):
        if not isinstance(o, R):
            return False
        if self.d == o.d:
            return self.n == o.n
        return self.n * o.d == o.n * self.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.n, self.d))

    def __str__(self):
        if self.d == ONE:
            return str(self.n)
        return '(%s)/(%s)' % (self.n, self.d)

    __repr__ = __str__

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def deep_atoms(self):
        return self.n.deep_atoms() | self.d.deep_atoms()

    def subs(self, mp):
        """mp: atom -> R"""
        def ps(p):
            r = R(ZERO)
            for m, c in p.t.items():
                t = R(Poly.const(c))
                for a, e in m:
                    if a in mp:
                        for _ in range(e):
                            t = t * mp[a]
                    else:
                        t = t * R(Poly({((a, e),): 1}))
                r = r + t
            return r
        return ps(self.n) / ps(self.d)


ROOTS = {}       # atom of the square root of a whole number -> that number


def unroot(r):
    """r with the squares of such roots replaced by their numbers"""
    return mk(unroot_p(r.n), unroot_p(r.d)) if any(e > 1 and a in ROOTS for p in (r.n, r.d) for m in p.t for a, e in m) else r


def unroot_p(p):
    out = {}
    for m, c in p.t.items():
        n = []
        for a, e in m:
            if e > 1 and a in ROOTS:
                c = c * ROOTS[a] ** (e // 2)
                e = e % 2
            if e:
                n.append((a, e))
        n = tuple(n)
        out[n] = out.get(n, 0) + c
    return Poly({m: _c(c) for m, c in out.items() if c != 0})


class Rounded(R):
    """a value some floating-point operation has rounded: equal in exact arithmetic only"""
    __slots__ = ()


SPLIT = {}


def split(p):
    """factors of p found by taking out coefficients of variables of degree one (their product is p)"""
    r = SPLIT.get(p)
    if r is not None:
        return r
    r = [p]
    if len(p.t) > 2:
        for a in p.atoms():
            cs = p.coeffs_in(a)
            if set(cs) != {0, 1} or cs[1].isconst():
                continue
            q = cs[0].divide(cs[1])
            if q is not None:
                r = split(cs[1]) + split(q + Poly.var(a))
                break
    SPLIT[p] = r
    return r


def mk(n, d):
    if d.isconst():
        c = d.constval()
        return R(n if c == 1 else n.scale(F(1) / F(c)))
    if n.iszero():
        return R(ZERO)
    if len(n.t) <= 400 and len(d.t) <= 60:
        # cancel common monomial
        common = None
        for p in (n, d):
            for m in p.t:
                dm = dict(m)
                if common is None:
                    common = dm
                else:
                    common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
                if not common:
                    break
            if not common:
                break
        if common:
            cm = tuple(sorted(common.items()))
            n = Poly({mdiv(m, cm): c for m, c in n.t.items()})
            d = Poly({mdiv(m, cm): c for m, c in d.t.items()})
            if d.isconst():
                return mk(n, d)
        if len(d.t) <= len(n.t):
            q = n.divide(d)
            if q is not None:
                return R(q)
        if 1 < len(d.t) <= 24 and len(n.t) > 1:
            fs = split(d)
            if len(fs) > 1:
                for f in fs:
                    if len(f.t) > 1:
                        q = n.divide(f)
                        if q is not None:
                            return mk(q, d.divide(f))
    k, d2 = d.content()
    lm, lc = _lead(d2)
    if lc < 0:
        k = -k
        d2 = -d2
    if k != 1:
        n = n.scale(F(1) / F(k))
    return R(n, d2)


def sym(name, isint=False):
    return R(Poly.var(atom('sym', name, None, isint)))


def app(fn, *args):
    return R(Poly.var(atom('app', fn, tuple(args))))


def reduce_mod(p, rules):
    """rules: list of (atom, power, R value): atom^power -> value (processed in order, repeatedly).
    p: R.  Returns reduced R numerator (zero iff p == 0 modulo the rules)."""
    n = p.n
    for _ in range(50):
        changed = False
        for a, k, val in rules:
            while n.degree_in(a) >= k:
                changed = True
                cs = n.coeffs_in(a)
                maxe = max(cs)
                acc = R(ZERO)
                for e, co in cs.items():
                    if e >= k:
                        t = R(co) * R(Poly({((a, e - k),): 1}) if e > k else ONE) * val
                    else:
                        t = R(co) * R(Poly({((a, e),): 1}) if e else ONE)
                    acc = acc + t
                n = acc.n
        if not changed:
            break
    return n


def alg_zero(r):
    """r == 0 modulo the defining relations of the sqrt/cbrt atoms in it (normal form is exact when
    radicands are independent; True means proved zero)"""
    n = r.n
    if n.iszero():
        return True
    for _ in range(4):
        rules = []
        for a in n.atoms():
            k, nm, pl, _i = ATOMS[a]
            if k == 'app' and nm == 'sqrt':
                rules.append((a, 2, pl[0]))
            elif k == 'app' and nm == 'cbrt':
                rules.append((a, 3, pl[0]))
        rules = [x for x in rules if n.degree_in(x[0]) >= x[1]]
        if not rules:
            break
        n = reduce_mod(R(n), rules)
        if n.iszero():
            return True
    return n.iszero()
