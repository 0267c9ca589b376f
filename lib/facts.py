"""Conjunctive fact domain: sign sets on polynomials, closed by a small
polyhedral (Fourier-Motzkin) emptiness test over monomials."""
from fractions import Fraction as F
from poly import split, Poly, R, ATOMS, ZERO, ONE, _lead, mmul

ALL = frozenset((-1, 0, 1))
POS = frozenset((1,))
NEG = frozenset((-1,))
ZER = frozenset((0,))
GE = frozenset((0, 1))
LE = frozenset((-1, 0))
NE = frozenset((-1, 1))
BIG = F(10) ** 200
NAMES = {POS: '> 0', NEG: '< 0', ZER: '== 0', GE: '>= 0', LE: '<= 0', NE: '!= 0', ALL: 'any'}


def flip(s):
    return frozenset(-x for x in s)


def norm(p):
    """(flipped, primitive poly with positive leading coeff)"""
    k, q = p.content()
    m, c = _lead(q)
    if c < 0:
        return True, -q
    return False, q


class Facts:
    def __init__(self):
        self.f = {}          # normalised poly -> sign set
        self.cache = {}

    def clone(self):
        n = Facts()
        n.f = dict(self.f)
        n.cache = dict(self.cache)
        return n

    # -- queries
    def signs(self, p):
        """feasible signs of polynomial p"""
        if p.isconst():
            c = p.constval()
            return POS if c > 0 else NEG if c < 0 else ZER
        fl, q = norm(p)
        s = self.cache.get(q)
        if s is None:
            s = self._signs(q)
            self.cache[q] = s
        return flip(s) if fl else s

    def _signs(self, q, depth=0):
        # huge constants dominate
        c = q.t.get((), 0)
        if c and abs(F(c)) >= BIG:
            if all(abs(F(v)) < F(10) ** 30 for m, v in q.t.items() if m):
                return POS if c > 0 else NEG
        known = self.f.get(q, ALL)
        if len(known) == 1:
            return known
        # single monomial: product of signs
        out = set()
        if len(q.t) == 1:
            (m, c), = q.t.items()
            s = {1 if c > 0 else -1}
            for a, e in m:
                sa = self.f.get(Poly.var(a), None)
                if sa is None:
                    sa = self._atom_signs(a)
                if len(sa) > 1 and (len(m) > 1 or e > 1) and depth < 3:
                    sa = sa & self._signs_n(Poly.var(a), depth)
                if e % 2 == 0:
                    sa = frozenset(abs(x) for x in sa)
                s = {x * y for x in s for y in sa}
            known = known & frozenset(s)
            if len(known) == 1:
                return known
        # is q = k^2 form? cheap: all monomials even & positive coefficients
        if all(v > 0 for v in q.t.values()) and all(all(e % 2 == 0 for _, e in m) for m in q.t):
            known = known & GE
        elif all(v < 0 for v in q.t.values()) and all(all(e % 2 == 0 for _, e in m) for m in q.t):
            known = known & LE
        if len(q.t) > 1 and len(q.t) <= 24:
            # every monomial of one sign, one of them strictly so
            ms = self._sum_signs(q)
            known = (known & ms) or known
            if len(known) == 1:
                return known
            if ms == ALL:
                ms = self._shift_signs(q)
                known = (known & ms) or known
                if len(known) == 1:
                    return known
        for s in known:
            if self._feasible(q, s):
                out.add(s)
        out = frozenset(out) if out else known
        if len(out) > 1 and len(q.t) > 1 and depth < 3 and any(sum(e for _, e in m) > 1 for m in q.t) and len(q.t) <= 60:
            f = self._factor_signs(q, depth)
            if f is not None and (out & f):
                out = out & f
        return out

    def _factor_signs(self, q, depth):
        r = poly_sqrt(q)
        if r is not None:
            s = self._signs_n(r, depth)
            return frozenset(abs(x) for x in s)
        fs = split(q)
        if len(fs) > 1:
            out = {1}
            for f in fs:
                out = {x * y for x in out for y in self._signs_n(f, depth)}
            return frozenset(out)
        for p in self.f:
            if len(p.t) < 1 or p == q or len(p.t) > len(q.t):
                continue
            if not (p.atoms() <= q.atoms()):
                continue
            d = q.divide(p)
            if d is not None and not d.isconst():
                s1 = self.signs(p)
                s2 = self._signs_n(d, depth)
                return frozenset(x * y for x in s1 for y in s2)
        return None

    def _sum_signs(self, q):
        acc = {0}
        for m, c in q.t.items():
            s = {1 if c > 0 else -1}
            for a, e in m:
                sa = self.f.get(Poly.var(a))
                if sa is None:
                    sa = self._atom_signs(a)
                if e % 2 == 0:
                    sa = frozenset(abs(x) for x in sa)
                s = {x * y for x in s for y in sa}
            n = set()
            for x in acc:
                for y in s:
                    if x == 0 or y == 0 or x == y:
                        n.add(x or y)
                    else:
                        return ALL
            acc = n
        return frozenset(acc)

    def lower(self):
        """atom -> greatest known constant lower bound (strict)"""
        lo = {}
        for p, s in self.f.items():
            if s == POS and len(p.t) <= 2:
                v = [m for m in p.t if m]
                if len(v) == 1 and len(v[0]) == 1 and v[0][0][1] == 1 and p.t[v[0]] > 0:
                    a = v[0][0][0]
                    c = -F(p.t.get((), 0)) / F(p.t[v[0]])
                    if a not in lo or c > lo[a]:
                        lo[a] = c
        return lo

    def _shift_signs(self, q):
        """signs of q when every variable is written as its lower bound plus something positive: coefficients
        (numbers, possibly with square roots of numbers) of one sign decide"""
        lo = self.lower()
        mp = {}
        for a in q.atoms():
            if constant_atom(a):
                continue
            if a not in lo:
                return ALL
            if lo[a]:
                mp[a] = Poly.var(a) + Poly.const(lo[a])
        r = q.subs(mp) if mp else q
        if len(r.t) > 200:
            return ALL
        groups = {}
        for m, c in r.t.items():
            k = tuple(x for x in m if not constant_atom(x[0]))
            groups.setdefault(k, {})[tuple(x for x in m if constant_atom(x[0]))] = c
        out = set()
        for k, t in groups.items():
            s = number_sign(Poly(t))
            if s is None:
                return ALL
            if s:
                out.add(s)
            if len(out) > 1:
                return ALL
        return frozenset(out) if out else ZER

    def _signs_n(self, p, depth):
        if p.isconst():
            return self.signs(p)
        fl, q = norm(p)
        s = self._signs(q, depth + 1)
        return flip(s) if fl else s

    def _atom_signs(self, a):
        k, n, p, isint = ATOMS[a]
        if k == 'app' and n in ('sqrt', 'fabs'):
            if n == 'sqrt' and p[0].isconst() and p[0].cv() > 0:
                return POS
            return GE
        return ALL

    def _feasible(self, q, s):
        cons = self._constraints(q)
        base = self._lin(q, frozenset((s,)))
        for ne in (None,):
            if fm_unsat(cons + base):
                return False
        # disequalities forced to zero
        return True

    def _lin(self, q, signs):
        ints = all(ATOMS[a][3] for a in q.atoms()) and all(isinstance(c, int) for c in q.t.values())
        if signs == ZER:
            return [(q, '=')]
        if signs == POS:
            return [(q - ONE, '>=')] if ints else [(q, '>')]
        if signs == NEG:
            return [((-q) - ONE, '>=')] if ints else [(-q, '>')]
        if signs == GE:
            return [(q, '>=')]
        if signs == LE:
            return [(-q, '>=')]
        return []

    def _constraints(self, q):
        dims = set(m for m in q.t if m)
        atoms = q.atoms()
        out = []
        used = set()
        changed = True
        rounds = 0
        items = list(self.f.items())
        while changed and rounds < 6:
            changed = False
            rounds += 1
            for p, s in items:
                if p in used:
                    continue
                if any(m in dims for m in p.t):
                    used.add(p)
                    l = self._lin(p, s)
                    if l:
                        out += l
                        dims |= set(m for m in p.t if m)
                        changed = True
            if len(out) > 40:
                break
        extra = []
        seen = set()
        todo = list(dims)
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            if all(e % 2 == 0 for _, e in m):
                extra.append((Poly({m: 1}), '>='))
            elif len(m) == 1 and m[0][1] == 1:
                k, n, pl, _ = ATOMS[m[0][0]]
                if k == 'app' and n in ('sqrt', 'fabs'):
                    extra.append((Poly({m: 1}), '>='))
                if k == 'app' and n in ('min', 'max'):
                    for a in pl:
                        if a.d == ONE:
                            d = (a.n - Poly({m: 1})) if n == 'min' else (Poly({m: 1}) - a.n)
                            extra.append((d, '>='))
                            for mm in d.t:
                                if mm and mm not in seen and len(seen) < 60:
                                    todo.append(mm)
                                    if mm not in dims:
                                        dims.add(mm)
                                        for p, s in items:
                                            if p not in used and mm in p.t:
                                                used.add(p)
                                                l = self._lin(p, s)
                                                out += l
            else:
                # product sign
                s = {1}
                for a, e in m:
                    sa = self.f.get(Poly.var(a), ALL)
                    if sa == ALL:
                        sa = self._atom_signs(a)
                    if e % 2 == 0:
                        sa = frozenset(abs(x) for x in sa)
                    s = {x * y for x in s for y in sa}
                s = frozenset(s)
                if s != ALL:
                    extra += self._lin(Poly({m: 1}), s)
        return out + extra

    # -- updates
    def assume(self, p, signs):
        """returns False if infeasible"""
        if p.isconst():
            c = p.constval()
            return (1 if c > 0 else -1 if c < 0 else 0) in signs
        cur = self.signs(p)
        new = cur & signs
        if not new:
            return False
        fl, q = norm(p)
        self.f[q] = flip(new) if fl else new
        self.cache = {}
        return True

    def rsign(self, r):
        """feasible signs of a rational function"""
        if r.d.isconst():
            return self.signs(r.n) if r.d.constval() > 0 else flip(self.signs(r.n))
        p = r.n * r.d
        s = self.signs(p)
        if len(s) == 1:
            return s
        ds = self.signs(r.d)
        ns = self.signs(r.n)
        comb = frozenset(x * y for x in ns for y in ds if y != 0)
        return s & comb if comb else s

    def rpoly(self, r):
        """polynomial with the same sign as r (given facts), assuming r.d != 0"""
        if r.d.isconst():
            return r.n if r.d.constval() > 0 else -r.n
        ds = self.signs(r.d) - {0}
        if ds == POS:
            return r.n
        if ds == NEG:
            return -r.n
        return r.n * r.d

    def __str__(self):
        return '; '.join('%s %s' % (p, NAMES[s]) for p, s in self.f.items())


def poly_root(q, n):
    """(c, r) with c * r**n == q for a positive (or, n odd, any) rational c, or None"""
    try:
        m, c = _lead(q)
    except Exception:
        return None
    if (c < 0 and n % 2 == 0) or any(e % n for _, e in m) or not m:
        return None
    qs = q.scale(F(1) / F(c))
    lead = Poly({tuple((a, e // n) for a, e in m): 1})
    r = lead
    ln = lead
    for _ in range(n - 2):
        ln = ln * lead
    from poly import mgreater
    rem = qs - r ** n
    for _ in range(12):
        if rem.iszero():
            return c, r
        mm, cc = _lead(rem)
        t = Poly({mm: F(cc) / n}).divide(ln)
        if t is None:
            return None
        r = r + t
        rem2 = qs - r ** n
        if rem2.iszero():
            return c, r
        m2, _ = _lead(rem2)
        if not mgreater(mm, m2):
            return None
        rem = rem2
    return None


def poly_sqrt(q):
    x = poly_root(q, 2)
    return x[1] if x else None


def rat_root(c, n):
    """exact n-th root of a rational or None"""
    c = F(c)
    out = []
    for v in (abs(c.numerator), c.denominator):
        k = round(v ** (1.0 / n)) if v < 10 ** 30 else None
        if k is None or k ** n != v:
            return None
        out.append(k)
    return F(-out[0] if c < 0 else out[0], out[1])


def rfun_root(x, n):
    """exact n-th root of a rational function, or None (sign ambiguous for even n)"""
    parts = []
    for p in (x.n, x.d):
        if p.isconst():
            k = rat_root(p.constval(), n) if (p.constval() > 0 or n % 2) else None
            if k is None:
                return None
            parts.append(Poly.const(k))
        else:
            z = poly_root(p, n)
            if z is None:
                return None
            k = rat_root(z[0], n)
            if k is None:
                return None
            parts.append(z[1].scale(k))
    return R(parts[0]) / R(parts[1])


def fm_unsat(cons, limit=400):
    """True if the linear system (over monomials as independent dims) is infeasible."""
    eqs = []
    ineqs = []
    for p, op in cons:
        if op == '=':
            eqs.append(dict(p.t))
        else:
            ineqs.append((dict(p.t), op == '>'))
    # eliminate equalities
    while eqs:
        e = eqs.pop()
        v = next((m for m in e if m), None)
        if v is None:
            if e.get((), 0):
                return True
            continue
        k = e[v]

        def sub(d):
            c = d.get(v)
            if not c:
                return d
            f = F(c) / F(k)
            r = dict(d)
            for m, cc in e.items():
                x = r.get(m, 0) - f * cc
                if x:
                    r[m] = x
                else:
                    r.pop(m, None)
            return r
        eqs = [sub(d) for d in eqs]
        ineqs = [(sub(d), st) for d, st in ineqs]
    while True:
        nxt = []
        vs = {}
        seen = set()
        for d, st in ineqs:
            if not any(m for m in d):
                c = d.get((), 0)
                if c < 0 or (st and c <= 0):
                    return True
                continue
            # normalise
            mx = max(abs(F(c)) for m, c in d.items() if m)
            dd = {m: F(c) / mx for m, c in d.items()}
            key = (frozenset(dd.items()), st)
            if key in seen:
                continue
            seen.add(key)
            nxt.append((dd, st))
            for m, c in dd.items():
                if m:
                    a = vs.setdefault(m, [0, 0])
                    a[0 if c > 0 else 1] += 1
        ineqs = nxt
        if not ineqs:
            return False
        # pick var with the smallest product
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1])
        pos = [(d, s) for d, s in ineqs if d.get(v, 0) > 0]
        neg = [(d, s) for d, s in ineqs if d.get(v, 0) < 0]
        rest = [(d, s) for d, s in ineqs if not d.get(v, 0)]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for d1, s1 in pos:
            c1 = d1[v]
            for d2, s2 in neg:
                c2 = -d2[v]
                r = {}
                for m, c in d1.items():
                    r[m] = c / c1
                for m, c in d2.items():
                    x = r.get(m, 0) + c / c2
                    if x:
                        r[m] = x
                    else:
                        r.pop(m, None)
                r.pop(v, None)
                rest.append((r, s1 or s2))
        ineqs = rest


def constant_atom(a):
    """square root of a number"""
    k, n, pl, _i = ATOMS[a]
    return k == 'app' and n == 'sqrt' and len(pl) == 1 and pl[0].isconst()


SCALE = 10 ** 60


def number_sign(p):
    """sign of a polynomial in square roots of numbers (None if not separated from zero)"""
    if p.isconst():
        c = p.constval()
        return 1 if c > 0 else -1 if c < 0 else 0
    from math import isqrt
    lo = hi = F(0)
    for m, c in p.t.items():
        a, b = F(1), F(1)
        for x, e in m:
            v = F(ATOMS[x][2][0].cv())
            if v < 0:
                return None
            r = isqrt(v.numerator * SCALE * SCALE // v.denominator)
            a *= F(r, SCALE) ** e
            b *= F(r + 2, SCALE) ** e
        c = F(c)
        lo += c * (a if c > 0 else b)
        hi += c * (b if c > 0 else a)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    from poly import alg_zero
    return 0 if alg_zero(R(p)) else None
