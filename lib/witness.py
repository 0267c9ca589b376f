"""Search for a point of a conjunctive fact set (used to confirm that a path on which
an obligation fails is not an artefact of the incomplete emptiness test).
It evaluates polynomials of the abstract domain; no code of the repository is run."""
import random, math
from fractions import Fraction as F
from poly import ATOMS, Poly, R, ONE

VALS = [F(0), F(1), F(-1), F(2), F(-2), F(3), F(-3), F(1, 2), F(-1, 2), F(5), F(7), F(1, 3), F(2, 3), F(1, 4), F(3, 4), F(-7, 2), F(9), F(4, 5), F(1, 10)]


class Undefined(Exception):
    pass


import time
CALL_LIMIT = 15     # seconds one search for a witness may take


def ev_poly(p, val, memo):
    s = 0
    for m, c in p.t.items():
        t = c
        for a, e in m:
            v = ev_atom(a, val, memo)
            t = t * v ** e
        s = s + t
    return s


def ev_r(r, val, memo):
    n = ev_poly(r.n, val, memo)
    if r.d == ONE:
        return n
    d = ev_poly(r.d, val, memo)
    if d == 0:
        raise Undefined()
    if isinstance(n, int) and isinstance(d, int):
        return F(n, d)
    return n / d


def ev_atom(a, val, memo):
    v = val.get(a)
    if v is not None:
        return v
    k, n, pl, isint = ATOMS[a]
    if k != 'app':
        raise Undefined()
    args = [ev_r(x, val, memo) for x in pl]
    v = fn(n, args, memo)
    val[a] = v
    return v


def fn(n, a, memo):
    try:
        if n == 'min':
            return min(a)
        if n == 'max':
            return max(a)
        if n == 'fabs':
            return abs(a[0])
        if n == 'sqrt':
            x = a[0]
            if x < 0:
                raise Undefined()
            if isinstance(x, F) or isinstance(x, int):
                x = F(x)
                p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if p * p == x.numerator and q * q == x.denominator:
                    return F(p, q)
            return math.sqrt(x)
        if n == 'cbrt':
            x = float(a[0])
            return math.copysign(abs(x) ** (1 / 3), x)
        if hasattr(math, n):
            return getattr(math, n)(*[float(x) for x in a])
    except (ValueError, OverflowError, ZeroDivisionError):
        raise Undefined()
    key = (n,) + tuple(a)
    if key not in memo:
        memo[key] = random.Random(repr(key)).choice(VALS)
    return memo[key]


def deep(p, out):
    for m in p.t:
        for a, _ in m:
            if a in out:
                continue
            out.add(a)
            k, n, pl, _i = ATOMS[a]
            if k == 'app':
                for x in pl:
                    deep(x.n, out)
                    deep(x.d, out)


def sign(v):
    if isinstance(v, float):
        return 0 if abs(v) < 1e-9 else (1 if v > 0 else -1)
    return 1 if v > 0 else -1 if v < 0 else 0


def find(cons, tries=400, seed=1):
    """cons: list of (Poly, signset).  Returns {name: value} or None."""
    for val, memo in samples(cons, tries, seed):
        return {ATOMS[a][1]: str(v) for a, v in val.items() if ATOMS[a][0] != 'app'}
    return None


def samples(cons, tries=400, seed=1, exprs=()):
    """points (atom -> value, memo) satisfying the constraints"""
    rnd = random.Random(seed)
    atoms = set()
    for p, s in cons:
        deep(p, atoms)
    for r in exprs:
        deep(r.n, atoms)
        deep(r.d, atoms)
    free = sorted(a for a in atoms if ATOMS[a][0] != 'app')
    apps = set(a for a in atoms if ATOMS[a][0] == 'app')
    hidden = set()
    for a in apps:
        for x in ATOMS[a][2]:
            deep(x.n, hidden)
            deep(x.d, hidden)
    eqs = [p for p, s in cons if s == frozenset((0,))]
    ineqs = [(p, s) for p, s in cons if s != frozenset((0,))]
    t_end = time.time() + CALL_LIMIT
    for n in range(tries):
        if time.time() > t_end:
            return
        val = {}
        memo = {}
        draw(n, free, val, rnd)
        if not solve_eqs(eqs, val, memo, apps, hidden, rnd):
            continue
        # repair: re-draw the variables of a violated inequality
        for rep in range(30):
            if time.time() > t_end:
                return
            try:
                v = {k: x for k, x in val.items() if ATOMS[k][0] != 'app'}
                bad = None
                for p, s in cons:
                    if sign(ev_poly(p, v, memo)) not in s:
                        bad = p
                        break
            except Undefined:
                bad = None
                break
            if bad is None:
                yield v, memo
                break
            at = set()
            deep(bad, at)
            at = [a for a in at if ATOMS[a][0] != 'app']
            if not at:
                break
            val[rnd.choice(at)] = rand_val(rnd.choice(at), rnd)
            solve_eqs(eqs, val, memo, apps, hidden, rnd)


def draw(n, free, val, rnd):
    """general points, and among them points with many coinciding coordinates"""
    pool, ties = None, None
    if n % 5 == 1:
        pool = [rnd.choice(VALS), rnd.choice(VALS)]
    elif n % 5 == 3:
        ties = {}
    for a in free:
        if ATOMS[a][0] == 'addr' or ATOMS[a][3] or (pool is None and ties is None) or rnd.random() < 0.1:
            val[a] = rand_val(a, rnd)
        elif pool:
            val[a] = rnd.choice(pool)
        else:
            nm = ATOMS[a][1]
            k = (nm[:1], nm[-2:]) if n % 2 else nm[-2:]
            if k not in ties:
                ties[k] = rand_val(a, rnd)
            val[a] = ties[k]


def rand_val(a, rnd):
    if ATOMS[a][0] == 'addr':
        return F(rnd.randrange(1, 1000) * 16)
    if ATOMS[a][3]:
        return F(rnd.choice((0, 1, -1, 2, -2, 3, -3, 1, -1)))
    return rnd.choice(VALS) if rnd.random() < 0.7 else F(rnd.randrange(-100, 100), rnd.randrange(1, 12))


def solve_eqs(eqs, val, memo, apps, hidden, rnd):
    done = set()
    for p in eqs:
        cand = [a for a in p.atoms() if a not in apps and a not in done and p.degree_in(a) == 1]
        cand.sort(key=lambda a: (a in hidden, rnd.random()))
        for a in cand:
            if a in hidden:
                hid = set()
                for b in p.atoms():
                    if b in apps:
                        for x in ATOMS[b][2]:
                            deep(x.n, hid)
                            deep(x.d, hid)
                if a in hid:
                    continue
            cs = p.coeffs_in(a)
            try:
                v = {k: x for k, x in val.items() if ATOMS[k][0] != 'app'}
                k1 = ev_poly(cs[1], v, memo)
                k0 = ev_poly(cs[0], v, memo) if 0 in cs else 0
                if k1 == 0:
                    continue
                val[a] = -F(k0) / F(k1) if not isinstance(k0, float) and not isinstance(k1, float) else -k0 / k1
                done.add(a)
                break
            except Undefined:
                continue
    return True


def linear(facts):
    for p in facts.f:
        for m in p.t:
            if len(m) > 1 or (m and m[0][1] > 1):
                return False
            if m and ATOMS[m[0][0]][0] == 'app':
                return False
    return True


def confirm(facts, r=None, signs=None, tries=400):
    """True (witness dict) if a point of facts (with sign(r) not in signs) is found; None if not found"""
    cons = list(facts.f.items())
    if r is not None:
        bad = frozenset((-1, 0, 1)) - signs
        p = r.n if r.d == ONE else r.n * r.d
        cons = cons + [(p, bad)]
        if r.d != ONE:
            cons.append((r.d, frozenset((-1, 1))))
    return find(cons, tries)
