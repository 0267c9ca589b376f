"""Check runner: obligations, verdicts, evidence, known findings."""
import json, os, sys, time, traceback, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irload import Program, Unsupported, Missing
import irload
import engine
import witness
from engine import (Engine, State, Ptr, R, Cond, TOP, UNDEF, NULL, Budget, sym, Agg, Raw)
from facts import ALL, POS, NEG, ZER, GE, LE, NE
from poly import app, Poly, alg_zero, ATOMS, ONE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_PROG = {}


def program(tag='', **kw):
    if tag not in _PROG:
        if tag == '':
            kw.setdefault('extra_sources', [os.path.join(ROOT, 'lib', 'driver.cpp')])
        _PROG[tag] = Program(tag=tag, **kw)
    return _PROG[tag]


class Skip(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.n_ob = 0
        self.n_ok = 0
        self.n_paths = 0
        self.fns = set()
        self.viol = {}       # key -> text
        self.incon = {}
        self.rules = []
        self.engines = []
        self.counts = {}
        self.slow = 0.0
        self.notes = []
        self.assumptions = []
        self.bounds = []
        self.pending = []

    # -------------------------------------------------------------- basics
    @property
    def prog(self):
        return program()

    def engine(self, prog=None, **kw):
        kw.setdefault('max_steps', 6000000)
        kw.setdefault('max_states', 40000)
        e = Engine(prog or self.prog, **kw)
        self.engines.append(e)
        return e

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def fail(self, key, text):
        """key: stable identity of the violated rule instance; text: human report"""
        self.viol.setdefault(key, text)

    def inconclusive(self, key, why):
        self.incon.setdefault(key, why)

    def group(self, name, fn, *a, **kw):
        """register one group of obligations; the groups are analysed in parallel after the check has listed them"""
        self.pending.append((name, fn, a, kw))

    def run_pending(self):
        todo, self.pending = self.pending, []
        workers = min(8, os.cpu_count() or 1, len(todo))
        if workers <= 1 or os.environ.get('VERIF_SERIAL'):
            for j in todo:
                self.run_group(*j)
            return
        import concurrent.futures as cf
        import multiprocessing
        _JOBS[:] = [self, todo]
        with cf.ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context('fork')) as ex:
            futs = [ex.submit(_job, i) for i in range(len(todo))]
            for (name, _, _, _), fu in zip(todo, futs):
                try:
                    r = fu.result()
                except Exception as e:
                    self.inconclusive(name, 'analysis process ended: %s' % repr(e)[:200])
                    continue
                self.n_ob += r['n_ob']
                self.n_ok += r['n_ok']
                self.n_paths += r['n_paths']
                self.fns |= r['fns']
                for k, t in r['viol'].items():
                    self.viol.setdefault(k, t)
                if self.viol and os.environ.get('VERIF_FAILFAST'):      # development aid: stop at the first violation
                    for pr in list((ex._processes or {}).values()):
                        pr.kill()
                    rc = self.finish()
                    sys.stdout.flush()
                    os._exit(rc)
                for k, t in r['incon'].items():
                    self.incon.setdefault(k, t)
                for k, n in r['counts'].items():
                    self.count(k, n)
                for k, l in zip(LISTS, r['lists']):
                    cur = getattr(self, k)
                    cur += [x for x in l if x not in cur]

    def run_group(self, name, fn, a, kw):
        """run one group of obligations; analysis failures make the group inconclusive"""
        try:
            fn(self, *a, **kw)
        except Skip:
            pass
        except Missing as e:
            self.inconclusive(name, 'anchor not found: %s' % e)
        except Unsupported as e:
            self.inconclusive(name, 'unsupported construct: %s' % str(e)[:300])
        except Budget as e:
            self.inconclusive(name, 'analysis budget exceeded: %s' % e)
        except RecursionError:
            self.inconclusive(name, 'analysis recursion limit')
        except Exception as e:
            self.inconclusive(name, 'internal error: %s' % traceback.format_exc()[-900:])

    # -------------------------------------------------------------- running
    def run(self, e, fn, args, st, what, crash=True):
        """analyse fn; abnormal ends of feasible precise paths are reported as violations"""
        if isinstance(fn, str):
            fn = e.prog.fn(fn)
        d0 = len(e.dead)
        e.steps = 0
        outs = e.analyse(fn, args, st)
        self.n_paths += len(outs)
        for s, why, stack in e.dead[d0:]:
            if imprecise(s) or why == 'unroll bound':
                self.inconclusive(what + '/' + why, 'path ended: %s at %s' % (why, e.fmt_stack(stack)))
                continue
            if crash and why in ('null deref', 'null call', 'nonterm', 'undef call', 'deref of ?', 'use after free', 'double free', 'release of memory that was not allocated') or \
                    (crash and why.startswith('deref of')):
                if 'TOP' in why or 'Cond' in why:
                    self.inconclusive(what + '/' + why, 'path ended: %s at %s' % (why, e.fmt_stack(stack)))
                    continue
                if '%s/%s' % (what, why.split(' Ptr')[0]) not in self.viol and not self.reachable(s):
                    self.inconclusive(what + '/' + why, 'path ended: %s at %s (no input on this path found); facts: %s' % (why, e.fmt_stack(stack), short(s.facts, 600)))
                    continue
                self.fail('%s/%s' % (what, why.split(' Ptr')[0]), '%s: %s at %s; path facts: %s' % (what, {
                    'nonterm': 'the analysis re-enters the same state (endless loop)'}.get(why, why), e.fmt_stack(stack), short(s.facts)))
            elif why == 'throw':
                self.count('paths_ending_in_throw')
            else:
                self.inconclusive(what + '/' + why, 'path ended: %s at %s' % (why, e.fmt_stack(stack)))
        return outs

    def ok(self, n=1):
        self.n_ob += n
        self.n_ok += n

    def expect(self, st, cond, key, text):
        """cond: True holds / False violated / None unknown"""
        self.n_ob += 1
        if cond is True or cond == 1:
            self.n_ok += 1
            return True
        if cond is None or (st is not None and imprecise(st)):
            self.inconclusive(key, text() if callable(text) else text)
            return False
        if st is not None and key not in self.viol and not self.reachable(st):
            self.inconclusive(key, (text() if callable(text) else text) + ' (no input on this path found); facts: ' + short(st.facts, 600))
            return False
        self.fail(key, text() if callable(text) else text)
        return False

    def reachable(self, st):
        """some input is known to take this path"""
        if self.slow > 200:
            return None
        t1 = time.time()
        ok = self.feasible(st)
        self.slow += time.time() - t1
        return ok

    def expect_eq(self, e, st, a, b, key, text):
        """a == b on this path (numbers, tuples, pointers)"""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return self.expect(st, False, key, text)
            r = True
            for x, y in zip(a, b):
                r = self.expect_eq(e, st, x, y, key, text) and r
            return r
        v = eq(e, st, a, b)
        if v is False and isinstance(num(a), R) and isinstance(num(b), R):
            return self.expect_sign(e, st, num(a) - num(b), ZER, key, text)
        t = text() if callable(text) else text
        return self.expect(st, v, key, '%s (found %s, expected %s)' % (t, short(a, 120), short(b, 120)) if v is not True else t)

    def expect_sign(self, e, st, r, signs, key, text):
        r = num(r)
        if not isinstance(r, R):
            return self.expect(st, False if r is UNDEF else None, key, text)
        if st.facts.rsign(r) <= signs or (signs == ZER and alg_zero(r)):
            self.ok()
            return True
        t = text() if callable(text) else text
        if key in self.viol or (key in self.incon and self.slow > 120):
            self.n_ob += 1      # this rule instance is already reported; no further witness needed
            return False
        t1 = time.time()
        w = witness.confirm(st.facts, r, signs)
        self.slow += time.time() - t1
        if w is None and not witness.linear(st.facts):
            self.n_ob += 1
            self.inconclusive(key, t + ' (not provable and no witness found); facts: ' + short(st.facts, 600) + ' expr: ' + short(r, 200))
            return False
        return self.expect(None if not imprecise(st) else st, False, key, '%s; path facts: %s; witness: %s' % (t, short(st.facts), short(w)))

    def refute(self, st, exprs, test, tries=200, need=8):
        """evaluate exprs (list of R) at points of the path's fact set; first message returned by test(list of values, val) wins"""
        k = 0
        for val, memo in witness.samples(list(st.facts.f.items()), tries, 1, exprs):
            try:
                vs = [float(witness.ev_r(x, val, memo)) for x in exprs]
            except (witness.Undefined, OverflowError, ValueError, ZeroDivisionError):
                continue
            m = test(vs)
            if m:
                return '%s at %s' % (m, {ATOMS[a][1]: str(v) for a, v in val.items() if ATOMS[a][0] != 'app'})
            k += 1
            if k >= need:
                break
        return None

    def feasible(self, st):
        if witness.linear(st.facts):
            return True
        return True if witness.confirm(st.facts) is not None else None

    # -------------------------------------------------------------- finish
    def collect(self):
        for e in self.engines:
            for f in e.visited:
                d = e.prog.demangle(f)
                if re.search(r'river::|rmath::|vatti::|scan_line::|dcel::|^_ZL|^toqt', d) or '::' not in d:
                    self.fns.add(d.split('(')[0][:120])
        self.engines = []

    def finish(self):
        self.collect()
        kf = known_findings()
        known = [k for k in kf if k['property'] == self.prop and k['status'] == 'known']
        kept = {}
        shown = []
        for key, text in self.viol.items():
            m = [k for k in known if k['key'] == key]
            if m:
                shown.append('KNOWN-FINDING: property=%s %s' % (self.prop, m[0]['what']))
            else:
                kept[key] = text
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        rep = os.path.join(ROOT, 'evidence', self.prop + '.report.txt')
        level = LEVEL
        wall = round(time.time() - self.t0, 2)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': level,
            'coverage': {
                'explanation': '; '.join(self.rules) or 'static analysis',
                'obligations': self.n_ob, 'obligations_discharged': self.n_ok,
                'abstract_paths': self.n_paths,
                'functions_analysed': len(self.fns),
                'functions': sorted(self.fns)[:80],
                'counts': self.counts,
                'bounds': self.bounds,
                'undecided': ['%s: %s' % kv for kv in list(self.incon.items())[:40]],
                'known_findings': shown,
            },
            'wall_s': wall, 'assumptions': self.assumptions or ['real arithmetic for floating point'],
            'violations': len(kept)}
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        with open(rep, 'w') as f:
            f.write('property %s tier %s\n' % (self.prop, self.tier))
            for r in self.rules:
                f.write('rule: %s\n' % r)
            for k, t in kept.items():
                f.write('VIOLATED %s\n    %s\n' % (k, t))
            for k, t in self.incon.items():
                f.write('UNDECIDED %s\n    %s\n' % (k, t))
            f.write('reproduce: /verif/bin/check %s\n' % self.prop)
        for s in sorted(set(shown)):
            print(s)
        for k, t in list(self.incon.items())[:20]:
            print('INCONCLUSIVE %s: %s' % (k, t[:400]))
        print('%s: %d/%d obligations discharged, %d paths, %d functions, %.1fs' % (
            self.prop, self.n_ok, self.n_ob, self.n_paths, len(self.fns), wall))
        if kept:
            for k, t in list(kept.items())[:12]:
                print('  violated: %s: %s' % (k, t[:700]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        if self.n_ok == 0:
            print('UNDECIDED: no obligation of %s could be decided on this tree' % self.prop)
        return 0


LEVEL = 'other'
_JOBS = []
LISTS = ('rules', 'bounds', 'assumptions', 'notes')


def _job(i):
    """one group in a worker process: returns what it added"""
    ctx, todo = _JOBS
    ctx.n_ob = ctx.n_ok = ctx.n_paths = 0
    ctx.fns, ctx.viol, ctx.incon, ctx.counts, ctx.engines = set(), {}, {}, {}, []
    ctx.pending = []
    lists = [len(getattr(ctx, k)) for k in LISTS]
    ctx.run_group(*todo[i])
    while ctx.pending:
        ctx.run_group(*ctx.pending.pop(0))
    ctx.collect()
    return {'lists': [getattr(ctx, k)[n:] for k, n in zip(LISTS, lists)], 'n_ob': ctx.n_ob, 'n_ok': ctx.n_ok, 'n_paths': ctx.n_paths, 'fns': ctx.fns, 'viol': ctx.viol, 'incon': ctx.incon, 'counts': ctx.counts}


def known_findings():
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    for l in open(p):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m:
            out.append({'property': m.group(1), 'key': m.group(2), 'what': m.group(3), 'status': 'known'})
    return out


def imprecise(st):
    return any(ev[0] in ('top_branch', 'ext', 'imprecise') for ev in st.events)


def short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------ value helpers
def num(v):
    if isinstance(v, bool):
        return R.c(int(v))
    if isinstance(v, (int, float)):
        return R.c(v)
    return v


def eq(e, st, a, b):
    """True / False / None: are two abstract values equal on this path"""
    if a is UNDEF or b is UNDEF:
        return False
    if a is TOP or b is TOP or isinstance(a, Raw) or isinstance(b, Raw):
        return None
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        if a is None:
            a = NULL
        if b is None:
            b = NULL
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            return False
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if x.o == 0:
                z = e.isnull(st, y)
                return True if z == 1 else False
        return False
    if isinstance(a, Cond) or isinstance(b, Cond):
        if isinstance(b, Cond):
            a, b = b, a
        d = e.decide(st, a)
        if d is None:
            return None if not isinstance(b, Cond) else (True if a == b else None)
        if isinstance(b, Cond):
            d2 = e.decide(st, b)
            return None if d2 is None else d == d2
        a = int(d)
    if isinstance(a, (tuple, list)):
        res = True
        for x, y in zip(a, b):
            r = eq(e, st, x, y)
            if r is False:
                return False
            if r is None:
                res = None
        return res if len(a) == len(b) else False
    a, b = num(a), num(b)
    d = a - b
    s = st.facts.rsign(d)
    if s <= ZER:
        return True
    return False


def sgn(e, st, r):
    return st.facts.rsign(num(r))


def holds(e, st, r, signs):
    """sign(r) in signs: True / False (surely or possibly not)"""
    return st.facts.rsign(num(r)) <= signs


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    return run_check(a.prop, tier)


def run_check(prop, tier):
    sys.path.insert(0, os.path.join(ROOT, 'checks'))
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop, tier)
    engine.DEADLINE = time.time() + (600 if tier == 'quick' else 3000)
    try:
        mod = __import__(prop.lower())
    except Exception:
        traceback.print_exc()
        return 2
    try:
        program()
    except Exception as e:
        # the tree does not compile: no verdict
        print('ANALYSIS-BROKEN: cannot obtain IR: %s' % str(e)[:2000])
        return 2
    for src, err in program().errors:
        if src.startswith(ROOT):
            ctx.inconclusive('driver', 'analysis driver does not compile: %s' % err[-400:])
        else:
            print('ANALYSIS-BROKEN: %s does not compile: %s' % (src, err[-2000:]))
            return 2
    mod.check(ctx)
    ctx.run_pending()
    return ctx.finish()
