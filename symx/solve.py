"""z3 translation, path exploration and counterexample search."""
import math
import time
import random
from fractions import Fraction
import z3
from . import core
from .core import SBool, Sym, EngineError, PathAbort

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0}


def num(c):
    if isinstance(c, Fraction):
        return z3.Q(c.numerator, c.denominator)
    f = float(c)
    if f.is_integer() and abs(f) < 1e15:
        return z3.RealVal(int(f))
    fr = Fraction(f)
    return z3.Q(fr.numerator, fr.denominator)


def timed(solver, *a):
    t = time.time()
    r = solver.check(*a)
    STATS['solver_s'] += time.time() - t
    STATS['queries'] += 1
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    return r


class Lin:
    """Linear abstraction: every non-linear monomial is a bounded real."""

    def __init__(self, subst=None):
        self.v = {}
        self.axioms = []
        self.subst = subst          # atom index -> numeric value (concretised)
        self.lin = set()
        self.ext = set()            # atoms whose definitions were added
        self.ints = {}
        self.years = []

    def atomvar(self, i):
        at = core.ST.atoms[i]
        key = ((i, 1),)
        x = self.v.get(key)
        if x is None:
            if at.integer:
                n = z3.Int('a%d' % i)
                self.ints[i] = n
                x = z3.ToReal(n)
                self.v[key] = x
                self.calendar(i)
            else:
                x = z3.Real('a%d' % i)
            self.v[key] = x
            if at.lo > -math.inf:
                self.axioms.append(x >= num(at.lo))
            if at.hi < math.inf:
                self.axioms.append(x <= num(at.hi))
            if at.kind == 'floor' and i not in self.ext:
                self.ext.add(i)
                q = self.intpoly(at.data)
                if q is not None:
                    e, d = q
                    self.axioms += [e - d * self.ints[i] >= 0, e - d * self.ints[i] <= d - 1]
                else:
                    p = self.poly(at.data)
                    self.axioms.append(x <= p)
                    self.axioms.append(p < x + 1)
            elif at.kind == 'year' and i not in self.ext:
                self.ext.add(i)
                for p in (core.padd(at.data[0], at.data[1], -1),
                          core.padd(core.padd(at.data[2], at.data[0], -1), core.pconst(core.K(1)), -1)):
                    q = self.intpoly(p)
                    self.axioms.append(self.poly(p) >= 0 if q is None else q[0] >= 0)
        return x

    def calendar(self, i):
        """First days of different years are at least 365 days per year apart."""
        for k, (y, j, at) in enumerate(core.ST.jans):
            if i in at and all(a in self.ints for a in at) and k not in [q[0] for q in self.years]:
                y, j = self.intpoly(y)[0], self.intpoly(j)[0]
                for _, z, l in self.years:
                    self.axioms.append(z3.Or(z3.And(y == z, j == l), z3.And(y >= z + 1, j >= l + 365 * (y - z)),
                                             z3.And(y <= z - 1, j <= l - 365 * (z - y))))
                self.years.append((k, y, j))

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atomvar(m[0][0])
        x = self.v.get(m)
        if x is None:
            x = z3.Real('m%d' % len(self.v))
            self.v[m] = x
            lo, hi = core.imono(m)
            if lo > -math.inf and lo == lo:
                self.axioms.append(x >= num(widen(lo, -1)))
            if hi < math.inf and hi == hi:
                self.axioms.append(x <= num(widen(hi, 1)))
        return x

    def poly(self, p):
        terms = []
        for m, c in p.items():
            c0, mm = c, m
            if self.subst is not None:
                rest = []
                f = float(c)
                for a, e in m:
                    if a in self.subst:
                        f *= self.subst[a] ** e
                    else:
                        rest.append((a, e))
                c0, mm = f, tuple(rest)
                if f != f or f in (math.inf, -math.inf):
                    raise EngineError('undefined value')
            terms.append(num(c0) if not mm else num(c0) * self.mono(mm))
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def intpoly(self, p):
        """(integer expression, denominator) of a linear polynomial of integer atoms with simple fractions."""
        den = 1
        for m, c in p.items():
            if len(m) > 1 or (m and (m[0][1] != 1 or not core.ST.atoms[m[0][0]].integer or
                                     (self.subst is not None and m[0][0] in self.subst))):
                return None
            if isinstance(c, Fraction):
                den = den * c.denominator // math.gcd(den, c.denominator)
            elif not float(c).is_integer():
                return None
            if den > 10**24:
                return None
        terms = []
        for m, c in p.items():
            k = int(c * den)
            if m:
                self.atomvar(m[0][0])
                terms.append(k * self.ints[m[0][0]])
            else:
                terms.append(z3.IntVal(k))
        return (z3.Sum(terms) if terms else z3.IntVal(0)), den

    def bool(self, b):
        if not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        if b.op == 'cmp':
            q = self.intpoly(b.a)
            if q is not None:
                p = q[0]
                return {'>': p >= 1, '>=': p >= 0, '==': p == 0}[b.b]
            p = self.poly(b.a)
            return {'>': p > 0, '>=': p >= 0, '==': p == 0}[b.b]
        if b.op == 'not':
            return z3.Not(self.bool(b.a))
        if b.op == 'and':
            return z3.And([self.bool(x) for x in b.a])
        return z3.Or([self.bool(x) for x in b.a])


def widen(v, s):
    return v + s * 1e-9 * max(1e-30, abs(v))


class NRA(Lin):
    """Non-linear translation with defining axioms of all atoms."""

    def atomvar(self, i):
        at = core.ST.atoms[i]
        key = ((i, 1),)
        if key in self.v:
            return self.v[key]
        x = Lin.atomvar(self, i)
        k = at.kind
        if k in ('cos', 'sin') and i not in self.ext:
            j = at.data[0]
            self.ext.update((i, j))
            y = self.atomvar(j)
            self.axioms.append(x * x + y * y == 1)
        elif k == 'root':
            p = self.poly(at.data[0])
            y = x
            for _ in range(at.data[1] - 1):
                y = y * x
            self.axioms += [x >= 0, y == p]
        elif k == 'inv':
            self.axioms.append(x * self.poly(at.data[0]) == 1)
        return x

    def mono(self, m):
        r = None
        for a, e in m:
            x = self.atomvar(a)
            if e < 0:
                key = ('inv', a)
                if key not in self.v:
                    y = z3.Real('i%d' % a)
                    self.v[key] = y
                    self.axioms.append(x * y == 1)
                x, e = self.v[key], -e
            for _ in range(e):
                r = x if r is None else r * x
        return r


class Path:
    """One execution: follows a decision prefix, then extends it (True first)."""

    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.ex = explorer
        self.taken = []
        self.pc = []
        self.cache = {}
        self.samples = None
        self.ndec = 0

    # -- samples: numeric environments consistent with the path so far
    def env(self, k):
        while len(self.ex.points) <= k:
            self.ex.points.append({})
        return self.ex.points[k]

    def sample_envs(self):
        if self.samples is None:
            self.samples = [(k, {}) for k in range(self.ex.nsamples)]
        return self.samples

    def sync(self, k, env):
        pt = self.ex.points[k]
        for name, at in core.ST.vars.items():
            if at.i not in env:
                if name not in pt:
                    pt[name] = self.ex.draw(k, name, at)
                env[at.i] = float(pt[name])
        for at in core.ST.atoms:
            if at.kind == 'var' and at.i not in env and at.data and isinstance(at.data, tuple) \
                    and at.data[0] == 'round':
                v = core.eval_poly(at.data[1], env)
                u = at.data[2]
                env[at.i] = round(v / u) * u - v

    def holds(self, b):
        """Which samples satisfy b; list of (k, env, bool)."""
        out = []
        for k, env in self.sample_envs():
            self.sync(k, env)
            try:
                out.append((k, env, core.eval_bool(b, env)))
            except (ZeroDivisionError, OverflowError, ValueError):
                out.append((k, env, False))
        return out

    def add(self, b, v):
        c = b if v else core.bnot(b)
        self.pc.append(c)
        self.pc += implied(c)
        self.cache[b.key()] = v
        self.samples = [(k, e) for k, e, t in self.holds(c) if t]

    def decide(self, b):
        if not isinstance(b, SBool):
            return bool(b)
        if not real_only([b]):
            raise EngineError('branch on a complex value')
        key = b.key()
        if key in self.cache:
            return self.cache[key]
        nb = core.bnot(b)
        if isinstance(nb, SBool) and nb.key() in self.cache:
            return not self.cache[nb.key()]
        if not isinstance(nb, SBool):
            return not bool(nb)
        n = self.ndec
        self.ndec += 1
        if n < len(self.prefix):
            v = self.prefix[n]
            self.taken.append(v)
            self.add(b, v)
            return v
        self.ex.check_time()
        hs = self.holds(b)
        anyt = any(t for _, _, t in hs)
        anyf = any(not t for _, _, t in hs)
        ct = anyt or self.feasible(b)
        if not ct:
            cf = True
        else:
            cf = anyf or self.feasible(nb)
        if not ct and not cf:
            raise PathAbort()
        v = ct
        self.taken.append(v)
        if ct and cf:
            self.ex.push(tuple(self.taken[:-1]) + (False,))
            self.ex.transitions += 1
        self.add(b, v)
        return v

    def feasible(self, b, timeout=400):
        t = Lin()
        f = [t.bool(c) for c in self.pc] + [t.bool(b)] + [t.bool(c) for c in implied(b)]
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*f)
        s.add(*t.axioms)
        r = timed(s)
        if r == z3.unsat:
            return False
        if nonlinear([b] + self.pc):
            t = NRA()
            f = [t.bool(c) for c in self.pc] + [t.bool(b)]
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*f)
            s.add(*t.axioms)
            r = timed(s)
            if r == z3.unsat:
                return False
        return True

    def assume(self, b):
        if not isinstance(b, SBool):
            if not bool(b):
                raise PathAbort()
            return
        k = b.key()
        if k in self.cache:
            if not self.cache[k]:
                raise PathAbort()
            return
        hs = self.holds(b)
        if not any(t for _, _, t in hs) and not self.feasible(b):
            raise PathAbort()
        self.add(b, True)


def implied(b):
    """Consequences of (angle atom == constant) and (square root == 0) on the underlying polynomials."""
    out = []
    if not isinstance(b, SBool):
        return out
    if b.op == 'and':
        for x in b.a:
            out += implied(x)
        return out
    if b.op == 'or' and len(b.a) <= 6:
        alts = [implied(x) for x in b.a]
        if any(alts):
            out.append(core.bor(*[core.band(x, *f) for x, f in zip(b.a, alts)]))
        return [c for c in out if isinstance(c, SBool)]
    if b.op != 'cmp' or b.b != '==':
        return out
    ms = [m for m in b.a if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return out
    at = core.ST.atoms[ms[0][0][0]]
    val = -float(b.a.get((), 0)) / float(b.a[ms[0]])

    def near(p, x):
        d = core.padd(p, core.pconst(core.K(float(x))), -1)
        out.append(core.cmp(core.wrap(d), 1e-9, '<='))
        out.append(core.cmp(core.wrap(d), -1e-9, '>='))
        if abs(x) < 1e-12 and len(p) == 1:
            for a, e in next(iter(p)):
                r = core.ST.atoms[a]
                if r.kind == 'root' and e > 0 and len(next(iter(p))) == 1:
                    out.append(core.cmp(core.wrap(r.data[0]), 1e-9, '<='))
    if at.unit is not None and isinstance(at.data, dict) and 'cs' in at.data:
        x = val * at.unit
        for q, v in zip(at.data['cs'], (math.cos(x), math.sin(x))):
            near(q, round(v, 15))
    elif at.kind == 'root' and val == 0:
        near({ms[0]: core.K(1)}, 0.0)
    return [c for c in out if isinstance(c, SBool)]


def nonlinear(bs):
    for b in bs:
        for p in core.bool_polys(b):
            for m in p:
                if len(m) > 1 or (m and m[0][1] != 1):
                    return True
                if m and core.ST.atoms[m[0][0]].kind not in ('var', 'floor', 'year'):
                    return True
    return False


class Explorer:
    def __init__(self, seed=1, max_paths=400, nsamples=24, deadline=None):
        self.stack = [()]
        self.points = []
        self.rng = random.Random(seed)
        self.nsamples = nsamples
        self.max_paths = max_paths
        self.transitions = 0
        self.paths = 0
        self.deadline = deadline
        for _ in range(nsamples):
            self.points.append({})

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise EngineError('time budget of the case exhausted')

    def push(self, p):
        self.stack.append(p)

    def draw(self, k, name, at):
        lo = at.lo if at.lo > -math.inf else -1e3
        hi = at.hi if at.hi < math.inf else 1e3
        if at.integer:
            return self.rng.randint(int(math.ceil(lo)), int(math.floor(hi)))
        x = self.rng.random()
        if k % 6 == 5:
            x = self.rng.choice([0.0, 1.0, 0.5, 0.25, 0.75, 0.001, 0.999])
        return lo + (hi - lo) * x

    def __iter__(self):
        while self.stack:
            p = self.stack.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise EngineError('more than %d paths' % self.max_paths)
            self.check_time()
            yield Path(p, self)


# ------------------------------------------------------------------------------- deciding claims

def real_only(bs):
    """Field mode: z3 sees relations between real values only."""
    return core.ST.field is None or all(core.realpoly(p) for b in bs for p in core.bool_polys(b))


def prove(path, negs, timeout=20000):
    """Try to show that no value satisfies the path condition and one of negs.  True = proved."""
    ng = [n for n in negs if isinstance(n, SBool)]
    if any(not isinstance(n, SBool) and bool(n) for n in negs):
        return False
    if not real_only(ng):
        return False
    t = Lin()
    s = z3.Solver()
    s.set('timeout', timeout)
    goals = [t.bool(n) for n in ng]
    s.add(z3.Or(goals) if goals else z3.BoolVal(False))
    s.add(*t.axioms)
    r = timed(s)
    if r == z3.unsat:
        return True
    if path.pc:
        n0 = len(t.axioms)
        s.add(*[t.bool(c) for c in path.pc])
        s.add(*t.axioms[n0:])
        r = timed(s)
        if r == z3.unsat:
            return True
        sub = equalities(path.pc)
        if sub:
            t = Lin()
            s = z3.Solver()
            s.set('timeout', timeout)
            g2 = [subst_bool(n, sub) for n in ng]
            s.add(z3.Or([t.bool(n) for n in g2]))
            s.add(*[t.bool(c) for c in path.pc])
            s.add(*[t.bool(subst_bool(c, sub)) for c in path.pc])
            s.add(*t.axioms)
            if timed(s) == z3.unsat:
                return True
    return False


def equalities(pc):
    """Definitions atom = poly implied by equalities of the path condition."""
    sub = {}
    todo = list(pc)
    while todo:
        b = todo.pop(0)
        if b.op == 'and':
            todo = [x for x in b.a if isinstance(x, SBool)] + todo
            continue
        if b.op != 'cmp' or b.b != '==':
            continue
        p = subst_poly(b.a, sub)
        best = None
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and not any(a == m[0][0] for q in p if q != m for a, _ in q):
                best = m[0][0]
        if best is None:
            continue
        c = p[((best, 1),)]
        d = {m: -v / c for m, v in p.items() if m != ((best, 1),)}
        new = {best: d}
        at = core.ST.atoms[best]
        if core.is_const(d) and isinstance(at.data, dict) and 'cs' in at.data:
            x = float(core.cval(d)) * at.unit
            for q, v in zip(at.data['cs'], (math.cos(x), math.sin(x))):
                (m, k), = q.items()
                if len(m) == 1 and m[0][1] == 1:
                    new[m[0][0]] = core.pconst(core.K(round(v / float(k), 15)))
        for a in sub:
            sub[a] = subst_poly(sub[a], new)
        sub.update(new)
    return sub


def subst_poly(p, sub):
    if not any(a in sub for m in p for a, _ in m):
        return p
    terms = []
    for m, c in p.items():
        q = {tuple((a, e) for a, e in m if not (a in sub and e > 0)): c}
        for a, e in m:
            if a in sub and e > 0:
                for _ in range(e):
                    q = core.pmul(q, sub[a])
        terms += list(q.items())
    return core.clean(core._rsum(terms))


def subst_bool(b, sub):
    if not isinstance(b, SBool):
        return b
    if b.op == 'cmp':
        return SBool('cmp', subst_poly(b.a, sub), b.b)
    if b.op == 'not':
        return SBool('not', subst_bool(b.a, sub), None)
    return SBool(b.op, [subst_bool(x, sub) for x in b.a], None)


def prove_nra(path, negs, timeout=8000):
    if any(not isinstance(n, SBool) and bool(n) for n in negs):
        goals_true = True
    else:
        goals_true = False
    t = NRA()
    s = z3.Solver()
    s.set('timeout', timeout)
    if not goals_true:
        s.add(z3.Or([t.bool(n) for n in negs if isinstance(n, SBool)]))
    s.add(*[t.bool(c) for c in path.pc])
    s.add(*t.axioms)
    r = timed(s)
    if r == z3.unsat:
        return True, None
    if r == z3.sat:
        return False, (s.model(), t)
    return None, None


def split_vars(bs):
    """Base variables to concretise so that everything becomes linear in the others."""
    monos, hard, allv = set(), set(), set()

    def visit(p, under):
        for m in p:
            if m:
                monos.add(m)
            for a, e in m:
                at = core.ST.atoms[a]
                if at.kind == 'var':
                    allv.add(a)
                    if under or e != 1:
                        hard.add(a)
                elif at.kind == 'floor':
                    visit(at.data, under or len(m) > 1)
                elif at.kind == 'year':
                    visit(at.data[0], under or len(m) > 1)
                else:
                    for q in core.defs(at):
                        visit(q, True)
    for b in bs:
        for p in core.bool_polys(b):
            visit(p, False)
    lin = allv - hard
    while True:
        cnt = {}
        for m in monos:
            vs = [a for a, e in m if a in lin]
            if len(vs) > 1:
                for a in vs:
                    cnt[a] = cnt.get(a, 0) + 1
        if not cnt:
            break
        # prefer to keep plain coefficient-like variables symbolic
        worst = max(cnt, key=lambda a: (core.ST.atoms[a].unit is not None, cnt[a]))
        lin.discard(worst)
    return allv - lin, lin


def find_models(path, negs, tries=12, want=4):
    """Concrete assignments (name -> value) that satisfy the path condition and one of negs."""
    out = []
    live = [(k, e) for k, e in path.sample_envs()]
    for k, env in live:
        path.sync(k, env)
        try:
            if any(core.eval_bool(n, env) for n in negs):
                out.append({n: env[a.i] for n, a in core.ST.vars.items()})
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
        if len(out) >= want:
            return out
    if not real_only([n for n in negs if isinstance(n, SBool)]):
        return out
    if not out:
        out += linear_models(path, negs, tries, want)
    if not out:
        ok, mt = prove_nra(path, negs)
        if ok:
            return None
        if mt:
            a = nra_assignment(*mt)
            if a is not None:
                out.append(a)
    return out


def linear_models(path, negs, tries, want):
    out = []
    negs = [n for n in negs]
    bs = path.pc + [n for n in negs if isinstance(n, SBool)]
    hard, lin = split_vars(bs)
    pts = [env for _, env in path.sample_envs()]
    rng = random.Random(7)
    for t in range(tries):
        env = {}
        src = pts[t] if t < len(pts) else None
        for name, at in core.ST.vars.items():
            if at.i in hard:
                if src is not None:
                    env[at.i] = src[at.i]
                else:
                    env[at.i] = float(path.ex.draw(rng.randrange(6), name, at))
        r = linear_try(path, negs, env, lin)
        if r is not None:
            out.append(r)
            if len(out) >= want:
                break
        if not hard:
            break
    return out


def linear_try(path, negs, env, lin):
    e = dict(env)
    sub = {}
    try:
        for at in core.ST.atoms:
            if at.i in e:
                sub[at.i] = e[at.i]
                continue
            if at.kind == 'var':
                continue
            ds = set()
            for q in core.defs(at):
                core.atoms_of(q, ds)
            base = {a for a in ds if core.ST.atoms[a].kind == 'var'}
            if base and base <= set(env):
                sub[at.i] = core.eval_atom(at, e)
    except (KeyError, ZeroDivisionError, OverflowError, ValueError):
        return None
    t = Lin(subst=sub)
    s = z3.Solver()
    s.set('timeout', 4000)
    try:
        if any(not isinstance(n, SBool) and bool(n) for n in negs):
            pass
        else:
            s.add(z3.Or([t.bool(n) for n in negs if isinstance(n, SBool)]))
        s.add(*[t.bool(c) for c in path.pc])
    except EngineError:
        return None
    s.add(*t.axioms)
    if timed(s) != z3.sat:
        return None
    m = s.model()
    res = {}
    for name, at in core.ST.vars.items():
        if at.i in env:
            res[name] = env[at.i]
            continue
        x = t.v.get(((at.i, 1),))
        v = m.eval(x, model_completion=True) if x is not None else None
        if v is None:
            lo = at.lo if at.lo > -math.inf else 0.0
            hi = at.hi if at.hi < math.inf else lo
            res[name] = (lo + hi) / 2 if not at.integer else math.floor((lo + hi) / 2)
        else:
            res[name] = tofloat(v)
        if at.integer:
            res[name] = int(round(res[name]))
    return res


def tofloat(v):
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long())) if z3.is_rational_value(v) \
            else float(v.as_long())
    if z3.is_algebraic_value(v):
        return tofloat(v.approx(30))
    raise EngineError('model value')


def nra_assignment(m, t):
    res = {}
    try:
        for name, at in core.ST.vars.items():
            x = t.v.get(((at.i, 1),))
            if x is not None:
                res[name] = tofloat(m.eval(x, model_completion=True))
            else:
                lo = at.lo if at.lo > -math.inf else 0.0
                hi = at.hi if at.hi < math.inf else lo
                res[name] = (lo + hi) / 2
                if at.unit is not None and at.data and 'cs' in at.data:
                    ci = next(iter(at.data['cs'][0]))[0][0]
                    si = next(iter(at.data['cs'][1]))[0][0]
                    c, s = t.v.get(((ci, 1),)), t.v.get(((si, 1),))
                    cv = tofloat(m.eval(c, model_completion=True)) if c is not None else 0.0
                    sv = tofloat(m.eval(s, model_completion=True)) if s is not None else 0.0
                    a = math.atan2(sv, cv) / at.unit
                    per = 2 * math.pi / at.unit
                    while a < lo - 1e-9:
                        a += per
                    while a > hi + 1e-9:
                        a -= per
                    res[name] = min(max(a, lo), hi)
            if at.integer:
                res[name] = int(round(res[name]))
    except (EngineError, z3.Z3Exception, StopIteration):
        return None
    return res
