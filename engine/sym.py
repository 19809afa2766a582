"""Symbolic integers (polynomials over integer/real atoms), conditions and the solver front end.

A machine integer is represented by a polynomial whose value is congruent to it modulo 2^w; exec.py
proves (or forks on) the range before it is compared, divided, shifted or dereferenced.  Conditions are
interned tuples over polynomials.  `Solver` decides satisfiability with z3 (QF_NIA / NRA tactics), with
slicing to the constraints that share atoms with the query, a query cache and model reuse.
"""
import time, os, math
from fractions import Fraction
import z3

INF = float('inf')


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'real', 'z')


ATOMS = []


def new_atom(name, lo=None, hi=None, real=False):
    a = Atom()
    a.id = len(ATOMS)
    a.name = '%s#%d' % (name, a.id)
    a.lo, a.hi, a.real = lo, hi, real
    a.z = z3.Real(a.name) if real else z3.Int(a.name)
    ATOMS.append(a)
    return Poly({(a.id,): 1})


class Poly:
    __slots__ = ('t', '_h', '_b', '_z')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._b = None
        self._z = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        out = []
        for m, c in sorted(self.t.items()):
            n = '*'.join(ATOMS[i].name for i in m)
            out.append(('%s*%s' % (c, n) if c != 1 else n) if n else str(c))
        return ' + '.join(out) or '0'

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s


def is_c(x):
    return not isinstance(x, Poly)


def norm(t):
    t = {m: c for m, c in t.items() if c != 0}
    if not t:
        return 0
    if len(t) == 1 and () in t:
        c = t[()]
        if isinstance(c, Fraction) and c.denominator == 1:
            return int(c)
        return c
    return Poly(t)


def tt(x):
    return x.t if isinstance(x, Poly) else ({(): x} if x != 0 else {})


def padd(a, b):
    if is_c(a) and is_c(b):
        return a + b
    t = dict(tt(a))
    for m, c in tt(b).items():
        t[m] = t.get(m, 0) + c
    return norm(t)


def pscale(a, k):
    if is_c(a):
        return a * k
    if k == 0:
        return 0
    return Poly({m: c * k for m, c in a.t.items()}) if k != 1 else a


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul(a, b):
    if is_c(a):
        return pscale(b, a)
    if is_c(b):
        return pscale(a, b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2))
            t[m] = t.get(m, 0) + c1 * c2
    return norm(t)


def _mulb(a, b):
    (al, ah), (bl, bh) = a, b
    vs = []
    for x in (al, ah):
        for y in (bl, bh):
            if x == 0 or y == 0:
                vs.append(0)
            elif abs(x) == INF or abs(y) == INF:
                vs.append(INF if (x > 0) == (y > 0) else -INF)
            else:
                vs.append(x * y)
    return min(vs), max(vs)


def bounds(p):
    """interval of p from its atoms' declared ranges"""
    if is_c(p):
        return p, p
    if p._b is not None:
        return p._b
    lo = hi = 0
    for m, c in p.t.items():
        b = (1, 1)
        for i in m:
            a = ATOMS[i]
            b = _mulb(b, (-INF if a.lo is None else a.lo, INF if a.hi is None else a.hi))
        b = _mulb(b, (c, c))
        lo = -INF if lo == -INF or b[0] == -INF else lo + b[0]
        hi = INF if hi == INF or b[1] == INF else hi + b[1]
    p._b = (lo, hi)
    return p._b


def pz(p):
    if is_c(p):
        if isinstance(p, Fraction):
            return z3.Q(p.numerator, p.denominator)
        return z3.IntVal(p)
    if p._z is None:
        s = []
        real = any(ATOMS[i].real for m in p.t for i in m) or any(isinstance(c, Fraction) for c in p.t.values())
        for m, c in p.t.items():
            f = [ATOMS[i].z if (ATOMS[i].real or not real) else z3.ToReal(ATOMS[i].z) for i in m]
            cz = (z3.Q(Fraction(c).numerator, Fraction(c).denominator) if real else z3.IntVal(c))
            if not f:
                s.append(cz)
            else:
                e = f[0]
                for x in f[1:]:
                    e = e * x
                s.append(e if c == 1 else cz * e)
        p._z = z3.Sum(s) if len(s) > 1 else s[0]
    return p._z


def peval(p, model):
    if is_c(p):
        return p
    r = 0
    for m, c in p.t.items():
        v = c
        for i in m:
            v = v * model[i]
        r += v
    return r


# ---- conditions -------------------------------------------------------------------------------
# ('le',p): p<=0   ('eq',p): p==0   ('ne',p)   ('and',(..))  ('or',(..))   ('f',key,neg) opaque float decision
T, F = True, False


def clear(p):
    """integer coefficients when all atoms are integers"""
    if is_c(p) or not any(isinstance(c, Fraction) for c in p.t.values()):
        return p
    if any(ATOMS[i].real for m in p.t for i in m):
        return p
    d = 1
    for c in p.t.values():
        d = d * Fraction(c).denominator // math.gcd(d, Fraction(c).denominator)
    return Poly({m: int(c * d) for m, c in p.t.items()})


def c_le(a, b):
    p = clear(psub(a, b))
    if is_c(p):
        return p <= 0
    lo, hi = bounds(p)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    return ('le', p)


def c_lt(a, b):
    p = psub(a, b)
    if isinstance(p, Poly) and (any(ATOMS[i].real for m in p.t for i in m) or
                                any(isinstance(c, Fraction) for c in p.t.values())):
        return c_not(c_le(b, a))
    return c_le(padd(p, 1), 0)


def c_eq(a, b):
    p = clear(psub(a, b))
    if is_c(p):
        return p == 0
    lo, hi = bounds(p)
    if lo > 0 or hi < 0:
        return False
    m = min(p.t)
    if p.t[m] < 0:
        p = pscale(p, -1)
    return ('eq', p)


def c_not(c):
    if c is True or c is False:
        return not c
    k = c[0]
    if k == 'le':
        p = c[1]
        if any(ATOMS[i].real for m in p.t for i in m) or any(isinstance(x, Fraction) for x in p.t.values()):
            return ('gt', p)
        return c_le(psub(1, p), 0)
    if k == 'gt':
        return ('le', c[1])
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return c_or(*[c_not(x) for x in c[1]])
    if k == 'or':
        return c_and(*[c_not(x) for x in c[1]])
    if k == 'f':
        return ('f', c[1], not c[2])
    raise ValueError(c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == 'and':
            out.extend(c[1])
        else:
            out.append(c)
    out = list(dict.fromkeys(out))
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c[0] == 'or':
            out.extend(c[1])
        else:
            out.append(c)
    out = list(dict.fromkeys(out))
    if not out:
        return False
    return out[0] if len(out) == 1 else ('or', tuple(out))


def c_atoms(c, acc=None):
    if acc is None:
        acc = set()
    if c is True or c is False:
        return acc
    if c[0] in ('and', 'or'):
        for x in c[1]:
            c_atoms(x, acc)
    elif c[0] == 'f':
        acc.add(('f', c[1]))
    else:
        acc |= c[1].atoms()
    return acc


_ac = {}


def catoms(c):
    r = _ac.get(c)
    if r is None:
        r = _ac[c] = frozenset(c_atoms(c))
    return r


def ceval(c, model, fm=None):
    if c is True or c is False:
        return c
    k = c[0]
    if k == 'le':
        return peval(c[1], model) <= 0
    if k == 'gt':
        return peval(c[1], model) > 0
    if k == 'eq':
        return peval(c[1], model) == 0
    if k == 'ne':
        return peval(c[1], model) != 0
    if k == 'and':
        return all(ceval(x, model) for x in c[1])
    if k == 'or':
        return any(ceval(x, model) for x in c[1])
    if k == 'f':
        raise KeyError('f')
    raise ValueError(c)


_fz = {}


def cz(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    k = c[0]
    if k == 'le':
        return pz(c[1]) <= 0
    if k == 'gt':
        return pz(c[1]) > 0
    if k == 'eq':
        return pz(c[1]) == 0
    if k == 'ne':
        return pz(c[1]) != 0
    if k == 'and':
        return z3.And([cz(x) for x in c[1]])
    if k == 'or':
        return z3.Or([cz(x) for x in c[1]])
    if k == 'f':
        b = _fz.get(c[1])
        if b is None:
            b = _fz[c[1]] = z3.Bool('f%d' % len(_fz))
        return z3.Not(b) if c[2] else b
    raise ValueError(c)


_rvs = {}


def _rv(i):
    v = _rvs.get(i)
    if v is None:
        v = _rvs[i] = z3.Real('r_' + ATOMS[i].name)
    return v


def _rpz(p):
    s = []
    for m, c in p.t.items():
        e = z3.Q(Fraction(c).numerator, Fraction(c).denominator)
        for i in m:
            e = e * _rv(i)
        s.append(e)
    return z3.Sum(s)


def _rcz(c):
    """the condition over the reals (a weakening: integrality is kept only for disequalities)"""
    if c is True or c is False:
        return z3.BoolVal(c)
    k = c[0]
    if k == 'and':
        return z3.And([_rcz(x) for x in c[1]])
    if k == 'or':
        return z3.Or([_rcz(x) for x in c[1]])
    if k == 'f':
        return cz(c)
    e = _rpz(c[1])
    if k == 'le':
        return e <= 0
    if k == 'gt':
        return e > 0
    if k == 'eq':
        return e == 0
    if k == 'ne':
        if any(ATOMS[i].real for m in c[1].t for i in m) or any(isinstance(x, Fraction) for x in c[1].t.values()):
            return e != 0
        return z3.Or(e <= -1, e >= 1)
    raise ValueError(c)


class Stats:
    def __init__(self):
        self.queries = 0
        self.cached = 0
        self.syntactic = 0
        self.time = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0
        self.slow = []


class Solver:
    def __init__(self, timeout_ms=8000):
        self.cache = {}
        self.stats = Stats()
        self.timeout = timeout_ms
        self.dump = os.environ.get('VSYM_DUMP')

    def slice(self, pc, goal):
        """constraints of pc connected with the atoms of goal"""
        need = set()
        for g in goal:
            need |= catoms(g)
        rest = [(c, catoms(c)) for c in pc]
        out = []
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for c, a in rest:
                if a & need:
                    out.append(c)
                    need |= a
                    changed = True
                else:
                    keep.append((c, a))
            rest = keep
        return out, need

    def check(self, pc, goal, timeout=None, small=False):
        """sat of pc-slice and goal.  -> ('sat',model dict)|('unsat',None)|('unknown',None)"""
        goal = [g for g in goal if g is not True]
        if any(g is False for g in goal):
            return 'unsat', None
        cs, need = self.slice(pc, goal)
        key = (frozenset(cs) | frozenset(goal), small)
        r = self.cache.get(key)
        if r is not None:
            self.stats.cached += 1
            return r
        t0 = time.time()
        r = self._solve(cs, goal, need, timeout or self.timeout, small)
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dt
        if r[0] == 'unknown':
            self.stats.unknown += 1
        elif r[0] == 'sat':
            self.stats.sat += 1
        else:
            self.stats.unsat += 1
        if dt > 1.0 or r[0] == 'unknown':
            self.stats.slow.append((round(dt, 2), r[0], len(cs), str(goal)[:200]))
        if r[0] != 'unknown':
            self.cache[key] = r
        else:
            self.cache[key] = r
        return r

    def _solve(self, cs, goal, need, timeout, small):
        ids = [i for i in need if not isinstance(i, tuple)]
        real = any(ATOMS[i].real for i in ids)
        deg = 1
        for c in cs + goal:
            deg = max(deg, _deg(c))
        zs = [cz(c) for c in cs + goal]
        for i in ids:
            a = ATOMS[i]
            if a.lo is not None:
                zs.append(a.z >= a.lo)
            if a.hi is not None:
                zs.append(a.z <= a.hi)
        if real:
            rz = [_rcz(c) for c in cs + goal]
            for i in ids:
                a = ATOMS[i]
                if a.lo is not None:
                    rz.append(_rv(i) >= a.lo)
                if a.hi is not None:
                    rz.append(_rv(i) <= a.hi)
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', int(timeout))
            s.add(rz)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None
            return self._run([z3.Solver], zs, ids, timeout)
        if deg == 1:
            return self._run([lambda: z3.SolverFor('QF_LIA')], zs, ids, timeout)
        # 1. linear abstraction with product lemmas (sound for unsat)
        lin = self._lin(cs + goal, ids)
        if lin is not None:
            r = self._run([lambda: z3.SolverFor('QF_LIA')], lin[0], lin[1], min(timeout, 2000), lin=True)
            if r[0] == 'unsat':
                return r
            if r[0] == 'sat':
                m = {i: r[1][i] for i in ids}
                try:
                    if all(ceval(c, m) for c in cs + goal):
                        return 'sat', m
                except KeyError:
                    pass
        r = self._run([lambda: z3.SolverFor('QF_NIA')], zs, ids, min(timeout, 2500))
        if r[0] != 'unknown':
            return r
        # 2. try small values first (quick sat)
        for b in (3, 8, 40):
            extra = [z3.And(ATOMS[i].z <= b, ATOMS[i].z >= -b) for i in ids
                     if ATOMS[i].lo is None or ATOMS[i].lo <= b]
            r = self._run([lambda: z3.SolverFor('QF_NIA')], zs + extra, ids, 400)
            if r[0] == 'sat':
                return r
        if timeout > 2500:
            r = self._run([z3.Solver], zs, ids, timeout - 2500)
        return r if r[0] != 'unknown' else ('unknown', None)

    def _run(self, mk, zs, ids, timeout, lin=False):
        for f in mk:
            s = f()
            s.set('timeout', int(timeout))
            s.add(zs)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                mod = s.model()
                m = {}
                if lin:
                    for i, v in ids.items():
                        x = mod.eval(v, model_completion=True)
                        m[i] = x.as_long()
                    return 'sat', m
                ok = True
                for i in ids:
                    v = mod.eval(ATOMS[i].z, model_completion=True)
                    if z3.is_int_value(v):
                        m[i] = v.as_long()
                    elif z3.is_rational_value(v):
                        m[i] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    else:
                        ok = False
                        m[i] = None
                return 'sat', (m if ok else None)
        return 'unknown', None

    def _lin(self, conds, ids):
        """replace nonlinear monomials by fresh integer variables, add product lemmas"""
        monos = set()

        def walk(c):
            if c is True or c is False:
                return
            if c[0] in ('and', 'or'):
                for x in c[1]:
                    walk(x)
            elif c[0] != 'f':
                for m in c[1].t:
                    if len(m) > 1:
                        monos.add(m)
        for c in conds:
            walk(c)
        if len(monos) > 60:
            return None
        mv = {m: z3.Int('m_' + '_'.join(map(str, m))) for m in monos}

        def lp(p):
            s = []
            for m, c in p.t.items():
                if len(m) == 0:
                    s.append(z3.IntVal(c))
                    continue
                e = ATOMS[m[0]].z if len(m) == 1 else mono(m)
                s.append(e if c == 1 else c * e)
            return z3.Sum(s) if len(s) > 1 else s[0]

        def mono(m):
            v = mv.get(m)
            if v is None:
                v = mv[m] = z3.Int('m_' + '_'.join(map(str, m)))
            return v

        def lc(c):
            if c is True or c is False:
                return z3.BoolVal(c)
            k = c[0]
            if k == 'le':
                return lp(c[1]) <= 0
            if k == 'eq':
                return lp(c[1]) == 0
            if k == 'ne':
                return lp(c[1]) != 0
            if k == 'and':
                return z3.And([lc(x) for x in c[1]])
            if k == 'or':
                return z3.Or([lc(x) for x in c[1]])
            return cz(c)
        out = [lc(c) for c in conds]
        # lemmas: a known constraint p<=0 multiplied by a nonnegative atom x, when the product only
        # creates monomials that already occur (or few new ones)
        facts = []

        def flat(c):
            if c is True or c is False:
                return
            if c[0] == 'and':
                for x in c[1]:
                    flat(x)
            elif c[0] in ('le', 'eq'):
                facts.append(c)
        for c in conds:
            flat(c)
        inmono = set()
        for m in monos:
            inmono.update(m)
        base = [i for i in ids if i in inmono and ATOMS[i].lo is not None and ATOMS[i].lo >= 0]
        for i in ids:
            a = ATOMS[i]
            if a.lo is not None:
                out.append(a.z >= a.lo)
            if a.hi is not None:
                out.append(a.z <= a.hi)
        n = 0
        for k, p in facts:
            if max(len(m) for m in p.t) != 1:
                continue
            for x in base:
                q = pmul(p, Poly({(x,): 1}))
                new = [m for m in q.t if len(m) > 1 and m not in monos]
                if len(new) > 0 and not all(len(m) == 2 and m[0] in inmono and m[1] in inmono for m in new):
                    continue
                if not any(m in monos for m in q.t if len(m) > 1):
                    continue
                out.append(lp(q) <= 0 if k == 'le' else lp(q) == 0)
                n += 1
                if n > 400:
                    break
        for m, v in list(mv.items()):
            if len(m) == 2:
                a, b = ATOMS[m[0]], ATOMS[m[1]]
                if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
                    out.append(v >= 0)
                    za, zb = a.z, b.z
                    out.append(z3.Or(za == 0, v >= zb))
                    out.append(z3.Or(zb == 0, v >= za))
                    out.append(z3.Implies(za == 0, v == 0))
                    out.append(z3.Implies(zb == 0, v == 0))
                    out.append(z3.Implies(za == 1, v == zb))
                    out.append(z3.Implies(zb == 1, v == za))
            else:
                if all(ATOMS[i].lo is not None and ATOMS[i].lo >= 0 for i in m):
                    out.append(v >= 0)
        return out, {i: ATOMS[i].z for i in ids}


def _deg(c):
    if c is True or c is False or c[0] == 'f':
        return 0
    if c[0] in ('and', 'or'):
        return max([_deg(x) for x in c[1]] + [0])
    return max(len(m) for m in c[1].t)
