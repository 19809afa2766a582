"""Symbolic executor for rustc's LLVM IR: path forking, symbolic memory, vf_* harness API."""
import re, time, math
from fractions import Fraction
import z3
import llir, ft
from llir import tsize, foffsets
from sym import (Poly, is_c, padd, psub, pmul, pscale, bounds, new_atom, ATOMS, peval, c_le, c_lt, c_eq, c_not,
                 c_and, c_or, ceval, cz, Solver, catoms)

M64 = (1 << 64) - 1


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    def __init__(self, outcome, detail=''):
        self.outcome = outcome
        self.detail = detail


class Unsupported(Exception):
    pass


class S:
    """symbolic machine integer: value congruent to p modulo 2^w"""
    __slots__ = ('p', 'w', 'canon')

    def __init__(self, p, w, canon=False):
        self.p, self.w, self.canon = p, w, canon

    def __repr__(self):
        return 'S%d(%s)' % (self.w, self.p)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Cat:
    """bit concatenation, parts low to high: (width, int | S | FT)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def w(self):
        return sum(p[0] for p in self.parts)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'init', 'ew', 'segs', 'top', 'alive', 'base', 'ro', 'dead')

    def copy(self):
        o = Obj()
        o.id, o.name, o.size, o.kind, o.init, o.ew = self.id, self.name, self.size, self.kind, self.init, self.ew
        o.segs, o.top, o.alive, o.base, o.ro = self.segs, dict(self.top), self.alive, self.base, self.ro
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'prev', 'dst', 'allocas')

    def copy(self):
        f = Frame()
        f.fn, f.regs, f.blk, f.ip, f.prev, f.dst, f.allocas = (self.fn, dict(self.regs), self.blk, self.ip, self.prev,
                                                               self.dst, list(self.allocas))
        return f


class State:
    __slots__ = ('frames', 'objs', 'pc', 'known', 'model', 'divc', 'canonc', 'inputs', 'panic_ok', 'eqs', 'nobj',
                 'fpc', 'done', 'hints', 'steps', 'nbuf', 'trace', 'own', 'counters')

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs)
        s.own = set()
        self.own = set()
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.model = dict(self.model) if self.model is not None else None
        s.divc = dict(self.divc)
        s.canonc = dict(self.canonc)
        s.inputs = list(self.inputs)
        s.panic_ok = self.panic_ok
        s.eqs = list(self.eqs)
        s.nobj = self.nobj
        s.fpc = list(self.fpc)
        s.done = self.done
        s.hints = list(self.hints)
        s.steps = self.steps
        s.nbuf = self.nbuf
        s.trace = list(self.trace)
        s.counters = dict(self.counters)
        return s


def gcd_coef(p):
    g = 0
    for c in p.t.values():
        g = math.gcd(g, c)
    return g


NORM_FCMP = {'une': ('oeq', True, False), 'uno': ('ord', True, False), 'ult': ('ole', True, True),
             'ugt': ('ole', True, False), 'ule': ('olt', True, True), 'uge': ('olt', True, False),
             'ueq': ('one', True, False), 'ogt': ('olt', False, True), 'oge': ('ole', False, True),
             'oeq': ('oeq', False, False), 'olt': ('olt', False, False), 'ole': ('ole', False, False),
             'one': ('one', False, False), 'ord': ('ord', False, False)}


class Engine:
    def __init__(self, mod, harness, opts=None):
        self.mod = mod
        self.h = harness
        self.opts = opts or {}
        self.solver = Solver(self.opts.get('timeout_ms', 8000))
        self.fp_time = 0.0
        self.fp_queries = 0
        self.viol = []
        self.viol_keys = {}
        self.inconclusive = []
        self.witness = []
        self.paths = {}
        self.npaths = 0
        self.nsteps = 0
        self.funcs = set()
        self.lines = set()
        self.asserts = {}
        self.deadline = self.opts.get('deadline')
        self.t_viol = None
        self.max_paths = self.opts.get('max_paths', 4000)
        self.max_steps = self.opts.get('max_steps', 200000)
        self.max_witness = self.opts.get('max_witness', 4)
        self.assumed = set()
        self.stubs = set()
        self.fcond = {}
        self.bnotes = set()
        self.ors = {}

    # ------------------------------------------------------------------ solver glue
    def add(self, st, c):
        """assume c on this path; False when the path becomes infeasible"""
        if c is True:
            return True
        if c is False:
            return False
        if c[0] == 'and':
            return all(self.add(st, x) for x in c[1])
        if st.known.get(c) is True:
            return True
        if c[0] == 'f':
            return self.add_f(st, c)
        ok = None
        if st.model is not None:
            try:
                ok = self.meval(st, c)
            except KeyError:
                ok = None
        if not ok:
            r, m = self.solver.check(st.pc, [c])
            if r == 'unsat':
                return False
            if r == 'sat' and m is not None and st.model is not None:
                st.model.update(m)
            else:
                if r == 'sat':
                    r2, m2 = self.solver.check(st.pc + [c], st.pc + [c]) if st.model is None else ('sat', m)
                    st.model = m2 if r2 == 'sat' else None
                else:
                    st.model = None
        st.pc.append(c)
        self.learn(st, c, True)
        return True

    def learn(self, st, c, val):
        st.known[c] = val
        n = c_not(c)
        if n is not True and n is not False:
            st.known[n] = not val

    def meval(self, st, c):
        m = st.model
        for i in catoms(c):
            if isinstance(i, tuple):
                raise KeyError(i)
            if i not in m:
                a = ATOMS[i]
                m[i] = max(a.lo if a.lo is not None else 0, min(2, a.hi if a.hi is not None else 2))
        if any(m[i] is None for i in catoms(c)):
            raise KeyError('none')
        return ceval(c, m)

    def decide(self, st, c):
        """True / False / None (both feasible as far as known)"""
        if c is True or c is False:
            return c
        k = st.known.get(c)
        if k is not None:
            return k
        if c[0] == 'f':
            return self.decide_f(st, c)
        if c[0] in ('and', 'or'):
            vals = [self.decide(st, x) for x in c[1]]
            if c[0] == 'and':
                if any(v is False for v in vals):
                    return False
                if all(v is True for v in vals):
                    return True
            else:
                if any(v is True for v in vals):
                    return True
                if all(v is False for v in vals):
                    return False
            if any(x[0] == 'f' for x in c[1]):
                return None
        mv = None
        if st.model is not None:
            try:
                mv = self.meval(st, c)
            except KeyError:
                mv = None
        n = c_not(c)
        if mv is not False:
            r, m = self.solver.check(st.pc, [n])
            if r == 'unsat':
                self.learn(st, c, True)
                return True
            if mv is True:
                return None
            if mv is None:
                r2, _ = self.solver.check(st.pc, [c])
                if r2 == 'unsat':
                    self.learn(st, c, False)
                    return False
                return None
        r, m = self.solver.check(st.pc, [c])
        if r == 'unsat':
            self.learn(st, c, False)
            return False
        return None

    def branch(self, st, c):
        """bool; forks when both outcomes are possible"""
        d = self.decide(st, c)
        if d is None:
            if c is not True and c is not False and c[0] in ('and', 'or'):
                # split into the operands: keeps path conditions conjunctive
                for x in c[1]:
                    if self.decide(st, x) is None:
                        raise Fork([x, c_not(x)])
                vals = [self.decide(st, x) for x in c[1]]
                return all(vals) if c[0] == 'and' else any(vals)
            raise Fork([c, c_not(c)])
        return d

    # ------------------------------------------------------------------ float conditions
    def fcmp(self, st, pred, a, b):
        if not isinstance(a, ft.FT) or not isinstance(b, ft.FT):
            raise Unsupported('fcmp on %r %r' % (a, b))
        if a.op == 'const' and b.op == 'const':
            return ft.fcmp_c(pred, ft.bits2f(a.a[0], a.w), ft.bits2f(b.a[0], b.w))
        if pred in ('true', 'false'):
            return pred == 'true'
        p, neg, swap = NORM_FCMP[pred]
        if swap:
            a, b = b, a
        if p in ('oeq', 'one', 'ord') and b.id < a.id:
            a, b = b, a
        if p == 'ord' and a.op == 'const':
            if ft.bits2f(a.a[0], a.w) != ft.bits2f(a.a[0], a.w):
                return neg
            a = b
        elif p == 'ord' and b.op == 'const':
            b = a
        key = (p, a.id, b.id)
        self.fcond[key] = (p, a, b)
        return ('f', key, neg)

    def fp_check(self, st, extra, zextra=(), timeout=3000, want=False):
        """z3 floating-point feasibility of the path's float conditions + extra"""
        conds = st.fpc + list(extra)
        memo = {}
        lv = {}

        def leafvar(t, srt):
            v = lv.get(t.id)
            if v is None:
                v = lv[t.id] = (t, z3.FP('x%d' % t.id, srt))
            return v[1]
        s = z3.Solver()
        s.set('timeout', timeout)
        t0 = time.time()
        try:
            for c in conds:
                p, a, b = self.fcond[c[1]]
                if p == 'bits':
                    # bit-pattern comparison with a constant (NaN payloads are not distinguished)
                    x = ft.to_fp(a, memo, leafvar)
                    z = x == z3.fpBVToFP(z3.BitVecVal(b, a.w), z3.Float64() if a.w == 64 else z3.Float32())
                    s.add(z3.Not(z) if c[2] else z)
                    continue
                z = ft.fcmp_z(p, ft.to_fp(a, memo, leafvar), ft.to_fp(b, memo, leafvar))
                s.add(z3.Not(z) if c[2] else z)
            for f in zextra:
                s.add(f(memo, leafvar))
            r = s.check()
        except (NotImplementedError, z3.Z3Exception):
            return 'unknown', None
        finally:
            self.fp_time += time.time() - t0
            self.fp_queries += 1
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            m = s.model()
            out = {}
            for t, v in lv.values():
                x = m.eval(z3.fpToIEEEBV(v), model_completion=True)
                try:
                    out[t] = x.as_long()
                except AttributeError:
                    out[t] = None
            return 'sat', out
        return 'unknown', None

    def decide_f(self, st, c):
        if c in st.fpc:
            return True
        if c_not(c) in st.fpc:
            return False
        if self.opts.get('fp_nofeas'):
            return None
        r, _ = self.fp_check(st, [c], timeout=1500)
        if r == 'unsat':
            self.learn(st, c, False)
            return False
        r, _ = self.fp_check(st, [c_not(c)], timeout=1500)
        if r == 'unsat':
            self.learn(st, c, True)
            return True
        return None

    def add_f(self, st, c):
        d = self.decide_f(st, c)
        if d is False:
            return False
        if d is None:
            st.fpc.append(c)
            self.learn(st, c, True)
        return True

    # ------------------------------------------------------------------ integers
    def canon(self, st, v, w=None):
        """polynomial equal to the unsigned value of v"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, tuple):
            return 1 if self.branch(st, v) else 0
        if isinstance(v, Ptr):
            return self.canon(st, self.p2i(st, v))
        if v is UNDEF:
            raise Unsupported('undef used as integer')
        if isinstance(v, Cat):
            return self.canon(st, self.cat2int(v))
        if isinstance(v, ft.FT):
            raise Unsupported('float bits used as an integer')
        if v.canon:
            return v.p
        p, w = v.p, v.w
        return self.canon_p(st, p, w)   # v is shared between forked states: never cached in it

    def canon_p(self, st, p, w):
        if is_c(p):
            return p % (1 << w)
        k = (p, w)
        r = st.canonc.get(k)
        if r is not None:
            return r
        top = 1 << w
        lo = self.decide(st, c_le(0, p))
        hi = self.decide(st, c_lt(p, top))
        if lo is True and hi is True:
            r = p
        elif lo is False and self.decide(st, c_le(-top, p)) is True:
            r = padd(p, top)
        elif hi is False and self.decide(st, c_lt(p, 2 * top)) is True:
            r = psub(p, top)
        elif lo is None or hi is None:
            alts = []
            if lo is None:
                alts.append(c_not(c_le(0, p)))
            if hi is None:
                alts.append(c_not(c_lt(p, top)))
            good = c_and(c_le(0, p), c_lt(p, top))
            raise Fork([good] + alts)
        else:
            b = bounds(p)
            kb = None if b[0] == -math.inf else b[0] // top - 1
            kh = None if b[1] == math.inf else b[1] // top + 1
            r = new_atom('wrap', 0, top - 1)
            q = new_atom('wrapk', kb, kh)
            st.pc.append(c_eq(p, padd(r, pscale(q, top))))
            if st.model is not None:
                try:
                    for i in p.atoms():
                        if i not in st.model:
                            raise KeyError
                    x = peval(p, st.model)
                    st.model[next(iter(r.t))[0]] = x % top
                    st.model[next(iter(q.t))[0]] = x // top
                except (KeyError, TypeError):
                    st.model = None
        st.canonc[k] = r
        return r

    def sval(self, st, v, w):
        """polynomial equal to the signed value"""
        u = self.canon(st, v)
        if is_c(u):
            return u - (1 << w) if u >> (w - 1) else u
        if self.branch(st, c_lt(u, 1 << (w - 1))):
            return u
        return psub(u, 1 << w)

    def divmod(self, st, n, d):
        """unsigned floor division of canonical polynomials"""
        if is_c(n) and is_c(d):
            return n // d, n % d
        k = (n, d)
        r = st.divc.get(k)
        if r is not None:
            return r
        if is_c(d):
            if d == 1:
                return n, 0
            # split off multiples of d
            qt, rt = {}, {}
            for m, c in n.t.items():
                if isinstance(c, int):
                    if c // d:
                        qt[m] = c // d
                    if c % d:
                        rt[m] = c % d
            from sym import norm
            q0, r0 = norm(qt), norm(rt)
            if not is_c(q0) or q0 != 0:
                if self.decide(st, c_and(c_le(0, r0), c_lt(r0, d))) is True:
                    st.divc[k] = (q0, r0)
                    return q0, r0
        elif self.decide(st, c_lt(n, d)) is True:
            st.divc[k] = (0, n)
            return 0, n
        elif len(d.t) == 1 and not is_c(n):
            # n = d*q0 + r0 by collecting the monomials that contain d
            (dm, dc), = d.t.items()
            if len(dm) == 1 and dc == 1:
                from sym import norm
                qt, rt = {}, {}
                for m, c in n.t.items():
                    if dm[0] in m:
                        x = list(m)
                        x.remove(dm[0])
                        qt[tuple(x)] = c
                    else:
                        rt[m] = c
                q0, r0 = norm(qt), norm(rt)
                if qt and self.decide(st, c_and(c_le(0, r0), c_lt(r0, d))) is True:
                    st.divc[k] = (q0, r0)
                    return q0, r0
        nb = bounds(n)
        db = bounds(d)
        q = new_atom('q', 0, None if nb[1] == math.inf else nb[1])
        r = new_atom('r', 0, None if db[1] == math.inf else max(db[1] - 1, 0))
        st.pc.append(c_eq(n, padd(pmul(q, d), r)))
        c = c_lt(r, d)
        if c is not True:
            st.pc.append(c)
            self.learn(st, c, True)
        if not is_c(d) and len(d.t) == 1:
            # n < d*X on this path gives q < X
            (dm, dc), = d.t.items()
            for c in list(st.pc):
                if c[0] != 'le' or len(dm) != 1 or dc != 1:
                    continue
                rest = padd(psub(c[1], n), -1)
                if is_c(rest) or not all(dm[0] in m for m in rest.t):
                    continue
                xt = {}
                for m, k1 in rest.t.items():
                    y = list(m)
                    y.remove(dm[0])
                    xt[tuple(y)] = -k1
                from sym import norm
                c = c_lt(q, norm(xt))
                if c is not True and c is not False:
                    st.pc.append(c)
                    self.learn(st, c, True)
        if st.model is not None:
            try:
                nv, dv = self.mval(st, n), self.mval(st, d)
                st.model[next(iter(q.t))[0]] = nv // dv
                st.model[next(iter(r.t))[0]] = nv % dv
            except (KeyError, TypeError, ZeroDivisionError):
                st.model = None
        st.divc[k] = (q, r)
        return q, r

    def mval(self, st, p):
        if is_c(p):
            return p
        for i in p.atoms():
            if i not in st.model:
                a = ATOMS[i]
                st.model[i] = max(a.lo if a.lo is not None else 0, min(2, a.hi if a.hi is not None else 2))
        return peval(p, st.model)

    def cat2int(self, v):
        """Cat -> int / S when it has no float parts"""
        if all(isinstance(x, int) for _, x in v.parts):
            r, sh = 0, 0
            for w, x in v.parts:
                r |= x << sh
                sh += w
            return r
        if len(v.parts) == 1:
            return v.parts[0][1]
        p, sh = 0, 0
        for w, x in v.parts:
            if isinstance(x, int):
                p = padd(p, x << sh)
            elif isinstance(x, S) and x.canon:
                p = padd(p, pscale(x.p, 1 << sh))
            elif isinstance(x, ft.FT) and x.op == 'const':
                p = padd(p, x.a[0] << sh)
            else:
                raise Unsupported('float bits used as an integer')
            sh += w
        return S(p, v.w(), True) if not is_c(p) else p

    @staticmethod
    def raw(v):
        if isinstance(v, (int,)):
            return v
        return v.p

    @staticmethod
    def sgn(c, w):
        return c - (1 << w) if c >> (w - 1) else c

    def mkint(self, p, w, canon=False):
        if is_c(p):
            return p % (1 << w)
        return S(p, w, canon)

    def binop(self, st, op, w, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            a, b = int(a), int(b)
            m = (1 << w) - 1
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (self.sgn(a, w) >> b) & m if b < w else UNDEF
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                raise PathEnd('ub', 'division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = self.sgn(a, w), self.sgn(b, w)
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            if op == 'sdiv':
                return q & m
            return (sa - q * sb) & m
        if isinstance(a, Ptr):
            a = self.p2i(st, a)
        if isinstance(b, Ptr):
            b = self.p2i(st, b)
        if isinstance(a, Cat) or isinstance(b, Cat):
            return self.catop(st, op, w, a, b)
        if isinstance(a, tuple):
            a = self.canon(st, a)
        if isinstance(b, tuple):
            b = self.canon(st, b)
        if op in ('add', 'sub'):
            pa = self.sgn(a, w) if isinstance(a, int) and not (op == 'sub') else self.raw(a)
            pb = self.sgn(b, w) if isinstance(b, int) else self.raw(b)
            return self.mkint(padd(pa, pb) if op == 'add' else psub(pa, pb), w)
        if op == 'mul':
            pa = self.sgn(a, w) if isinstance(a, int) else self.raw(a)
            pb = self.sgn(b, w) if isinstance(b, int) else self.raw(b)
            return self.mkint(pmul(pa, pb), w)
        if op == 'shl':
            if not isinstance(b, int):
                b = self.conc(st, b, 'shift amount')
            if b >= w:
                return UNDEF
            return self.mkint(pscale(self.raw(a), 1 << b), w)
        if op in ('udiv', 'urem'):
            n, d = self.canon(st, a), self.canon(st, b)
            if is_c(d) and d == 0:
                raise PathEnd('ub', 'division by zero')
            if not is_c(d):
                nz = self.decide(st, c_le(1, d))
                if nz is not True:
                    self.obligation(st, c_le(1, d), 'ub', 'division by zero reachable')
            if op == 'urem' and is_c(d) and d & (d - 1) == 0:
                n = self.modred(n, d)
            q, r = self.divmod(st, n, d)
            return self.mkint(q if op == 'udiv' else r, w, True)
        if op == 'lshr':
            if not isinstance(b, int):
                b = self.conc(st, b, 'shift amount')
            q, r = self.divmod(st, self.canon(st, a), 1 << b)
            return self.mkint(q, w, True)
        if op == 'ashr':
            if not isinstance(b, int):
                b = self.conc(st, b, 'shift amount')
            s = self.sval(st, a, w)
            if is_c(s):
                return (s >> b) % (1 << w)
            if self.decide(st, c_le(0, s)) is True:
                q, r = self.divmod(st, s, 1 << b)
                return self.mkint(q, w)
            # negative: floor(s / 2^b) with s in [-2^(w-1), 0)
            u = padd(s, 1 << w)
            q, r = self.divmod(st, u, 1 << b)
            return self.mkint(psub(q, 1 << (w - b)), w)
        if op in ('sdiv', 'srem'):
            n, d = self.sval(st, a, w), self.sval(st, b, w)
            if not is_c(d):
                if self.decide(st, c_not(c_eq(d, 0))) is not True:
                    self.obligation(st, c_not(c_eq(d, 0)), 'ub', 'division by zero reachable')
            np_ = self.branch(st, c_le(0, n))
            dp = self.branch(st, c_le(0, d))
            q, r = self.divmod(st, n if np_ else pscale(n, -1), d if dp else pscale(d, -1))
            if op == 'sdiv':
                return self.mkint(q if np_ == dp else pscale(q, -1), w)
            return self.mkint(r if np_ else pscale(r, -1), w)
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if b == (1 << w) - 1:
                    return a
                if b & (b + 1) == 0:           # low mask
                    k = b.bit_length()
                    p = self.modred(self.raw(a), 1 << k)
                    if is_c(p):
                        return p % (1 << k)
                    r = self.canon_p(st, p, k) if False else None
                    q, r = self.divmod(st, self.canon(st, S(p, w)), 1 << k)
                    return self.mkint(r, w, True)
                inv = ((1 << w) - 1) ^ b
                if inv & (inv + 1) == 0:       # high mask: x - (x mod 2^k)
                    k = inv.bit_length()
                    n = self.canon(st, a)
                    q, r = self.divmod(st, n, 1 << k)
                    return self.mkint(psub(n, r), w, True)
                if b & (b - 1) == 0:           # single bit
                    k = b.bit_length() - 1
                    q, r = self.divmod(st, self.canon(st, a), 1 << k)
                    q2, bit = self.divmod(st, q, 2)
                    return self.mkint(pscale(bit, b), w, True)
            if isinstance(a, S) and isinstance(b, S) and a.p == b.p:
                return a
            raise Unsupported('and %r %r' % (a, b))
        if op == 'or':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return a
                # disjoint high constant
                low = (b & -b).bit_length() - 1
                n = self.canon(st, a)
                if self.decide(st, c_lt(n, 1 << low)) is True:
                    return self.mkint(padd(n, b), w, True)
                # low constant below the known-zero low bits
                if not is_c(n) and all(isinstance(c, int) and c % (1 << b.bit_length()) == 0 for c in n.t.values()):
                    return self.mkint(padd(n, b), w, True)
                raise Unsupported('or %r %r' % (a, b))
            na, nb = self.canon(st, a), self.canon(st, b)
            for x, y in ((na, nb), (nb, na)):
                if not is_c(y):
                    g = gcd_coef(y)
                    k = g & -g
                    if k > 1 and self.decide(st, c_lt(x, k)) is True:
                        return self.mkint(padd(x, y), w, True)
            if na == nb:
                return a
            # compared with 0 or a power of two the result is exact (icmp); otherwise known by its bounds
            k = ('or', na, nb)
            r = st.divc.get(k)
            if r is None:
                r = st.divc[k] = new_atom('or', 0, (1 << w) - 1)
                self.ors[next(iter(r.t))[0]] = (na, nb)
                st.pc.append(c_le(na, r))
                st.pc.append(c_le(nb, r))
                st.pc.append(c_le(r, padd(na, nb)))
                st.model = None
            return S(r, w, True)
        if op == 'xor':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == (1 << w) - 1:
                    return self.mkint(psub(-1, self.raw(a)), w)
                if b == 1 << (w - 1):
                    return self.mkint(padd(self.raw(a), b), w)
                if b == 1:
                    n = self.canon(st, a)
                    if self.decide(st, c_le(n, 1)) is True:
                        return self.mkint(psub(1, n), w, True)
            elif isinstance(a, S) and a.p == b.p:
                return 0
            raise Unsupported('xor %r %r' % (a, b))
        raise Unsupported('binop ' + op)

    @staticmethod
    def modred(p, m):
        """reduce coefficients modulo m"""
        if is_c(p):
            return p % m
        from sym import norm
        return norm({k: (c % m if c % m <= m // 2 else c % m - m) if k != () else c % m for k, c in p.t.items()})

    def catop(self, st, op, w, a, b):
        def parts(x):
            if isinstance(x, Cat):
                return list(x.parts)
            return [(w, x)]
        if op == 'lshr' and isinstance(b, int):
            out, sh = [], b
            for pw, x in parts(a):
                if sh >= pw:
                    sh -= pw
                    continue
                if sh:
                    x = self.sliceval(x, pw, sh, pw - sh)
                    pw -= sh
                    sh = 0
                out.append((pw, x))
            out.append((b, 0)) if b else None
            return self.mkcat(out)
        if op == 'shl' and isinstance(b, int):
            out = [(b, 0)] if b else []
            left = w - b
            for pw, x in parts(a):
                if left <= 0:
                    break
                if pw > left:
                    x = self.sliceval(x, pw, 0, left)
                    pw = left
                out.append((pw, x))
                left -= pw
            return self.mkcat(out)
        if op in ('or', 'xor', 'and', 'add'):
            pa, pb = parts(a), parts(b)
            # refine to common boundaries
            cuts = set()
            for ps in (pa, pb):
                o = 0
                for pw, _ in ps:
                    o += pw
                    cuts.add(o)
            cuts = sorted(cuts)
            out = []
            lo = 0
            for c in cuts:
                n = c - lo
                x, y = self.slicecat(pa, lo, n), self.slicecat(pb, lo, n)
                full = (1 << n) - 1
                if op == 'and':
                    if x == 0 or y == 0:
                        r = 0
                    elif isinstance(y, int) and y == full:
                        r = x
                    elif isinstance(x, int) and x == full:
                        r = y
                    else:
                        raise Unsupported('and on float bits')
                else:
                    if isinstance(y, int) and y == 0:
                        r = x
                    elif isinstance(x, int) and x == 0:
                        r = y
                    elif op == 'xor' and isinstance(y, int) and isinstance(x, ft.FT) and y == 1 << (n - 1):
                        r = ft.fun('fneg', x, n)
                    elif isinstance(x, int) and isinstance(y, int) and op != 'add':
                        r = x | y if op == 'or' else x ^ y
                    else:
                        raise Unsupported('%s on float bits' % op)
                out.append((n, r))
                lo = c
            return self.mkcat(out)
        raise Unsupported('%s on float bits' % op)

    def slicecat(self, ps, lo, n):
        o = 0
        for pw, x in ps:
            if o <= lo and lo + n <= o + pw:
                return self.sliceval(x, pw, lo - o, n)
            o += pw
        raise Unsupported('bit slice across parts')

    def sliceval(self, x, pw, sh, n):
        if sh == 0 and n == pw:
            return x
        if isinstance(x, int):
            return (x >> sh) & ((1 << n) - 1)
        if isinstance(x, ft.FT) and x.op == 'const':
            return (x.a[0] >> sh) & ((1 << n) - 1)
        if isinstance(x, ft.FT) and sh == pw - 1 and n == 1:
            raise Unsupported('sign bit of a float')
        raise Unsupported('bit slice of %r' % (x,))

    def mkcat(self, parts):
        if all(isinstance(x, int) for _, x in parts):
            return self.cat2int(Cat(parts))
        if len(parts) == 1 and isinstance(parts[0][1], S):
            return parts[0][1]
        return Cat(parts)

    def conc(self, st, v, what):
        """concrete value, forking over feasible values (few)"""
        p = self.canon(st, v)
        if is_c(p):
            return p
        vals = []
        extra = []
        while True:
            r, m = self.solver.check(st.pc, extra + [c_le(0, p)])
            if r == 'unsat':
                break
            if r == 'unknown' or m is None or len(vals) > 40:
                raise Unsupported('symbolic ' + what)
            x = peval(p, {**{i: (ATOMS[i].lo or 0) for i in p.atoms()}, **m})
            vals.append(x)
            extra.append(c_not(c_eq(p, x)))
        if not vals:
            raise PathEnd('infeasible')
        if len(vals) == 1:
            return vals[0]
        raise Fork([c_eq(p, x) for x in vals])

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of an undefined value')
        if ty[0] == 'ptr':
            return self.pcmp(st, pred, a, b)
        w = ty[1]
        if w == 1:
            x = a if isinstance(a, (bool, tuple)) else bool(a)
            y = b if isinstance(b, (bool, tuple)) else bool(b)
            if pred == 'eq':
                return self.xnor(st, x, y)
            if pred == 'ne':
                return c_not(self.xnor(st, x, y))
            if pred == 'ult':
                return c_and(c_not(x), y)
            if pred == 'ugt':
                return c_and(x, c_not(y))
            if pred == 'ule':
                return c_or(c_not(x), y)
            if pred == 'uge':
                return c_or(x, c_not(y))
            raise Unsupported('icmp i1 ' + pred)
        if isinstance(a, Cat) or isinstance(b, Cat):
            r = self.catcmp(st, pred, w, a, b)
            if r is not None:
                return r
        for x, y, pr in ((a, b, pred), (b, a, {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred))):
            # (p | q) against 0 or a power of two
            if isinstance(x, S) and isinstance(y, int) and isinstance(x.p, Poly) and len(x.p.t) == 1:
                (m, co), = x.p.t.items()
                if co == 1 and len(m) == 1 and m[0] in self.ors:
                    p, q = self.ors[m[0]]
                    lim = {'ult': y, 'uge': y, 'ule': y + 1, 'ugt': y + 1}.get(pr)
                    if pr in ('eq', 'ne') and y == 0:
                        lim = 1
                    if lim is not None and lim > 0 and lim & (lim - 1) == 0:
                        c = c_and(c_lt(p, lim), c_lt(q, lim))
                        return c if pr in ('ult', 'ule', 'eq') else c_not(c)
        if pred in ('eq', 'ne'):
            ra = a if isinstance(a, int) else (self.p2i(st, a).p if isinstance(a, Ptr) else a)
            rb = b
            if isinstance(a, S) and isinstance(b, S) and a.p == b.p:
                return pred == 'eq'
            pa, pb = self.canon(st, a), self.canon(st, b)
            c = c_eq(pa, pb)
            return c if pred == 'eq' else c_not(c)
        if pred[0] == 'u':
            pa, pb = self.canon(st, a), self.canon(st, b)
        else:
            pa, pb = self.sval(st, a, w), self.sval(st, b, w)
        k = pred[1:]
        if k == 'lt':
            return c_lt(pa, pb)
        if k == 'le':
            return c_le(pa, pb)
        if k == 'gt':
            return c_lt(pb, pa)
        return c_le(pb, pa)

    def catcmp(self, st, pred, w, a, b):
        """comparisons of float bit patterns (to_bits comparisons, is_zero tests)"""
        try:
            if isinstance(a, Cat):
                a = self.cat2int(a)
            if isinstance(b, Cat):
                b = self.cat2int(b)
        except Unsupported:
            return None
        if isinstance(a, ft.FT) and isinstance(b, int) and pred in ('eq', 'ne'):
            if a.op == 'const':
                return (a.a[0] == b) == (pred == 'eq')
            key = ('bits', a.id, b)
            self.fcond[key] = ('bits', a, b)
            return ('f', key, pred == 'ne')
        return None

    def xnor(self, st, x, y):
        if isinstance(x, bool):
            return y if x else c_not(y)
        if isinstance(y, bool):
            return x if y else c_not(x)
        if x == y:
            return True
        return c_or(c_and(x, y), c_and(c_not(x), c_not(y)))

    # ------------------------------------------------------------------ pointers
    def basep(self, st, oid):
        o = st.objs[oid]
        if o.base is None:
            o = self.wobj(st, oid)
            o.base = new_atom('base_' + o.name, 64, 1 << 56)
        return pscale(o.base, 64)

    def p2i(self, st, p):
        if p.o is None:
            return self.mkint(p.off, 64)
        return S(padd(self.basep(st, p.o), p.off), 64)

    def i2p(self, st, v):
        if isinstance(v, int):
            return Ptr(None, v)
        if isinstance(v, Ptr):
            return v
        if isinstance(v, S):
            for oid, o in st.objs.items():
                if o.base is not None:
                    m = next(iter(o.base.t))
                    if v.p.t.get(m) == 64:
                        return Ptr(oid, psub(v.p, pscale(o.base, 64)))
        return Ptr(None, v.p if isinstance(v, S) else v)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            return (pred == 'ne')
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer comparison %r %r' % (a, b))
        if a.o == b.o:
            d = psub(a.off, b.off)
            if pred in ('eq', 'ne'):
                if is_c(d):
                    r = d % (1 << 64) == 0
                    return r if pred == 'eq' else not r
                c = c_eq(self.canon_p(st, a.off, 64), self.canon_p(st, b.off, 64))
                return c if pred == 'eq' else c_not(c)
            pa, pb = self.canon_p(st, a.off, 64), self.canon_p(st, b.off, 64)
            return {'ult': c_lt(pa, pb), 'ule': c_le(pa, pb), 'ugt': c_lt(pb, pa), 'uge': c_le(pb, pa)}[pred]
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        return self.icmp(st, pred, ('i', 64), self.p2i(st, a), self.p2i(st, b))

    # ------------------------------------------------------------------ memory
    def newobj(self, st, name, size, kind, init, ew=None):
        o = Obj()
        o.id = st.nobj
        st.nobj += 1
        o.name = '%s%d' % (name, o.id)
        o.size, o.kind, o.init, o.ew = size, kind, init, ew
        o.segs, o.top, o.alive, o.base, o.ro = (), {}, True, None, False
        st.objs[o.id] = o
        st.own.add(o.id)
        return o

    def wobj(self, st, oid):
        o = st.objs[oid]
        if oid not in st.own:
            o = o.copy()
            st.objs[oid] = o
            st.own.add(oid)
        return o

    def access(self, st, p, n, what):
        """check that [p, p+n) lies in a live object; returns (obj id, canonical offset)"""
        if not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        if p.o is None:
            self.report(st, [], 'memory', '%s through a pointer to no object' % what)
            raise PathEnd('violation')
        o = st.objs[p.o]
        if not o.alive:
            self.report(st, [], 'memory', '%s after free' % what)
            raise PathEnd('violation')
        off = p.off
        if is_c(off):
            off %= 1 << 64
            if off >> 63:
                off -= 1 << 64
            if is_c(o.size):
                if 0 <= off and off + n <= o.size:
                    return p.o, off
                self.report(st, [], 'memory', '%s out of bounds' % what)
                raise PathEnd('violation')
            c = c_and(c_le(0, off), c_le(padd(off, n), o.size))
            if self.decide(st, c) is not True:
                self.obligation(st, c, 'memory', '%s out of bounds' % what)
            return p.o, off
        c0, c1 = c_le(0, off), c_le(padd(off, n), o.size)
        if self.decide(st, c0) is True and self.decide(st, c1) is True:
            return p.o, off
        off = self.canon_p(st, off, 64)
        c1 = c_le(padd(off, n), o.size)
        if self.decide(st, c1) is not True:
            self.obligation(st, c1, 'memory', '%s out of bounds' % what)
        return p.o, off

    def disjoint(self, st, a, na, b, nb):
        """True: equal-range, False: disjoint; forks when undecided; None: partial overlap"""
        d = psub(a, b)
        if is_c(d):
            if d == 0 and na == nb:
                return True
            if d >= nb or -d >= na:
                return False
            return None
        g = gcd_coef(d)
        if g % max(na, nb) == 0 and na == nb:
            return self.branch(st, c_eq(d, 0))
        if self.branch(st, c_or(c_le(nb, d), c_le(na, pscale(d, -1)))):
            return False
        if na == nb and self.branch(st, c_eq(d, 0)):
            return True
        return None

    def mread(self, st, o, off, n, ty):
        """value of type ty (scalar) at offset off of object o"""
        v = self.mread_raw(st, o, off, n, ty)
        return self.astype(v, ty)

    def mread_raw(self, st, o, off, n, ty):
        top = o.top
        if is_c(off):
            x = top.get(off)
            if x is not None and x[0] == n:
                return x[1]
            lst = [(top, None)]
        levels = list(o.segs) + [top]
        for seg in reversed(levels):
            if isinstance(seg, dict):
                if not seg:
                    continue
                if is_c(off):
                    x = seg.get(off)
                    if x is not None and x[0] == n:
                        return x[1]
                    hit = False
                    for k in range(off - 15, off + n):
                        c = seg.get(k)
                        if c is not None and k + c[0] > off:
                            hit = True
                            break
                    if hit:
                        return self.composite(st, o, off, n, ty)
                else:
                    for k, (cn, cv) in seg.items():
                        r = self.disjoint(st, off, n, k, cn)
                        if r is True:
                            return cv
                        if r is None:
                            raise Unsupported('partial overlap at symbolic offset')
            elif seg[0] == 'w':
                r = self.disjoint(st, off, n, seg[1], seg[2])
                if r is True:
                    return seg[3]
                if r is None:
                    raise Unsupported('partial overlap at symbolic offset')
            else:
                # range segment: ('zero', off, len) / ('copy', off, len, srcobj, srcoff) / ('fill', off, len, byte)
                so, ln = seg[1], seg[2]
                if self.branch(st, c_and(c_le(so, off), c_le(padd(off, n), padd(so, ln)))):
                    if seg[0] == 'zero':
                        return self.zero(ty)
                    return self.mread_raw(st, seg[3], padd(psub(off, so), seg[4]), n, ty)
                if not self.branch(st, c_or(c_le(padd(off, n), so), c_le(padd(so, ln), off))):
                    if is_c(off) and n > 1:
                        return self.composite(st, o, off, n, ty)
                    raise Unsupported('partial overlap with a range')
        return self.minit(st, o, off, n, ty)

    def zero(self, ty):
        if ty[0] == 'f':
            return ft.const(0, ty[1])
        if ty[0] == 'ptr':
            return Ptr(None, 0)
        return 0

    def minit(self, st, o, off, n, ty):
        k = o.init
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            if ty[0] == 'f':
                return ft.mk('mem', ('uninit:' + o.name, off), ty[1])
            return UNDEF
        if k == 'sym':
            ew = o.ew
            eb = ew // 8
            if n < eb or n % eb:
                raise Unsupported('sub-element access to a symbolic buffer')
            if is_c(off):
                ok = off % eb == 0
            else:
                ok = gcd_coef(off) % eb == 0 or self.divmod(st, off, eb)[1] == 0
            if not ok:
                raise Unsupported('misaligned access to a symbolic buffer')
            parts = [(ew, ft.mk('mem', (o.name, padd(off, i * eb)), ew)) for i in range(n // eb)]
            return parts[0][1] if len(parts) == 1 else Cat(parts)
        if k == 'const':
            v = o.ew.get(off) if is_c(off) else None
            if v is not None and v[0] == n:
                return v[1]
            if is_c(off):
                return self.composite_const(o, off, n)
            # constant table at a symbolic offset
            if ty[0] == 'f':
                return ft.mk('mem', ('const:' + o.name, off), ty[1])
            cells = sorted(o.ew.items())
            if len(cells) > 64:
                raise Unsupported('symbolic read of a large constant table')
            for a, (cn, cv) in cells:
                if cn == n and self.branch(st, c_eq(off, a)):
                    return cv
            # byte arrays
            raise Unsupported('symbolic read of a constant')
        raise Unsupported('init ' + str(k))

    def composite_const(self, o, off, n):
        bs = {}
        for a, (cn, cv) in o.ew.items():
            if a < off + n and off < a + cn:
                if isinstance(cv, ft.FT):
                    cv = cv.a[0]
                if not isinstance(cv, int):
                    raise Unsupported('composite constant')
                for i in range(cn):
                    bs[a + i] = (cv >> (8 * i)) & 255
        r = 0
        for i in range(n):
            r |= bs.get(off + i, 0) << (8 * i)
        return r

    def composite(self, st, o, off, n, ty):
        """assemble a concrete-offset read from smaller / larger cells"""
        parts = []
        p = off
        levels = list(o.segs) + [o.top]
        while p < off + n:
            cell = None
            for seg in reversed(levels):
                if isinstance(seg, dict):
                    for k in range(p, p - 16, -1):
                        c = seg.get(k)
                        if c is not None and k + c[0] > p:
                            cell = (k, c)
                            break
                    if cell:
                        break
                else:
                    break
            if cell:
                k, (cn, cv) = cell
                m = min(k + cn, off + n) - p
                x = cv
                if not (k == p and m == cn):
                    if isinstance(cv, Cat):
                        x = self.slicecat(cv.parts, (p - k) * 8, m * 8)
                    elif isinstance(cv, (S, tuple)):
                        raise Unsupported('partial read of a symbolic integer')
                    elif isinstance(cv, Ptr) or cv is UNDEF:
                        x = UNDEF
                    else:
                        x = self.sliceval(cv, cn * 8, (p - k) * 8, m * 8)
                parts.append((m * 8, x))
                p += m
            else:
                nx = off + n
                # widest piece below the next cell
                m = nx - p
                while m > 1 and any(q in seg for seg in levels if isinstance(seg, dict) for q in range(p + 1, p + m)):
                    m -= 1
                for w in (8, 4, 2, 1):
                    if w <= m:
                        break
                if o.init == 'sym' or any(not isinstance(s, dict) for s in levels):
                    x = self.mread_raw(st, o, p, w, ('i', 8 * w)) if w != n else self.minit(st, o, p, w, ('i', 8 * w))
                else:
                    x = self.minit(st, o, p, w, ('i', 8 * w))
                parts.append((8 * w, x))
                p += w
        if any(x is UNDEF for _, x in parts):
            if all(x is UNDEF for _, x in parts):
                return UNDEF
            parts = [(w, 0 if x is UNDEF else x) for w, x in parts]
        flat = []
        for w, x in parts:
            if isinstance(x, Cat):
                flat.extend(x.parts)
            else:
                flat.append((w, x))
        if len(flat) == 1:
            return flat[0][1]
        return self.mkcat(flat)

    def astype(self, v, ty):
        if v is UNDEF:
            return v
        k = ty[0]
        if k == 'f':
            if isinstance(v, ft.FT):
                if v.w != ty[1]:
                    raise Unsupported('float width')
                return v
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return ft.const(v, ty[1])
            if isinstance(v, Cat):
                if len(v.parts) == 1 and isinstance(v.parts[0][1], ft.FT):
                    return v.parts[0][1]
                v = self.cat2int(v)
                if isinstance(v, int):
                    return ft.const(v, ty[1])
            if isinstance(v, S):
                return ft.mk('bits', (v.p,), ty[1])
            raise Unsupported('float from %r' % (v,))
        if k == 'i':
            if isinstance(v, ft.FT):
                if v.op == 'const':
                    return v.a[0]
                return Cat([(v.w, v)])
            if ty[1] == 1 and isinstance(v, int):
                return bool(v)
            if isinstance(v, Cat) and len(v.parts) == 1 and isinstance(v.parts[0][1], (int, S)):
                return v.parts[0][1]
            if isinstance(v, S) and v.w != ty[1]:
                return S(v.p, ty[1], v.canon)
            return v
        if k == 'ptr':
            if isinstance(v, int):
                return Ptr(None, v)
            if isinstance(v, S):
                return v
            return v
        return v

    def load(self, st, p, ty):
        k = ty[0]
        if k == 'st':
            return [self.load(st, self.padd(p, o), t) for o, t in zip(foffsets(ty), ty[1])]
        if k in ('arr', 'vec'):
            es = tsize(ty[2])
            return [self.load(st, self.padd(p, i * es), ty[2]) for i in range(ty[1])]
        n = tsize(ty)
        oid, off = self.access(st, p, n, 'read')
        v = self.mread(st, st.objs[oid], off, n, ty)
        if k == 'ptr' and isinstance(v, S):
            v = self.i2p(st, v)
        return v

    def padd(self, p, k):
        if not isinstance(p, Ptr):
            raise Unsupported('pointer arithmetic on %r' % (p,))
        return Ptr(p.o, padd(p.off, k))

    def store(self, st, p, ty, v):
        k = ty[0]
        if k == 'st':
            for i, (o, t) in enumerate(zip(foffsets(ty), ty[1])):
                self.store(st, self.padd(p, o), t, v if v is UNDEF else v[i])
            return
        if k in ('arr', 'vec'):
            es = tsize(ty[2])
            for i in range(ty[1]):
                self.store(st, self.padd(p, i * es), ty[2], v if v is UNDEF else v[i])
            return
        n = tsize(ty)
        if isinstance(v, tuple):
            v = self.canon(st, v)
        if isinstance(v, bool):
            v = int(v)
        oid, off = self.access(st, p, n, 'write')
        if st.objs[oid].ro:
            self.report(st, [], 'memory', 'write to read-only memory')
            raise PathEnd('violation')
        o = self.wobj(st, oid)
        if isinstance(v, Cat) and all(w % 8 == 0 for w, _ in v.parts) and len(v.parts) > 1:
            q = 0
            for w, x in v.parts:
                self.mwrite(st, o, padd(off, q), w // 8, x)
                q += w // 8
            return
        if isinstance(v, Cat) and len(v.parts) == 1:
            v = v.parts[0][1]
        self.mwrite(st, o, off, n, v)

    def mwrite(self, st, o, off, n, v):
        if isinstance(v, S):
            if v.w > n * 8:
                raise Unsupported('store width')
            if v.w < n * 8:
                v = S(self.canon(st, v), n * 8, True)
        if is_c(off):
            t = o.top
            x = t.get(off)
            if x is None or x[0] != n:
                for k in range(off - 15, off + n):
                    c = t.get(k)
                    if c is not None and k + c[0] > off:
                        self.split_cell(t, k, off, n)
            t[off] = (n, v)
        else:
            o.segs = o.segs + ((o.top,) if o.top else ()) + (('w', off, n, v),)
            o.top = {}

    def split_cell(self, t, k, off, n):
        cn, cv = t.pop(k)
        if k < off:
            m = off - k
            t[k] = (m, UNDEF if cv is UNDEF or isinstance(cv, Ptr) else
                    (self.slicecat(cv.parts, 0, m * 8) if isinstance(cv, Cat) else self.sliceval(cv, cn * 8, 0, m * 8)))
        if k + cn > off + n:
            m = k + cn - off - n
            t[off + n] = (m, UNDEF if cv is UNDEF or isinstance(cv, Ptr) else
                          (self.slicecat(cv.parts, (off + n - k) * 8, m * 8) if isinstance(cv, Cat)
                           else self.sliceval(cv, cn * 8, (off + n - k) * 8, m * 8)))

    def memcpy(self, st, d, s, ln):
        n = self.canon(st, ln)
        if is_c(n):
            if n == 0:
                return
        elif self.branch(st, c_eq(n, 0)):
            return
        so, soff = self.access(st, s, n, 'read') if is_c(n) else self.access_n(st, s, n, 'read')
        do, doff = self.access(st, d, n, 'write') if is_c(n) else self.access_n(st, d, n, 'write')
        src = st.objs[so]
        if is_c(n) and is_c(soff) and is_c(doff) and n <= 512 and not src.segs and src.init != 'sym':
            cells = [(k, c) for k, c in src.top.items() if soff <= k and k + c[0] <= soff + n]
            part = any(k < soff + n and soff < k + c[0] and not (soff <= k and k + c[0] <= soff + n)
                       for k, c in src.top.items())
            if not part and src.init in ('undef',) and sum(c[0] for _, c in cells) + 0 <= n:
                o = self.wobj(st, do)
                cells = [(k - soff + doff, c) for k, c in cells]
                # uncovered bytes become undefined
                for k in [k for k, c in o.top.items() if k < doff + n and doff < k + c[0]]:
                    if k in o.top:
                        self.split_cell(o.top, k, doff, n)
                if not o.segs and o.init == 'undef':
                    for k, c in cells:
                        o.top[k] = c
                    return
                for k, c in cells:
                    self.mwrite(st, o, k, c[0], c[1])
                if sum(c[0] for _, c in cells) == n:
                    return
        snap = src.copy()
        o = self.wobj(st, do)
        o.segs = o.segs + ((o.top,) if o.top else ()) + (('copy', doff, n, snap, soff),)
        o.top = {}

    def access_n(self, st, p, n, what):
        if p.o is None or not st.objs[p.o].alive:
            self.report(st, [], 'memory', '%s through a dead or null pointer' % what)
            raise PathEnd('violation')
        o = st.objs[p.o]
        off = self.canon_p(st, p.off, 64)
        c = c_le(padd(off, n), o.size)
        if self.decide(st, c) is not True:
            self.obligation(st, c, 'memory', '%s out of bounds' % what)
        return p.o, off

    def memset(self, st, d, byte, ln):
        n = self.canon(st, ln)
        if is_c(n):
            if n == 0:
                return
        elif self.branch(st, c_eq(n, 0)):
            return
        oid, off = self.access_n(st, d, n, 'write')
        if byte != 0:
            if is_c(n) and is_c(off) and n <= 4096 and isinstance(byte, int):
                o = self.wobj(st, oid)
                for i in range(n):
                    self.mwrite(st, o, off + i, 1, byte)
                return
            raise Unsupported('memset with %r' % (byte,))
        o = self.wobj(st, oid)
        o.segs = o.segs + ((o.top,) if o.top else ()) + (('zero', off, n),)
        o.top = {}

    # ------------------------------------------------------------------ reporting
    def obligation(self, st, c, kind, msg):
        """c must hold: report a candidate when it can fail, then continue assuming it"""
        d = self.decide(st, c)
        if d is True:
            return
        r, m = self.solver.check(st.pc, [c_not(c)])
        if r == 'unsat':
            return
        if r == 'sat':
            self.report(st, [c_not(c)], kind, msg)
        else:
            self.inconclusive.append((kind, msg, 'solver unknown'))
        if not self.add(st, c):
            raise PathEnd('violation')

    def report(self, st, extra, kind, msg, fcells=None):
        key = (kind, msg)
        n = self.viol_keys.get(key, 0)
        self.viol_keys[key] = n + 1
        if n >= self.opts.get('max_cand', 6):
            return
        mdl = self.full_model(st, extra)
        if mdl is None:
            self.inconclusive.append((kind, msg, 'no model'))
            return
        self.t_viol = self.t_viol or time.time()
        self.viol.append({'kind': kind, 'msg': msg, 'inputs': self.inputs_of(st, mdl, fcells), 'trace': list(st.trace)})

    def full_model(self, st, extra, tries=24):
        words = [i[1] for i in st.inputs if i[0] == 'word']
        if not words:
            return self.full_model0(st, extra)
        # random words such that the path's float conditions hold as well
        import random
        rng = random.Random(1)
        base = self.full_model0(st, extra, 1)
        if base is None:
            return None
        for t in range(tries):
            cs = list(extra)
            for p in words:
                v = rng.getrandbits(64)
                if t > 7 and rng.random() < 0.5:
                    v &= ~0xff
                cs.append(c_eq(p, v))
            m = self.full_model0(st, cs, 2)
            if m is not None and self.fp_holds(st, m):
                return m
        return None

    def fp_holds(self, st, m):
        ins = {'cells': []}
        for c in st.fpc:
            p, a, b = self.fcond[c[1]]
            x = self.fval(a, m, ins, st)
            if x is None:
                return False
            if p == 'bits':
                r = x == b
            else:
                y = self.fval(b, m, ins, st)
                if y is None:
                    return False
                r = ft.fcmp_c(p, ft.bits2f(x, a.w), ft.bits2f(y, b.w))
            if bool(r) == bool(c[2]):
                return False
        return True

    def full_model0(self, st, extra, steps=9):
        """model of the whole path condition, preferring small input values"""
        ins = []
        for i in st.inputs:
            if i[0] == 'any' and isinstance(i[1], Poly):
                ins.append(i[1])
        for b in (3, 6, 12, 40, 300, 1 << 16, 1 << 33)[:steps]:
            small = [c for c in (c_le(p, b) for p in ins) if c is not True]
            r, m = self.solver.check(st.pc, list(extra) + small + st.pc, timeout=3000)
            if r == 'sat' and m is not None:
                return m
            if not small:
                break
        r, m = self.solver.check(st.pc, list(extra) + st.pc, timeout=20000)
        if r == 'sat':
            return m
        return None

    def val(self, p, m):
        if is_c(p):
            return p
        d = {}
        for i in p.atoms():
            x = m.get(i)
            if x is None:
                a = ATOMS[i]
                x = m[i] = max(a.lo if a.lo is not None else 0, min(2, a.hi if a.hi is not None else 2))
            d[i] = x
        return peval(p, d)

    def inputs_of(self, st, m, fcells=None):
        out = []
        for i in st.inputs:
            if i[0] in ('any', 'word'):
                out.append(['any', self.val(i[1], m)])
            elif i[0] == 'pick':
                out.append(['pick', i[1]])
            elif i[0] == 'buf':
                out.append(['buf', i[1], self.val(i[2], m), i[3]])
            elif i[0] == 'fany':
                out.append(['fany', i[1], i[2]])
        cells = []
        if fcells is None and st.fpc and not self.opts.get('fp_nofeas'):
            r, fcells = self.fp_check(st, [], timeout=5000)
        if fcells:
            names = {i[4]: i[3] for i in st.inputs if i[0] == 'buf'}
            for t, bits in fcells.items():
                if bits is None:
                    continue
                if t.op == 'mem' and t.a[0] in names:
                    cells.append(['cell', names[t.a[0]], self.val(t.a[1], m) // (t.w // 8), t.w, bits])
                elif t.op == 'var':
                    cells.append(['fvar', t.a[0], t.w, bits])
        return {'ins': out, 'cells': cells}

    # ------------------------------------------------------------------ operands
    def ev(self, st, fr, op, ty):
        k = op[0]
        if k == 'r':
            try:
                return fr.regs[op[1]]
            except KeyError:
                raise Unsupported('register ' + op[1])
        if k == 'c':
            v = op[1]
            if isinstance(v, bool):
                return v
            if ty[0] == 'i' and ty[1] == 1:
                return bool(v)
            return v & ((1 << ty[1]) - 1)
        if k == 'fb':
            return ft.const(op[1], ty[1])
        if k == 'g':
            return self.glob(st, op[1])
        if k == 'null':
            return Ptr(None, 0)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zeroinit(op[1])
        if k == 'agg':
            return [self.ev(st, fr, x, t) for t, x in op[1]]
        if k == 'bytes':
            return list(op[1])
        if k == 'i2p':
            return self.i2p(st, self.ev(st, fr, op[2], op[1]))
        if k == 'p2i':
            return self.p2i(st, self.ev(st, fr, op[1], ('ptr',)))
        if k == 'gepc':
            return self.gep(st, fr, op[1], self.ev(st, fr, op[2], ('ptr',)),
                            [(t, self.ev(st, fr, x, t)) for t, x in op[3]])
        raise Unsupported('operand ' + k)

    def zeroinit(self, ty):
        if ty[0] == 'st':
            return [self.zeroinit(t) for t in ty[1]]
        if ty[0] in ('arr', 'vec'):
            return [self.zeroinit(ty[2])] * ty[1]
        if ty == ('i', 1):
            return False
        return self.zero(ty)

    def glob(self, st, name):
        if name in self.mod.funcs or (name in self.mod.decls and name not in self.mod.globals):
            return Fn(name)
        key = 'g:' + name
        oid = st.counters.get(key)
        if oid is None:
            if name not in self.mod.globals:
                raise Unsupported('global ' + name)
            r = self.mod.global_init(name)
            ty, init, const = r
            if init is None:
                raise Unsupported('external global ' + name)
            o = self.newobj(st, 'glob', tsize(ty), 'global', 'const', None)
            cells = {}
            o.ew = cells
            st.counters[key] = o.id
            self.ginit(st, cells, 0, ty, init)
            if not const:
                o.init = 'undef'
                o.top = {a: c for a, c in cells.items()}
            o.ro = const
            o.name = 'glob:' + name[-40:]
            oid = o.id
        return Ptr(oid, 0)

    def ginit(self, st, cells, off, ty, v):
        k = v[0]
        if k == 'zero':
            n = tsize(ty)
            if ty[0] in ('st',):
                for o, t in zip(foffsets(ty), ty[1]):
                    self.ginit(st, cells, off + o, t, ('zero', t))
            elif ty[0] in ('arr', 'vec'):
                es = tsize(ty[2])
                for i in range(ty[1]):
                    self.ginit(st, cells, off + i * es, ty[2], ('zero', ty[2]))
            else:
                cells[off] = (n, self.zero(ty))
            return
        if k == 'undef':
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty[0] == 'st':
                for o, (t, x) in zip(foffsets(ty), v[1]):
                    self.ginit(st, cells, off + o, t, x)
            else:
                es = tsize(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    self.ginit(st, cells, off + i * es, t, x)
            return
        x = self.ev(st, None, v, ty)
        if isinstance(x, bool):
            x = int(x)
        cells[off] = (tsize(ty), x)

    def gep(self, st, fr, bt, base, idx):
        if isinstance(base, int):
            base = Ptr(None, base)
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = bt
        first = True
        for it, v in idx:
            if first:
                es = tsize(t)
                first = False
            else:
                if t[0] == 'st':
                    off = padd(off, foffsets(t)[v])
                    t = t[1][v]
                    continue
                es = tsize(t[2])
                t = t[2]
            if isinstance(v, int):
                off = padd(off, self.sgn(v, it[1]) * es)
            else:
                if it[1] == 64:
                    if isinstance(v, Ptr):
                        v = self.p2i(st, v)
                    if isinstance(v, Cat):
                        v = self.cat2int(v)
                    if v is UNDEF:
                        raise Unsupported('undef index')
                    off = padd(off, pscale(self.raw(v), es))
                else:
                    off = padd(off, pscale(self.sval(st, v, it[1]), es))
        return Ptr(base.o, off)

    # ------------------------------------------------------------------ main loop
    def start(self, name):
        st = State()
        st.frames = []
        st.objs = {}
        st.own = set()
        st.pc = []
        st.known = {}
        st.model = {}
        st.divc = {}
        st.canonc = {}
        st.inputs = []
        st.panic_ok = False
        st.eqs = []
        st.nobj = 0
        st.fpc = []
        st.done = 0
        st.hints = []
        st.steps = 0
        st.nbuf = 0
        st.trace = []
        st.counters = {}
        self.push(st, name, [], None)
        return st

    def push(self, st, name, args, dst):
        fn = self.mod.parse(self.mod.funcs[name])
        self.funcs.add(name)
        f = Frame()
        f.fn = fn
        f.regs = {}
        for (t, n), v in zip(fn.params, args):
            f.regs[n] = v
        f.blk = fn.entry
        f.ip = 0
        f.prev = None
        f.dst = dst
        f.allocas = []
        st.frames.append(f)
        if len(st.frames) > 200:
            raise Unsupported('call depth')

    def run(self, name):
        stack = [self.start(name)]
        while stack:
            if self.deadline and time.time() > self.deadline:
                self.inconclusive.append(('budget', 'time budget exhausted', '%d paths left' % len(stack)))
                break
            if len(self.inconclusive) >= 200:
                break
            cut = self.viol and not self.opts.get('no_cut')
            if cut and len(self.viol) >= 40:
                break
            if cut and self.t_viol and time.time() > self.t_viol + 60:
                break
            if self.npaths >= self.max_paths:
                self.inconclusive.append(('budget', 'path budget exhausted', ''))
                break
            st = stack.pop()
            try:
                self.go(st)
                self.finish(st, 'end', '')
            except Fork as f:
                kids = []
                for c in f.conds:
                    k = st.clone()
                    if self.add(k, c):
                        kids.append(k)
                stack.extend(reversed(kids))
            except PathEnd as e:
                self.finish(st, e.outcome, e.detail)
            except Unsupported as e:
                fr = st.frames[-1]
                self.npaths += 1
                self.inconclusive.append(('unsupported', str(e)[:300], fr.fn.name[:80]))
            except PickFork as f:
                for v in reversed(f.vals):
                    k = st.clone()
                    fr = k.frames[-1]
                    if f.dst:
                        fr.regs[f.dst] = v
                    fr.ip += 1
                    k.inputs.append((f.kind, v))
                    stack.append(k)

    def finish(self, st, outcome, detail):
        if outcome == 'infeasible':
            return
        self.npaths += 1
        if outcome == 'panic' and not st.panic_ok:
            self.report(st, [], 'panic', 'unexpected panic: ' + detail)
            outcome = 'violation'
        if outcome == 'ub':
            self.report(st, [], 'ub', detail)
            outcome = 'violation'
        self.paths[outcome] = self.paths.get(outcome, 0) + 1
        if outcome in ('end', 'panic'):
            if outcome == 'end' and st.done:
                self.paths['done'] = self.paths.get('done', 0) + 1
            key = (outcome, st.done)
            n = sum(1 for w in self.witness if w['key'] == list(key))
            if n < self.max_witness and not self.opts.get('no_witness'):
                m = self.full_model(st, [], 4) if st.inputs else {}
                if m is not None:
                    ins = self.inputs_of(st, m)
                    eqs = []
                    for (kind, a, b, msg) in st.eqs[:40]:
                        eqs.append([kind, self.fval(a, m, ins, st), self.fval(b, m, ins, st)])
                    self.witness.append({'key': list(key), 'inputs': ins, 'outcome': outcome, 'eqs': eqs,
                                         'neq': len(st.eqs)})

    def fval(self, t, m, ins, st):
        """bit pattern of the term under the model and generic buffer contents, or None"""
        from gen import gen_bits, gen_var
        names = {i[4]: i[3] for i in st.inputs if i[0] == 'buf'}
        over = {(c[1], c[2]): c[4] for c in ins['cells'] if c[0] == 'cell'}
        vover = {c[1]: c[3] for c in ins['cells'] if c[0] == 'fvar'}

        def leaf(x):
            if x.op == 'mem' and x.a[0] in names:
                idx = self.val(x.a[1], m) // (x.w // 8)
                b = over.get((names[x.a[0]], idx))
                if b is None:
                    b = gen_bits(names[x.a[0]], idx, x.w)
                return ft.bits2f(b, x.w)
            if x.op == 'var':
                b = vover.get(x.a[0])
                return ft.bits2f(b if b is not None else gen_var(x.a[0], x.w), x.w)
            if x.op == 'i2f':
                return ft.rnd(float(self.val(x.a[0], m)), x.w)
            if x.op == 'mem' and x.a[0].startswith('const:'):
                for o in st.objs.values():
                    if 'const:' + o.name == x.a[0]:
                        return ft.bits2f(self.composite_const(o, self.val(x.a[1], m), x.w // 8), x.w)
            if x.op == 'bits':
                return ft.bits2f(self.val(x.a[0], m) & ((1 << x.w) - 1), x.w)
            raise NotImplementedError
        try:
            return ft.f2bits(ft.feval(t, leaf), t.w)
        except (NotImplementedError, TypeError, OverflowError, KeyError):
            return None

    def go(self, st):
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            ins = blk[fr.ip]
            st.steps += 1
            self.nsteps += 1
            if st.steps > self.max_steps:
                raise Unsupported('step budget (unbounded loop?)')
            if self.nsteps % 256 == 0 and self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget')
            op = ins[0]
            f = getattr(self, 'i_' + op, None)
            if f is None:
                raise Unsupported(op if op != 'unsupported' else ins[2])
            if f(st, fr, ins):
                return

    def jump(self, fr, lab):
        fr.prev = fr.blk
        fr.blk = lab
        fr.ip = 0
        blk = fr.fn.blocks[lab]
        vals = []
        i = 0
        while blk[i][0] == 'phi':
            _, dst, ty, inc = blk[i]
            vals.append((dst, self.ev(None, fr, inc[fr.prev], ty)) if inc[fr.prev][0] in ('r', 'c', 'fb', 'undef', 'null', 'zero')
                        else (dst, self.ev(self._cur, fr, inc[fr.prev], ty)))
            i += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.ip = i

    _cur = None

    def i_br(self, st, fr, ins):
        self._cur = st
        self.jump(fr, ins[2])

    def i_condbr(self, st, fr, ins):
        c = self.ev(st, fr, ins[2], ('i', 1))
        if c is UNDEF:
            raise Unsupported('branch on undef')
        if isinstance(c, S):
            c = c_not(c_eq(self.canon(st, c), 0))
        self._cur = st
        self.jump(fr, ins[3] if self.branch(st, c) else ins[4])

    def i_switch(self, st, fr, ins):
        _, _, v, t, d, cases = ins
        x = self.ev(st, fr, v, t)
        self._cur = st
        if isinstance(x, Cat):
            x = self.cat2int(x)
        p = self.canon(st, x)
        m = (1 << t[1]) - 1
        if is_c(p):
            p = int(p)
            for cv, lab in cases:
                if (int(cv) & m) == p:
                    return self.jump(fr, lab)
            return self.jump(fr, d)
        for cv, lab in cases:
            if self.branch(st, c_eq(p, int(cv) & m)):
                return self.jump(fr, lab)
        return self.jump(fr, d)

    def i_ret(self, st, fr, ins):
        v = self.ev(st, fr, ins[2], ins[3]) if ins[2] is not None else None
        for a in fr.allocas:
            self.wobj(st, a).alive = False
        st.frames.pop()
        if not st.frames:
            return True
        p = st.frames[-1]
        if fr.dst:
            p.regs[fr.dst] = v
        p.ip += 1

    def i_unreachable(self, st, fr, ins):
        raise PathEnd('ub', 'unreachable code reached')

    def i_bin(self, st, fr, ins):
        _, dst, op, t, a, b, fl = ins
        x, y = self.ev(st, fr, a, t), self.ev(st, fr, b, t)
        fr.regs[dst] = self.bin_t(st, op, t, x, y)
        fr.ip += 1

    def bin_t(self, st, op, t, x, y):
        if t[0] == 'vec':
            if x is UNDEF or y is UNDEF:
                return UNDEF
            return [self.bin_t(st, op, t[2], p, q) for p, q in zip(x, y)]
        if t[1] == 1:
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if isinstance(x, int) and not isinstance(x, bool):
                x = bool(x)
            if isinstance(y, int) and not isinstance(y, bool):
                y = bool(y)
            if op == 'and' or op == 'mul':
                return c_and(x, y)
            if op == 'or':
                return c_or(x, y)
            if op in ('xor', 'add', 'sub'):
                return c_not(self.xnor(st, x, y))
            raise Unsupported('i1 ' + op)
        return self.binop(st, op, t[1], x, y)

    def i_fbin(self, st, fr, ins):
        _, dst, op, t, a, b = ins
        x, y = self.ev(st, fr, a, t), self.ev(st, fr, b, t)
        if t[0] == 'vec':
            fr.regs[dst] = [self.fb(op, p, q, t[2][1]) for p, q in zip(x, y)]
        else:
            fr.regs[dst] = self.fb(op, x, y, t[1])
        fr.ip += 1

    def fb(self, op, x, y, w):
        if x is UNDEF:
            x = ft.mk('mem', ('uninit:undef', 0), w)
        if y is UNDEF:
            y = ft.mk('mem', ('uninit:undef', 0), w)
        return ft.fbin(op, x, y, w)

    def i_fneg(self, st, fr, ins):
        _, dst, t, a = ins
        x = self.ev(st, fr, a, t)
        fr.regs[dst] = [ft.fun('fneg', e, t[2][1]) for e in x] if t[0] == 'vec' else ft.fun('fneg', x, t[1])
        fr.ip += 1

    def i_icmp(self, st, fr, ins):
        _, dst, pred, t, a, b = ins
        x, y = self.ev(st, fr, a, t), self.ev(st, fr, b, t)
        if t[0] == 'vec':
            fr.regs[dst] = [self.icmp(st, pred, t[2], p, q) for p, q in zip(x, y)]
        else:
            fr.regs[dst] = self.icmp(st, pred, t, x, y)
        fr.ip += 1

    def i_fcmp(self, st, fr, ins):
        _, dst, pred, t, a, b = ins
        x, y = self.ev(st, fr, a, t), self.ev(st, fr, b, t)
        if t[0] == 'vec':
            fr.regs[dst] = [self.fcmp(st, pred, p, q) for p, q in zip(x, y)]
        else:
            fr.regs[dst] = self.fcmp(st, pred, x, y)
        fr.ip += 1

    def i_phi(self, st, fr, ins):
        raise Unsupported('phi in the middle of a block')

    def i_select(self, st, fr, ins):
        _, dst, ct, c, t, a, b = ins
        cv = self.ev(st, fr, c, ct)
        x, y = self.ev(st, fr, a, t), self.ev(st, fr, b, t)
        if ct[0] == 'vec':
            fr.regs[dst] = [p if self.branch(st, k) else q for k, p, q in zip(cv, x, y)]
        elif t == ('i', 1):
            if cv is UNDEF:
                raise Unsupported('select on undef')
            if y is UNDEF or x is UNDEF:
                fr.regs[dst] = x if self.branch(st, cv) else y
            else:
                fr.regs[dst] = c_or(c_and(cv, x), c_and(c_not(cv), y)) if not isinstance(cv, bool) else (x if cv else y)
        else:
            if cv is UNDEF:
                raise Unsupported('select on undef')
            fr.regs[dst] = x if self.branch(st, cv) else y
        fr.ip += 1

    def i_freeze(self, st, fr, ins):
        v = self.ev(st, fr, ins[3], ins[2])
        fr.regs[ins[1]] = v
        fr.ip += 1

    def i_cast(self, st, fr, ins):
        _, dst, op, t, a, t2 = ins
        v = self.ev(st, fr, a, t)
        if t[0] == 'vec' and op != 'bitcast':
            fr.regs[dst] = [self.cast(st, op, t[2], e, t2[2]) for e in v]
        else:
            fr.regs[dst] = self.cast(st, op, t, v, t2)
        fr.ip += 1

    def cast(self, st, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        if op == 'zext':
            if t[1] == 1:
                if isinstance(v, bool):
                    return int(v)
                if isinstance(v, tuple):
                    return 1 if self.branch(st, v) else 0
            if isinstance(v, int):
                return int(v)
            if isinstance(v, Cat):
                return Cat(list(v.parts) + [(t2[1] - t[1], 0)])
            return S(self.canon(st, v), t2[1], True)
        if op == 'sext':
            if t[1] == 1:
                return ((1 << t2[1]) - 1) if self.branch(st, v) else 0
            if isinstance(v, int):
                return self.sgn(v, t[1]) & ((1 << t2[1]) - 1)
            return self.mkint(self.sval(st, v, t[1]), t2[1])
        if op == 'trunc':
            if isinstance(v, Ptr):
                v = self.p2i(st, v)
            if t2[1] == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                p = self.canon(st, v)
                if self.decide(st, c_le(p, 1)) is True:
                    return c_eq(p, 1)
                q, r = self.divmod(st, p, 2)
                return c_eq(r, 1)
            if isinstance(v, int):
                return v & ((1 << t2[1]) - 1)
            if isinstance(v, Cat):
                out, left = [], t2[1]
                for w, x in v.parts:
                    if left <= 0:
                        break
                    m = min(w, left)
                    out.append((m, self.sliceval(x, w, 0, m)))
                    left -= m
                return self.mkcat(out)
            return S(v.p, t2[1])
        if op == 'bitcast':
            return self.bitcast(st, t, v, t2)
        if op in ('ptrtoint', 'ptrtoaddr'):
            if isinstance(v, Fn):
                raise Unsupported('function address')
            return self.p2i(st, v)
        if op == 'inttoptr':
            return self.i2p(st, v)
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, (bool, tuple)):
                v = 1 if self.branch(st, v) else 0
            if isinstance(v, int):
                x = v if op == 'uitofp' else self.sgn(v, t[1])
                return ft.const(ft.f2bits(float(x), t2[1]), t2[1]) if t2[1] == 64 else ft.const(ft.f2bits(
                    i2f32(x), 32), 32)
            p = self.canon(st, v) if op == 'uitofp' else self.sval(st, v, t[1])
            return ft.mk('i2f', (p,), t2[1])
        if op in ('fpext', 'fptrunc'):
            return ft.fconv(v, t2[1])
        if op in ('fptoui', 'fptosi'):
            return self.f2i(st, v, t2[1], op == 'fptosi', False)
        raise Unsupported('cast ' + op)

    def bitcast(self, st, t, v, t2):
        def flat(t, v):
            if t[0] == 'vec':
                out = []
                for e in v:
                    out += flat(t[2], e)
                return out
            if isinstance(v, Cat):
                return list(v.parts)
            return [(tsize(t) * 8 if t[0] != 'i' else t[1], v)]

        def take(parts, t):
            if t[0] == 'vec':
                return [take(parts, t[2]) for _ in range(t[1])]
            w = t[1] if t[0] in 'if' else 64
            out = []
            need = w
            while need:
                pw, x = parts.pop(0)
                if pw > need:
                    parts.insert(0, (pw - need, self.sliceval(x, pw, need, pw - need)))
                    x = self.sliceval(x, pw, 0, need)
                    pw = need
                out.append((pw, x))
                need -= pw
            if len(out) == 1:
                return self.astype(out[0][1], t)
            return self.astype(self.mkcat(out), t)
        return take(flat(t, v), t2)

    def f2i(self, st, v, w, signed, sat):
        if v.op == 'const':
            x = ft.bits2f(v.a[0], v.w)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if x != x:
                r = 0
            elif x >= hi:
                r = hi
            elif x <= lo:
                r = lo
            else:
                r = int(x)
            return r & ((1 << w) - 1)
        import fpreal
        return fpreal.to_int(self, st, v, w, signed, sat)

    def i_alloca(self, st, fr, ins):
        _, dst, t, n = ins
        k = 1
        if n is not None:
            k = self.conc(st, self.ev(st, fr, n, ('i', 64)), 'alloca size')
        o = self.newobj(st, 'stack', tsize(t) * k, 'stack', 'undef')
        fr.allocas.append(o.id)
        fr.regs[dst] = Ptr(o.id, 0)
        fr.ip += 1

    def i_load(self, st, fr, ins):
        _, dst, t, a = ins
        fr.regs[dst] = self.load(st, self.ev(st, fr, a, ('ptr',)), t)
        fr.ip += 1

    def i_store(self, st, fr, ins):
        _, _, t, v, a = ins
        self.store(st, self.ev(st, fr, a, ('ptr',)), t, self.ev(st, fr, v, t))
        fr.ip += 1

    def i_gep(self, st, fr, ins):
        _, dst, bt, base, idx = ins
        fr.regs[dst] = self.gep(st, fr, bt, self.ev(st, fr, base, ('ptr',)),
                                [(t, self.ev(st, fr, x, t)) for t, x in idx])
        fr.ip += 1

    def i_extractvalue(self, st, fr, ins):
        _, dst, t, a, _, ix = ins
        v = self.ev(st, fr, a, t)
        for i in ix:
            v = UNDEF if v is UNDEF else v[i]
        fr.regs[dst] = v
        fr.ip += 1

    def i_insertvalue(self, st, fr, ins):
        _, dst, t, a, x, ix = ins
        tt_ = t
        for i in ix:
            tt_ = tt_[1][i] if tt_[0] == 'st' else tt_[2]
        v = self.ev(st, fr, a, t)
        e = self.ev(st, fr, x, tt_)

        def ins_(v, t, ix):
            if not ix:
                return e
            n = len(t[1]) if t[0] == 'st' else t[1]
            l = [UNDEF] * n if v is UNDEF else list(v)
            sub = t[1][ix[0]] if t[0] == 'st' else t[2]
            l[ix[0]] = ins_(l[ix[0]], sub, ix[1:])
            return l
        fr.regs[dst] = ins_(v, t, ix)
        fr.ip += 1

    def i_extractelement(self, st, fr, ins):
        _, dst, t, a, i = ins
        v = self.ev(st, fr, a, t)
        k = self.conc(st, self.ev(st, fr, i, ('i', 64)), 'vector index')
        fr.regs[dst] = UNDEF if v is UNDEF else v[k]
        fr.ip += 1

    def i_insertelement(self, st, fr, ins):
        _, dst, t, a, e, i = ins
        v = self.ev(st, fr, a, t)
        l = [UNDEF] * t[1] if v is UNDEF else list(v)
        k = self.conc(st, self.ev(st, fr, i, ('i', 64)), 'vector index')
        l[k] = self.ev(st, fr, e, t[2])
        fr.regs[dst] = l
        fr.ip += 1

    def i_shufflevector(self, st, fr, ins):
        _, dst, t, a, b, mt, m = ins
        x, y = self.ev(st, fr, a, t), self.ev(st, fr, b, t)
        x = [UNDEF] * t[1] if x is UNDEF else x
        y = [UNDEF] * t[1] if y is UNDEF else y
        mask = self.ev(st, fr, m, mt)
        if mask is UNDEF:
            mask = [UNDEF] * mt[1]
        al = list(x) + list(y)
        fr.regs[dst] = [UNDEF if k is UNDEF else al[k] for k in mask]
        fr.ip += 1

    # ------------------------------------------------------------------ calls
    def i_call(self, st, fr, ins):
        _, dst, rt, callee, args, nr, txt = ins
        if callee[0] == 'g':
            name = callee[1]
        else:
            v = self.ev(st, fr, callee, ('ptr',))
            if not isinstance(v, Fn):
                raise Unsupported('indirect call')
            name = v.name
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, dst, rt, name, args)
        if name.startswith('vf_'):
            vals = [self.ev(st, fr, x, t) for t, x in args]
            r = getattr(self, name)(st, fr, vals, dst)
            if dst:
                fr.regs[dst] = r
            fr.ip += 1
            return
        if nr and not (name in self.mod.funcs and False):
            raise PathEnd('panic', nice(name))
        g = gemm_kind(name)
        if g:
            import gemm
            vals = [self.ev(st, fr, x, t) for t, x in args]
            gemm.call(self, st, g, vals, [t for t, _ in args])
            fr.ip += 1
            return
        h = self.libfn(name)
        if h:
            vals = [self.ev(st, fr, x, t) for t, x in args]
            r = h(st, vals)
            if dst:
                fr.regs[dst] = r
            fr.ip += 1
            return
        if name in self.mod.funcs:
            vals = [self.ev(st, fr, x, t) for t, x in args]
            self.push(st, name, vals, dst)
            return
        raise Unsupported('external function ' + nice(name))

    def libfn(self, name):
        if name in ('exp', 'log', 'llvm.exp.f64'):
            return lambda st, a: ft.fun(name, a[0], 64)
        if name in ('atan2', 'atan2f'):
            return lambda st, a: ft.fbin('atan2', a[0], a[1], 64 if name == 'atan2' else 32)
        if 'rust_no_alloc_shim' in name:
            return lambda st, a: None
        if '___rust_alloc_zeroed' in name or '__rust_alloc_zeroed' in name:
            return lambda st, a: self.alloc(st, a[0], True)
        if '___rust_alloc' in name or name == '__rust_alloc':
            return lambda st, a: self.alloc(st, a[0], False)
        if '___rust_dealloc' in name or name == '__rust_dealloc':
            return self.dealloc
        if '___rust_realloc' in name or name == '__rust_realloc':
            return self.realloc
        if name in ('memcpy', 'memmove'):
            return lambda st, a: self.memcpy(st, a[0], a[1], a[2]) or a[0]
        if name == 'memset':
            return lambda st, a: self.memset(st, a[0], a[1], a[2]) or a[0]
        return None

    def alloc(self, st, size, zero):
        n = self.canon(st, size)
        st.counters['heap_n'] = st.counters.get('heap_n', 0) + 1
        st.counters['heap_b'] = padd(st.counters.get('heap_b', 0), n)
        o = self.newobj(st, 'heap', n, 'heap', 'zero' if zero else 'undef')
        return Ptr(o.id, 0)

    def dealloc(self, st, a):
        p = a[0]
        if p.o is None or not st.objs[p.o].alive or st.objs[p.o].kind != 'heap':
            self.report(st, [], 'memory', 'invalid free')
            raise PathEnd('violation')
        self.wobj(st, p.o).alive = False

    def realloc(self, st, a):
        p, old, align, new = a
        q = self.alloc(st, new, False)
        o, n = self.canon(st, old), self.canon(st, new)
        m = o if self.branch(st, c_le(o, n)) else n
        self.memcpy(st, q, p, self.mkint(m, 64, True))
        self.wobj(st, p.o).alive = False
        return q

    def intrinsic(self, st, fr, dst, rt, name, args):
        base = name[5:]
        if base.startswith(('lifetime', 'experimental.noalias', 'dbg', 'donothing', 'sideeffect', 'invariant',
                            'prefetch', 'stacksave', 'stackrestore')):
            if dst:
                fr.regs[dst] = UNDEF
            fr.ip += 1
            return
        if base.startswith('trap'):
            raise PathEnd('panic', 'trap')
        vals = [self.ev(st, fr, x, t) for t, x in args]
        fr2 = fr
        r = self.intr(st, base, rt, vals, [t for t, _ in args])
        if dst:
            fr2.regs[dst] = r
        fr2.ip += 1

    def intr(self, st, base, rt, v, ts):
        if base.startswith('assume'):
            c = v[0]
            if c is UNDEF:
                raise Unsupported('assume undef')
            if self.decide(st, c) is not True:
                if isinstance(c, tuple) and c[0] == 'f':
                    if not self.add(st, c):
                        raise PathEnd('infeasible')
                else:
                    self.obligation(st, c, 'ub', 'compiler assumption violated (unchecked access precondition)')
            return None
        if base.startswith('expect') or base.startswith('ssa.copy') or base.startswith('launder') or base.startswith('strip'):
            return v[0]
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow', base)
        if m:
            w = ts[0][1]
            if v[0] is UNDEF or v[1] is UNDEF:
                raise Unsupported('overflow op on undef')
            f = {'add': padd, 'sub': psub, 'mul': pmul}[m.group(2)]
            if m.group(1) == 'u':
                a, b = self.canon(st, v[0]), self.canon(st, v[1])
                p = f(a, b)
                ok = c_and(c_le(0, p), c_lt(p, 1 << w))
            else:
                a, b = self.sval(st, v[0], w), self.sval(st, v[1], w)
                p = f(a, b)
                ok = c_and(c_le(-(1 << (w - 1)), p), c_lt(p, 1 << (w - 1)))
            return [self.mkint(p, w), c_not(ok)]
        m = re.match(r'([us])(min|max)\.', base)
        if m:
            if ts[0][0] == 'vec':
                return [self.intr(st, base, rt[2], [p, q], [ts[0][2]] * 2) for p, q in zip(v[0], v[1])]
            w = ts[0][1]
            if m.group(1) == 'u':
                a, b = self.canon(st, v[0]), self.canon(st, v[1])
            else:
                a, b = self.sval(st, v[0], w), self.sval(st, v[1], w)
            le = self.branch(st, c_le(a, b))
            p = a if le == (m.group(2) == 'min') else b
            return self.mkint(p, w, m.group(1) == 'u')
        m = re.match(r'u(add|sub)\.sat', base)
        if m:
            w = ts[0][1]
            a, b = self.canon(st, v[0]), self.canon(st, v[1])
            if m.group(1) == 'add':
                p = padd(a, b)
                return self.mkint(p, w, True) if self.branch(st, c_lt(p, 1 << w)) else (1 << w) - 1
            return self.mkint(psub(a, b), w, True) if self.branch(st, c_le(b, a)) else 0
        m = re.match(r'(ctpop|ctlz|cttz|bswap)\.i(\d+)', base)
        if m:
            w = int(m.group(2))
            x = self.canon(st, v[0])
            if not is_c(x):
                raise Unsupported('symbolic ' + base)
            if m.group(1) == 'ctpop':
                return bin(x).count('1')
            if m.group(1) == 'ctlz':
                return w - x.bit_length()
            if m.group(1) == 'cttz':
                return (x & -x).bit_length() - 1 if x else w
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        m = re.match(r'fsh([lr])\.i(\d+)', base)
        if m:
            w = int(m.group(2))
            a, b, c = v
            if isinstance(a, int) and isinstance(b, int) and isinstance(c, int):
                c %= w
                x = (a << w) | b
                return (x >> (w - c if m.group(1) == 'l' else c)) & ((1 << w) - 1)
            raise Unsupported('symbolic ' + base)
        if base.startswith('abs.'):
            w = ts[0][1]
            s = self.sval(st, v[0], w)
            return self.mkint(s if self.branch(st, c_le(0, s)) else pscale(s, -1), w)
        if base.startswith(('memcpy', 'memmove')):
            self.memcpy(st, v[0], v[1], v[2])
            return None
        if base.startswith('memset'):
            self.memset(st, v[0], v[1], v[2])
            return None
        m = re.match(r'(fabs|sqrt|floor|ceil|trunc|rint|nearbyint|roundeven|round|exp|log)\.(v\d+)?f(\d+)', base)
        if m:
            w = int(m.group(3))
            if m.group(2):
                return [ft.fun(m.group(1), e, w) for e in v[0]]
            return ft.fun(m.group(1), v[0], w)
        m = re.match(r'(minnum|maxnum)\.f(\d+)', base)
        if m:
            return ft.fbin(m.group(1)[:3], v[0], v[1], int(m.group(2)))
        m = re.match(r'(fma|fmuladd)\.f(\d+)', base)
        if m:
            w = int(m.group(2))
            if m.group(1) == 'fma':
                return ft.mk('fma', tuple(v), w)
            return ft.fbin('fadd', ft.fbin('fmul', v[0], v[1], w), v[2], w)
        m = re.match(r'fpto([us])i\.sat\.i(\d+)\.', base)
        if m:
            return self.f2i(st, v[0], int(m.group(2)), m.group(1) == 's', True)
        m = re.match(r'vector\.reduce\.(add|mul|and|or|xor)\.', base)
        if m:
            r = v[0][0]
            for e in v[0][1:]:
                r = self.bin_t(st, m.group(1), ts[0][2], r, e)
            return r
        if base.startswith('is.constant'):
            return False
        if base.startswith('threadlocal.address'):
            return v[0]
        raise Unsupported('intrinsic ' + base)

    # ------------------------------------------------------------------ harness API
    def msg(self, st, p, n):
        o = st.objs[p.o]
        return bytes(o.ew[p.off + i][1] for i in range(n)).decode()

    def bound_notes(self):
        """what was bounded in this run"""
        out = sorted(self.bnotes)
        return out

    def covered(self):
        """library functions whose code was executed: (name, file, line)"""
        out = set()
        for name in self.funcs:
            fn = self.mod.funcs[name]
            out |= self.mod.subprograms(fn)
        return sorted(out)

    def vf_any(self, st, fr, a, dst):
        sm = self.opts.get('small')
        if sm == 'pick':
            self.bnotes.add('reduced: every free value in 0..2')
            raise PickFork([0, 1, 2], dst, 'any')
        if sm == 'bound':
            self.bnotes.add('reduced: every free value in 0..6')
            p = new_atom('in', 0, 6)
            st.inputs.append(('any', p))
            return S(p, 64, True)
        p = new_atom('in', 0, M64)
        st.inputs.append(('any', p))
        return S(p, 64, True)

    def vf_word(self, st, fr, a, dst):
        p = new_atom('in', 0, M64)
        st.inputs.append(('word', p))
        return S(p, 64, True)

    def vf_below(self, st, fr, a, dst):
        """fresh value in [0, hi): hi must be concrete"""
        hi = self.conc(st, a[0], 'vf_below bound')
        if hi == 0:
            raise PathEnd('infeasible')
        if hi == 1:
            st.inputs.append(('any', 0))
            return 0
        p = new_atom('in', 0, hi - 1)
        st.inputs.append(('any', p))
        return S(p, 64, True)

    def vf_pick(self, st, fr, a, dst):
        lo, hi = self.conc(st, a[0], 'pick'), self.conc(st, a[1], 'pick')
        self.bnotes.add('pick %d..=%d' % (lo, hi))
        raise PickFork(list(range(lo, hi + 1)), dst)

    def vf_assume(self, st, fr, a, dst):
        c = a[0]
        d = self.decide(st, c)
        if d is True:
            return
        if d is False:
            raise PathEnd('infeasible')
        if isinstance(c, tuple) and c[0] == 'or':
            if not self.branch(st, c):
                raise PathEnd('infeasible')
            return
        if not self.add(st, c):
            raise PathEnd('infeasible')

    def vf_mul(self, st, fr, a, dst):
        r = pmul(self.canon(st, a[0]), self.canon(st, a[1]))
        if not self.add(st, c_lt(r, 1 << 64)):
            raise PathEnd('infeasible')
        return r if is_c(r) else S(r, 64, True)

    def vf_add(self, st, fr, a, dst):
        r = padd(self.canon(st, a[0]), self.canon(st, a[1]))
        if not self.add(st, c_lt(r, 1 << 64)):
            raise PathEnd('infeasible')
        return r if is_c(r) else S(r, 64, True)

    def vf_assert(self, st, fr, a, dst):
        m = self.msg(st, a[1], a[2])
        self.asserts[m] = self.asserts.get(m, 0) + 1
        c = a[0]
        if c is UNDEF:
            self.report(st, [], 'assert', m + ' (undefined value)')
            raise PathEnd('violation')
        if c is True:
            return
        if c is False:
            self.report(st, [], 'assert', m)
            raise PathEnd('violation')
        d = self.decide(st, c)
        if d is True:
            return
        if d is False:
            self.report(st, [], 'assert', m)
            raise PathEnd('violation')
        if isinstance(c, tuple) and c[0] in ('f', 'and', 'or') and any_f(c):
            if not self.branch(st, c):
                self.report(st, [], 'assert', m)
                raise PathEnd('violation')
            return
        self.obligation(st, c, 'assert', m)

    def vf_done(self, st, fr, a, dst):
        st.done += 1

    def vf_panic_ok(self, st, fr, a, dst):
        st.panic_ok = bool(a[0])

    def vf_heap_calls(self, st, fr, a, dst):
        return st.counters.get('heap_n', 0)

    def vf_heap_bytes(self, st, fr, a, dst):
        r = st.counters.get('heap_b', 0)
        return r if is_c(r) else S(r, 64, True)

    def vf_fp_hint(self, st, fr, a, dst):
        st.hints.append(self.canon(st, a[0]))

    def buf(self, st, n, w, lanes):
        p = self.canon(st, n)
        eb = w // 8 * lanes
        c = c_le(pscale(p, eb), (1 << 63) - 1)
        if not self.add(st, c):
            raise PathEnd('infeasible')
        o = self.newobj(st, 'buf', pscale(p, eb), 'buf', 'sym', w)
        k = st.nbuf
        st.nbuf += 1
        st.inputs.append(('buf', {(64, 1): 'f64', (32, 1): 'f32', (64, 2): 'c64', (32, 2): 'c32'}[(w, lanes)], p, k,
                          o.name))
        return Ptr(o.id, 0)

    def vf_buf_f64(self, st, fr, a, dst):
        return self.buf(st, a[0], 64, 1)

    def vf_buf_f32(self, st, fr, a, dst):
        return self.buf(st, a[0], 32, 1)

    def vf_buf_c64(self, st, fr, a, dst):
        return self.buf(st, a[0], 64, 2)

    def vf_buf_c32(self, st, fr, a, dst):
        return self.buf(st, a[0], 32, 2)

    def vf_init(self, st, p, w):
        """initial content of a symbolic buffer cell"""
        o = st.objs[p.o]
        off = p.off
        if not is_c(off):
            off = self.canon_p(st, off, 64)
        n = w // 8
        c = c_and(c_le(0, off), c_le(padd(off, n), o.size))
        if self.decide(st, c) is not True:
            raise Unsupported('vf_init out of range')
        return ft.mk('mem', (o.name, off), w)

    def vf_init_f64(self, st, fr, a, dst):
        return self.vf_init(st, a[0], 64)

    def vf_init_f32(self, st, fr, a, dst):
        return self.vf_init(st, a[0], 32)

    def vf_any_f64(self, st, fr, a, dst):
        return self.anyf(st, 64)

    def vf_any_f32(self, st, fr, a, dst):
        return self.anyf(st, 32)

    def anyf(self, st, w):
        k = st.counters.get('fany', 0)
        st.counters['fany'] = k + 1
        st.inputs.append(('fany', w, k))
        return ft.mk('var', (k,), w)

    def vf_in_bounds(self, st, fr, a, dst):
        """[p, p+n) must lie inside one live object"""
        p, n, mp, ml = a
        m = self.msg(st, mp, ml)
        self.asserts[m] = self.asserts.get(m, 0) + 1
        k = self.canon(st, n)
        if is_c(k) and k == 0:
            return
        if not is_c(k) and self.branch(st, c_eq(k, 0)):
            return
        if p.o is None:
            self.report(st, [], 'assert', m)
            raise PathEnd('violation')
        o = st.objs[p.o]
        if not o.alive:
            self.report(st, [], 'assert', m)
            raise PathEnd('violation')
        off = p.off if not is_c(p.off) else p.off % (1 << 64)
        if not is_c(off):
            off = self.canon_p(st, off, 64)
        c = c_le(padd(off, k), o.size)
        if self.decide(st, c) is not True:
            self.obligation(st, c, 'assert', m)

    def vf_eq_f64(self, st, fr, a, dst):
        self.feq(st, a, 64)

    def vf_eq_f32(self, st, fr, a, dst):
        self.feq(st, a, 32)

    def feq(self, st, a, w):
        x, y, mp, ml = a
        m = self.msg(st, mp, ml)
        self.asserts[m] = self.asserts.get(m, 0) + 1
        if x is UNDEF:
            x = ft.mk('mem', ('uninit:undef', 0), w)
        if y is UNDEF:
            y = ft.mk('mem', ('uninit:undef', 0), w)
        if x is y:
            self.solver.stats.syntactic += 1
            st.eqs.append(('eq%d' % w, x, y, m))
            return
        diffs = []

        def ask(p, q):
            if p.op == 'mem' and p.a[0] != q.a[0]:
                return False
            c = c_eq(p.a[-1], q.a[-1])
            d = self.decide(st, c)
            if d is None:
                diffs.append(c)
            return d is True
        if ft.match(x, y, ask):
            st.eqs.append(('eq%d' % w, x, y, m))
            return
        # undecided leaf offsets: look at the case where they differ first, then assume equality
        if diffs:
            dd = list(dict.fromkeys(diffs))
            for c in dd:
                r, mm = self.solver.check(st.pc, [c_not(c)])
                if r == 'unknown':
                    self.inconclusive.append(('assert', m, 'solver unknown (offsets)'))
                    raise PathEnd('unknown')
            raise Fork([dd[0], c_not(dd[0])])
        # structurally different on this path
        if any(l.op == 'mem' and l.a[0].startswith('uninit') for l in ft.leaves(x) + ft.leaves(y)):
            self.report(st, [], 'assert', m)
            raise PathEnd('violation')

        if self.viol_keys.get(('assert', m), 0) >= self.opts.get('max_cand', 6):
            raise PathEnd('violation')

        def neq(memo, lv):
            p, q = ft.to_fp(x, memo, lv), ft.to_fp(y, memo, lv)
            return z3.Not(z3.Or(z3.And(z3.fpIsNaN(p), z3.fpIsNaN(q)), p == q))
        r, cells = self.fp_check(st, [], [neq], timeout=self.opts.get('fp_timeout', 10000))
        if r == 'unsat':
            st.eqs.append(('eq%d' % w, x, y, m))
            return
        if r == 'sat':
            if not st.fpc:
                self.report(st, [], 'assert', m)      # generic contents first
            self.report(st, [], 'assert', m, fcells=cells)
        else:
            self.report(st, [], 'assert', m)
        raise PathEnd('violation')

    def vf_close_f64(self, st, fr, a, dst):
        self.fclose(st, a, 64)

    def vf_close_f32(self, st, fr, a, dst):
        self.fclose(st, a, 32)

    def fclose(self, st, a, w):
        """equality as real polynomials in the leaves (up to rounding)"""
        x, y, mp, ml = a
        m = self.msg(st, mp, ml)
        self.asserts[m] = self.asserts.get(m, 0) + 1
        if x is UNDEF or y is UNDEF:
            self.report(st, [], 'assert', m)
            raise PathEnd('violation')
        rec = ('close%d' % w, x, y, m)
        if x is y:
            st.eqs.append(rec)
            return
        px, py = ft.real_poly(x), ft.real_poly(y)
        if px is None or py is None:
            if ft.match(x, y, lambda p, q: p is q):
                st.eqs.append(rec)
                return
            self.report(st, [], 'assert', m)
            raise PathEnd('violation')
        # leaves with a known value on this path
        env = {}
        for c in st.fpc:
            p, q, r = self.fcond[c[1]]
            if p == 'oeq' and not c[2]:
                if q.op == 'const':
                    q, r = r, q
                if r.op == 'const' and q.op in ('mem', 'var', 'i2f', 'bits'):
                    env[q] = Fraction(ft.bits2f(r.a[0], r.w))
        d = {}
        for sg, pp in ((1, px), (-1, py)):
            for k, c in pp.items():
                if env:
                    for l in k:
                        if l in env:
                            c = c * env[l]
                    k = tuple(l for l in k if l not in env)
                d[k] = d.get(k, 0) + sg * c
        d = {k: c for k, c in d.items() if c != 0}
        if not d:
            self.solver.stats.syntactic += 1
            st.eqs.append(rec)
            return
        # leaves whose offsets may coincide
        ls = []
        for k in d:
            for l in k:
                if l.op == 'mem' and l not in ls:
                    ls.append(l)
        for i in range(len(ls)):
            for j in range(i + 1, len(ls)):
                p, q = ls[i], ls[j]
                if p.a[0] == q.a[0] and p.w == q.w:
                    c = c_eq(p.a[1], q.a[1])
                    dd = self.decide(st, c)
                    if dd is None:
                        raise Fork([c, c_not(c)])
                    if dd is True:
                        # unify and restart comparison
                        d2 = {}
                        for k, cc in d.items():
                            kk = tuple(sorted((p if l is q else l for l in k), key=lambda z: z.id))
                            d2[kk] = d2.get(kk, 0) + cc
                        d = {k: cc for k, cc in d2.items() if cc != 0}
        if not d:
            st.eqs.append(rec)
            return
        self.report(st, [], 'assert', m)
        raise PathEnd('violation')


def any_f(c):
    if c is True or c is False:
        return False
    if c[0] in ('and', 'or'):
        return any(any_f(x) for x in c[1])
    return c[0] == 'f'


class PickFork(Exception):
    def __init__(self, vals, dst, kind='pick'):
        self.vals, self.dst, self.kind = vals, dst, kind


def i2f32(x):
    """correctly rounded integer -> f32 (as python float)"""
    fr = Fraction(x)
    if x == 0:
        return 0.0
    e = abs(x).bit_length() - 24
    if e <= 0:
        return float(x)
    q, r = divmod(abs(x), 1 << e)
    h = 1 << (e - 1)
    if r > h or (r == h and q & 1):
        q += 1
    return math.copysign(float(q << e), x)


def gemm_kind(name):
    m = re.search(r'14matrixmultiply(?:4gemm|5cgemm|6\w+)?(?:\d+cgemm)?5([dscz])gemm$', name)
    if m:
        return m.group(1)
    return None


_nice = {}


def nice(name):
    r = _nice.get(name)
    if r is None:
        parts = []
        s = name
        for m in re.finditer(r'(?:s[0-9A-Za-z]*_)?(\d+)_?([A-Za-z_][A-Za-z0-9_]*)', s):
            n = int(m.group(1))
            parts.append(m.group(2)[:n])
        r = _nice[name] = '::'.join(parts) or name
    return r
