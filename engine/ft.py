"""Hash-consed floating-point terms.

A term is built by the operations the code executes (no algebraic rewriting apart from IEEE-exact
identities and the commutativity of + and *).  Leaves: constants, memory cells (object, offset
polynomial), free inputs, conversions from integers.  Terms can be evaluated bit-exactly on concrete
leaves, translated to z3's floating-point theory, or read as real polynomials (for gemm-type
properties, which are claimed up to rounding).
"""
import struct, math
from fractions import Fraction
import z3
from sym import Poly, is_c


class FT:
    __slots__ = ('op', 'a', 'w', 'id', '_real')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, a, w):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = FT()
        t.op, t.a, t.w = op, a, w
        t.id = _n[0]
        t._real = None
        _n[0] += 1
        _tab[k] = t
    return t


def show(t, d=0):
    if d > 6:
        return '...'
    if t.op == 'const':
        return repr(bits2f(t.a[0], t.w))
    if t.op == 'mem':
        return '%s[%s]' % (t.a[0], t.a[1])
    return '%s(%s)' % (t.op, ', '.join(show(x, d + 1) if isinstance(x, FT) else str(x) for x in t.a))


def const(bits, w):
    return mk('const', (bits,), w)


def bits2f(b, w):
    return struct.unpack('<d', struct.pack('<Q', b))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', b))[0]


def f2bits(x, w):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return struct.unpack('<I', struct.pack('<f', math.copysign(math.inf, x)))[0]


def rnd(x, w):
    return x if w == 64 else bits2f(f2bits(x, 32), 32)


def atan2f(x, y):
    import ctypes
    import ctypes.util
    f = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6').atan2f
    f.restype, f.argtypes = ctypes.c_float, [ctypes.c_float, ctypes.c_float]
    return f(x, y)


def cbin(op, x, y, w):
    """x,y python floats -> python float, correctly rounded at width w (+,-,*,/ of f32 in f64 is innocuous)"""
    try:
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            r = x * y
        elif op == 'fdiv':
            if y == 0:
                if x != x or x == 0:
                    r = math.nan
                else:
                    r = math.copysign(math.inf, x) * math.copysign(1.0, y)
            else:
                r = x / y
        elif op == 'frem':
            r = math.fmod(x, y) if y != 0 and not math.isinf(x) else math.nan
        elif op == 'atan2':
            r = math.atan2(x, y) if w == 64 else atan2f(x, y)
        elif op == 'min':
            r = y if x != x else x if y != y else min(x, y)
        elif op == 'max':
            r = y if x != x else x if y != y else max(x, y)
        else:
            raise NotImplementedError(op)
    except OverflowError:
        r = math.inf
    return rnd(r, w)


def cun(op, x, w):
    if op == 'fneg':
        return -x
    if op == 'fabs':
        return abs(x)
    if op == 'sqrt':
        return rnd(math.sqrt(x), w) if x >= 0 else (x if x == 0 else math.nan)
    if math.isnan(x) or math.isinf(x):
        return x
    if op == 'floor':
        return float(math.floor(x)) if x != 0 else x
    if op == 'ceil':
        return math.copysign(float(math.ceil(x)), x) if x != 0 else x
    if op == 'trunc':
        return math.copysign(float(math.trunc(x)), x)
    if op == 'exp':
        try:
            return rnd(math.exp(x), w)
        except OverflowError:
            return math.inf
    if op == 'log':
        return rnd(math.log(x), w) if x > 0 else (-math.inf if x == 0 else math.nan)
    raise NotImplementedError(op)


ONE = {64: 0x3ff0000000000000, 32: 0x3f800000}
NZ = {64: 1 << 63, 32: 1 << 31}


def fbin(op, a, b, w):
    if a.op == 'const' and b.op == 'const':
        return const(f2bits(cbin(op, bits2f(a.a[0], w), bits2f(b.a[0], w), w), w), w)
    if op == 'fsub' :
        # x - c == x + (-c) exactly
        if b.op == 'const':
            return fbin('fadd', a, const(b.a[0] ^ NZ[w], w), w)
        if b.op == 'fneg':
            return fbin('fadd', a, b.a[0], w)
    if op == 'fadd':
        if b.op == 'const' and b.a[0] == NZ[w]:
            return a
        if a.op == 'const' and a.a[0] == NZ[w]:
            return b
        if b.op == 'fneg':
            return fbin('fsub', a, b.a[0], w) if b.a[0].op != 'const' else mk('fadd', (a, b), w)
        if a.op == 'fneg':
            return fbin('fsub', b, a.a[0], w)
    if op == 'fmul':
        if b.op == 'const' and b.a[0] == ONE[w]:
            return a
        if a.op == 'const' and a.a[0] == ONE[w]:
            return b
        if b.op == 'const' and b.a[0] == ONE[w] | NZ[w]:
            return fun('fneg', a, w)
        if a.op == 'const' and a.a[0] == ONE[w] | NZ[w]:
            return fun('fneg', b, w)
        if a.op == 'fneg' and b.op == 'fneg':
            return fbin('fmul', a.a[0], b.a[0], w)
        if a.op == 'fneg':
            return fun('fneg', fbin('fmul', a.a[0], b, w), w)
        if b.op == 'fneg':
            return fun('fneg', fbin('fmul', a, b.a[0], w), w)
    if op == 'fdiv' and b.op == 'const' and b.a[0] == ONE[w]:
        return a
    if op in ('fadd', 'fmul') and b.id < a.id:
        a, b = b, a
    return mk(op, (a, b), w)


def fun(op, a, w):
    if a.op == 'const':
        if op == 'fneg':
            return const(a.a[0] ^ NZ[w], w)
        if op == 'fabs':
            return const(a.a[0] & ~NZ[w], w)
        try:
            return const(f2bits(cun(op, bits2f(a.a[0], w), w), w), w)
        except NotImplementedError:
            pass
    if op == 'fneg':
        if a.op == 'fneg':
            return a.a[0]
        if a.op == 'fsub':
            return mk('fneg', (a,), w)
    return mk(op, (a,), w)


def fconv(a, w):
    """fpext / fptrunc"""
    if a.w == w:
        return a
    if a.op == 'const':
        return const(f2bits(bits2f(a.a[0], a.w), w), w)
    if a.op == 'fconv' and a.w > w and a.a[0].w == w:
        return a.a[0]
    return mk('fconv', (a,), w)


def leaves(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op in ('mem', 'var', 'i2f', 'bits'):
        acc.append(t)
    for x in t.a:
        if isinstance(x, FT):
            leaves(x, acc, seen)
    return acc


def feval(t, leaf, memo=None):
    """bit-exact evaluation; leaf(t) -> python float"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'const':
        r = bits2f(t.a[0], t.w)
    elif t.op in ('mem', 'var', 'i2f', 'bits'):
        r = leaf(t)
    elif t.op == 'fconv':
        r = rnd(feval(t.a[0], leaf, memo), t.w)
    elif t.op == 'fma':
        x, y, z = [feval(q, leaf, memo) for q in t.a]
        if any(math.isnan(v) or math.isinf(v) for v in (x, y, z)):
            r = x * y + z
        else:
            ex = Fraction(x) * Fraction(y) + Fraction(z)
            if t.w == 64:
                r = ex.numerator / ex.denominator
            else:
                raise NotImplementedError('fma32')
    elif len(t.a) == 2:
        r = cbin(t.op, feval(t.a[0], leaf, memo), feval(t.a[1], leaf, memo), t.w)
    elif len(t.a) == 1:
        r = cun(t.op, feval(t.a[0], leaf, memo), t.w)
    else:
        raise NotImplementedError(t.op)
    memo[t.id] = r
    return r


# ---- structural equality up to leaf offsets ---------------------------------------------------
def match(a, b, ask):
    """True if a and b are the same term up to commutativity, where leaf offsets are compared by
    ask(leaf_a, leaf_b) -> bool"""
    memo = {}

    def go(x, y):
        if x is y:
            return True
        k = (x.id, y.id)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = False
        if x.op == y.op and x.w == y.w:
            if x.op in ('mem', 'i2f', 'bits'):
                r = ask(x, y)
            elif x.op in ('const', 'var'):
                r = False
            elif x.op in ('fadd', 'fmul'):
                r = (go(x.a[0], y.a[0]) and go(x.a[1], y.a[1])) or (go(x.a[0], y.a[1]) and go(x.a[1], y.a[0]))
            elif len(x.a) == len(y.a):
                r = all(go(p, q) if isinstance(p, FT) and isinstance(q, FT) else p == q for p, q in zip(x.a, y.a))
        memo[k] = r
        return r
    return go(a, b)


# ---- real reading -------------------------------------------------------------------------------
def real_poly(t):
    """dict: sorted tuple of leaf terms -> rational coefficient, or None when the term is not polynomial"""
    if t._real is not None:
        return t._real
    if t.op == 'const':
        v = bits2f(t.a[0], t.w)
        if v != v or v in (math.inf, -math.inf):
            return None
        r = {(): Fraction(v)} if v != 0 else {}
    elif t.op in ('mem', 'var', 'i2f', 'bits'):
        r = {(t,): Fraction(1)}
    elif t.op in ('fadd', 'fsub'):
        x, y = real_poly(t.a[0]), real_poly(t.a[1])
        if x is None or y is None:
            return None
        r = dict(x)
        s = 1 if t.op == 'fadd' else -1
        for m, c in y.items():
            r[m] = r.get(m, 0) + s * c
        r = {m: c for m, c in r.items() if c != 0}
    elif t.op == 'fneg':
        x = real_poly(t.a[0])
        if x is None:
            return None
        r = {m: -c for m, c in x.items()}
    elif t.op == 'fconv':
        r = real_poly(t.a[0])
    elif t.op in ('fmul', 'fma'):
        x, y = real_poly(t.a[0]), real_poly(t.a[1])
        if x is None or y is None:
            return None
        r = {}
        for m1, c1 in x.items():
            for m2, c2 in y.items():
                m = tuple(sorted(m1 + m2, key=lambda q: q.id))
                r[m] = r.get(m, 0) + c1 * c2
        if t.op == 'fma':
            z = real_poly(t.a[2])
            if z is None:
                return None
            for m, c in z.items():
                r[m] = r.get(m, 0) + c
        r = {m: c for m, c in r.items() if c != 0}
    else:
        return None
    t._real = r
    return r


# ---- z3 floating-point theory ---------------------------------------------------------------------
def to_fp(t, memo, leafvar):
    r = memo.get(t.id)
    if r is not None:
        return r
    srt = z3.Float64() if t.w == 64 else z3.Float32()
    rm = z3.RNE()
    if t.op == 'const':
        r = z3.fpBVToFP(z3.BitVecVal(t.a[0], t.w), srt)
    elif t.op in ('mem', 'var', 'i2f', 'bits'):
        r = leafvar(t, srt)
    elif t.op == 'fconv':
        r = z3.fpFPToFP(rm, to_fp(t.a[0], memo, leafvar), srt)
    else:
        xs = [to_fp(x, memo, leafvar) for x in t.a]
        if t.op == 'fadd':
            r = z3.fpAdd(rm, *xs)
        elif t.op == 'fsub':
            r = z3.fpSub(rm, *xs)
        elif t.op == 'fmul':
            r = z3.fpMul(rm, *xs)
        elif t.op == 'fdiv':
            r = z3.fpDiv(rm, *xs)
        elif t.op == 'fma':
            r = z3.fpFMA(rm, *xs)
        elif t.op == 'fneg':
            r = z3.fpNeg(xs[0])
        elif t.op == 'fabs':
            r = z3.fpAbs(xs[0])
        elif t.op == 'sqrt':
            r = z3.fpSqrt(rm, xs[0])
        elif t.op == 'floor':
            r = z3.fpRoundToIntegral(z3.RTN(), xs[0])
        elif t.op == 'ceil':
            r = z3.fpRoundToIntegral(z3.RTP(), xs[0])
        elif t.op == 'trunc':
            r = z3.fpRoundToIntegral(z3.RTZ(), xs[0])
        elif t.op == 'min':
            r = z3.fpMin(*xs)
        elif t.op == 'max':
            r = z3.fpMax(*xs)
        elif t.op == 'atan2':
            # a function of its arguments, nothing else is known
            r = z3.Function('atan2_%d' % t.w, srt, srt, srt)(*xs)
        else:
            raise NotImplementedError(t.op)
    memo[t.id] = r
    return r


def fcmp_z(pred, a, b):
    un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
    if pred == 'ord':
        return z3.Not(un)
    if pred == 'uno':
        return un
    o, p = pred[0], pred[1:]
    if p == 'ne':
        c = z3.Not(z3.fpEQ(a, b))
        return z3.And(z3.Not(un), c) if o == 'o' else z3.Or(un, c)
    c = base[p](a, b)
    return c if o == 'o' else z3.Or(un, c)


def fcmp_c(pred, x, y):
    un = x != x or y != y
    if pred == 'ord':
        return not un
    if pred == 'uno':
        return un
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    o, p = pred[0], pred[1:]
    if un:
        return o == 'u'
    return {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p]
