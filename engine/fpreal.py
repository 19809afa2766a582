"""Float -> integer conversions of symbolic integers, decided over the reals.

real(t) gives a polynomial equal to the *rounded* value of the float term t: exact where exactness can be shown
(small integers, scaling by powers of two, sums that are representable), otherwise a fresh real atom constrained
by the IEEE round-to-nearest facts  |fl(x) - x| <= 2^-53 |x|  and monotonicity at representable points (hints).
"""
from fractions import Fraction
import ft
from sym import (Poly, is_c, padd, psub, pmul, pscale, new_atom, c_le, c_lt, c_eq, c_not, c_and, c_or, bounds)

EPS = Fraction(1, 1 << 53)


def unsup(m):
    from exec import Unsupported
    raise Unsupported(m)


def holds(eng, st, c):
    return eng.decide(st, c) is True


def pow2(x):
    x = abs(Fraction(x))
    return x != 0 and (x.numerator & (x.numerator - 1)) == 0 and (x.denominator & (x.denominator - 1)) == 0


def grain(p):
    """largest power of two 2^-j such that p is an integer multiple of it (integer atoms), or None"""
    if is_c(p):
        d = Fraction(p).denominator
        return Fraction(1, d) if d & (d - 1) == 0 else None
    from sym import ATOMS
    d = 1
    for m, c in p.t.items():
        if any(ATOMS[i].real for i in m):
            return None
        x = Fraction(c).denominator
        if x & (x - 1):
            return None
        d = max(d, x)
    return Fraction(1, d)


def representable(eng, st, p):
    g = grain(p)
    if g is None:
        return False
    lim = g * (1 << 53)
    return holds(eng, st, c_le(p, lim)) and holds(eng, st, c_le(-lim, p))


def hintpts(st):
    out = []
    for h in st.hints:
        for a, b in ((1, 0), (1, Fraction(1, 2)), (1, 1), (1, Fraction(3, 2)), (2, 1), (2, 3)):
            out.append(padd(pscale(h, a), b))
    return out


def rounded(eng, st, x, key):
    """fl(x)"""
    if representable(eng, st, x):
        return x
    c = st.canonc.get(('fl', key))
    if c is not None:
        return c
    r = new_atom('fl', None, None, True)
    cs = []
    if holds(eng, st, c_le(0, x)):
        cs += [c_le(pmul(x, 1 - EPS), r), c_le(r, pmul(x, 1 + EPS))]
    elif holds(eng, st, c_le(x, 0)):
        cs += [c_le(pmul(x, 1 + EPS), r), c_le(r, pmul(x, 1 - EPS))]
    else:
        unsup('rounding of a value of unknown sign')
    for h in hintpts(st):
        if representable(eng, st, h):
            if holds(eng, st, c_le(h, x)):
                cs.append(c_le(h, r))
            if holds(eng, st, c_le(x, h)):
                cs.append(c_le(r, h))
    st.pc.extend(c for c in cs if c is not True)
    st.model = None
    st.canonc[('fl', key)] = r
    return r


def real(eng, st, t):
    if t.w != 64:
        unsup('f32 conversion of a symbolic value')
    if t.op == 'const':
        return Fraction(ft.bits2f(t.a[0], 64))
    if t.op == 'i2f':
        return rounded(eng, st, t.a[0], t.id)
    if t.op == 'fneg':
        return pscale(real(eng, st, t.a[0]), -1)
    if t.op in ('fadd', 'fsub'):
        x, y = real(eng, st, t.a[0]), real(eng, st, t.a[1])
        if t.op == 'fsub':
            y = pscale(y, -1)
        s = padd(x, y)
        if is_c(x):
            x, y = y, x
        # x - 2^e with 2^e <= x < 2^(52+e): exact
        if is_c(y) and y < 0 and pow2(y) and holds(eng, st, c_le(-y, x)) and holds(eng, st, c_le(x, -y * (1 << 52))):
            return s
        return rounded(eng, st, s, t.id)
    if t.op == 'fmul':
        x, y = real(eng, st, t.a[0]), real(eng, st, t.a[1])
        if is_c(x):
            x, y = y, x
        if is_c(y) and pow2(y) and Fraction(1, 1 << 60) <= abs(y) <= 1 << 60:
            return pscale(x, y)
        return rounded(eng, st, pmul(x, y), t.id)
    if t.op == 'fdiv':
        x, y = real(eng, st, t.a[0]), real(eng, st, t.a[1])
        if is_c(y) and pow2(y) and Fraction(1, 1 << 60) <= abs(y) <= 1 << 60:
            return pscale(x, 1 / Fraction(y))
        unsup('symbolic float division')
    if t.op == 'sqrt':
        x = real(eng, st, t.a[0])
        if not holds(eng, st, c_le(0, x)):
            unsup('sqrt of a possibly negative value')
        c = st.canonc.get(('sqrt', t.id))
        if c is not None:
            return c
        s = new_atom('sqrt', 0, None, True)
        s2 = pmul(s, s)
        cs = [c_le(pmul(x, (1 - EPS) ** 2), s2), c_le(s2, pmul(x, (1 + EPS) ** 2))]
        for h in hintpts(st):
            if representable(eng, st, h) and holds(eng, st, c_le(0, h)):
                hh = pmul(h, h)
                if holds(eng, st, c_le(hh, x)):
                    cs.append(c_le(h, s))
                if holds(eng, st, c_le(x, hh)):
                    cs.append(c_le(s, h))
        st.pc.extend(c for c in cs if c is not True)
        st.model = None
        st.canonc[('sqrt', t.id)] = s
        return s
    if t.op in ('floor', 'trunc', 'ceil'):
        x = real(eng, st, t.a[0])
        g = grain(x)
        if g == 1:
            return x
        if t.op == 'trunc' and not holds(eng, st, c_le(0, x)):
            unsup('trunc of a possibly negative value')
        if t.op == 'ceil':
            return pscale(floor(eng, st, pscale(x, -1), t.id), -1)
        return floor(eng, st, x, t.id)
    unsup('float operation %s on a symbolic integer' % t.op)


def floor(eng, st, x, key):
    if is_c(x):
        return x.numerator // x.denominator
    c = st.canonc.get(('floor', key))
    if c is not None:
        return c
    for h in st.hints:
        for k in (h, padd(h, 1), psub(h, 1)):
            if holds(eng, st, c_le(k, x)) and holds(eng, st, c_lt(x, padd(k, 1))):
                st.canonc[('floor', key)] = k
                return k
    k = new_atom('floor')
    st.pc.extend([c_le(k, x), c_lt(x, padd(k, 1))])
    st.model = None
    st.canonc[('floor', key)] = k
    return k


def to_int(eng, st, t, w, signed, sat):
    x = real(eng, st, t)
    if grain(x) != 1:
        if holds(eng, st, c_le(0, x)):
            x = floor(eng, st, x, ('i', t.id))
        else:
            unsup('conversion of a possibly negative value')
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if is_c(x):
        return int(min(max(x, lo), hi)) & ((1 << w) - 1)
    if not eng.branch(st, c_le(lo, x)):
        return lo & ((1 << w) - 1)
    if not eng.branch(st, c_le(x, hi)):
        return hi & ((1 << w) - 1)
    return eng.mkint(x, w, not signed)
