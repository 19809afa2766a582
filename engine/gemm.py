"""Contract of matrixmultiply's {s,d,c,z}gemm: C <- alpha*A*B + beta*C (beta = 0: C is not read).

The kernel itself (run-time CPU dispatch, SIMD assembly-level loops, thread pool) is not encoded.  The contract
reads every element of A and B, and every element of C when beta is not exactly zero, writes every element of C
and nothing else; sizes are concretised, addresses stay symbolic.  The floating-point value is one fixed
summation order; the harnesses compare it as a real polynomial (up to rounding).
"""
import ft
from sym import padd, pscale, is_c


def flat(eng, st, v, w):
    """[re, im] passed by value or by reference"""
    from exec import Ptr, Cat
    if isinstance(v, Ptr):
        return [eng.load(st, v, ('f', w)), eng.load(st, eng.padd(v, w // 8), ('f', w))]
    if isinstance(v, list):
        return list(v)
    if isinstance(v, Cat):
        return [eng.astype(eng.slicecat(v.parts, 0, w), ('f', w)), eng.astype(eng.slicecat(v.parts, w, w), ('f', w))]
    if isinstance(v, int):
        return [ft.const(v & ((1 << w) - 1), w), ft.const(v >> w & ((1 << w) - 1), w)]
    from exec import Unsupported
    raise Unsupported('complex gemm argument %r' % (v,))


def sstride(eng, st, v):
    p = eng.sval(st, v, 64)
    return p


def call(eng, st, kind, vals, types):
    from exec import Unsupported
    cx = kind in 'cz'
    w = 64 if kind in 'dz' else 32
    es = w // 8 * (2 if cx else 1)
    v = list(vals)
    if cx:
        if len(v) == 16:                 # the two (single-valued) options take no argument
            v = v[2:]
    if len(v) != 14:
        raise Unsupported('gemm with %d arguments' % len(v))
    m, k, n, alpha, a, rsa, csa, b, rsb, csb, beta, c, rsc, csc = v
    m, k, n = eng.conc(st, m, 'gemm m'), eng.conc(st, k, 'gemm k'), eng.conc(st, n, 'gemm n')
    eng.stubs.add('matrixmultiply::%sgemm (contract)' % kind)
    rsa, csa, rsb, csb, rsc, csc = [sstride(eng, st, x) for x in (rsa, csa, rsb, csb, rsc, csc)]
    if max(m, k, n) > 1100 or m * k * n > 20000:
        raise Unsupported('gemm dimension %d %d %d' % (m, k, n))
    F = ('f', w)

    def addr(p, i, j, rs, cs):
        return eng.padd(p, pscale(padd(pscale(rs, i), pscale(cs, j)), es))

    def ld(p):
        if cx:
            return [eng.load(st, p, F), eng.load(st, eng.padd(p, w // 8), F)]
        return [eng.load(st, p, F)]

    def add(x, y):
        return [ft.fbin('fadd', p, q, w) for p, q in zip(x, y)]

    def mul(x, y):
        if not cx:
            return [ft.fbin('fmul', x[0], y[0], w)]
        re = ft.fbin('fsub', ft.fbin('fmul', x[0], y[0], w), ft.fbin('fmul', x[1], y[1], w), w)
        im = ft.fbin('fadd', ft.fbin('fmul', x[0], y[1], w), ft.fbin('fmul', x[1], y[0], w), w)
        return [re, im]
    al = flat(eng, st, alpha, w) if cx else [alpha]
    be = flat(eng, st, beta, w) if cx else [beta]
    zero = [ft.const(0, w)] * len(al)
    # beta is compared with zero by the kernel
    bz = True
    for x in be:
        if not eng.branch(st, eng.fcmp(st, 'oeq', x, ft.const(0, w))):
            bz = False
            break
    A = {(i, l): ld(addr(a, i, l, rsa, csa)) for i in range(m) for l in range(k)} if n else {}
    B = {(l, j): ld(addr(b, l, j, rsb, csb)) for l in range(k) for j in range(n)} if m else {}
    C = {}
    for i in range(m):
        for j in range(n):
            s = None
            for l in range(k):
                t = mul(A[i, l], B[l, j])
                s = t if s is None else add(s, t)
            r = mul(al, s) if s is not None else zero
            if not bz:
                r = add(r, mul(be, ld(addr(c, i, j, rsc, csc))))
            C[i, j] = r
    # resolve every address (and any case split it needs) before the first write
    for i, j in C:
        for q in range(len(al)):
            eng.access(st, eng.padd(addr(c, i, j, rsc, csc), q * (w // 8)), w // 8, 'gemm write to C')
    for (i, j), r in C.items():
        p = addr(c, i, j, rsc, csc)
        for q, x in enumerate(r):
            eng.store(st, eng.padd(p, q * (w // 8)), F, x)
