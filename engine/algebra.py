'''Products of matrix exponentials as entry functions.

A value with an `alg` attribute is   coef * e^{A t} * X   with X the identity ('I'), the one-step input effects ('J': the
solution at time tau of x' = A x + b_c from 0, column by column), or the input matrix ('B').  The symbol X(t, r, c) is its
entry; the laws used are the axioms of the exponential:
    e^{A s} e^{A t} = e^{A (s + t)},   e^{A 0} = I,   (A scaled by a number commutes with its exponential).
'''
import z3
from core import *

R3 = [z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort()]
EX = {k: z3.Function('EXPM_' + k, *R3) for k in 'IJB'}
ENT = {k: z3.Function('ENT_' + k, z3.IntSort(), z3.IntSort(), z3.RealSort()) for k in 'JB'}


def canon(t):
    return z3.simplify(real(t), som=True)


def axioms(ctx):
    r, c = z3.Ints('er ec')
    z = z3.RealVal(0)
    ctx.fact(z3.ForAll([r, c], EX['I'](z, r, c) == z3.If(r == c, z3.RealVal(1), z3.RealVal(0)), patterns=[EX['I'](z, r, c)]))
    for k in 'JB':
        ctx.fact(z3.ForAll([r, c], EX[k](z, r, c) == ENT[k](r, c), patterns=[EX[k](z, r, c)]))


def entry(coef, t, x):
    t = canon(t)

    def f(r, c):
        if z3.is_rational_value(t) and t.as_fraction() == 0:
            if x == 'I':
                return mul(coef, ite(eq(r, c), lambda: Fraction(1), lambda: Fraction(0)))
            return mul(coef, py(ENT[x](num(r), num(c))))
        return mul(coef, py(EX[x](t, num(r), num(c))))
    return f


def arr(alg, shape, kind=None):
    'alg = (coef, t, X): dense array, or sparse matrix of the given kind'
    fn = entry(*alg)
    if kind is None:
        v = NArr(shape, fn)
        v.algfn = fn
    else:
        v = Csr(kind, shape, lambda r, c: ite(And(le(0, r), lt(r, shape[0]), le(0, c), lt(c, shape[1])), lambda: fn(r, c), lambda: Fraction(0)))
    v.alg = alg
    return v


def shape_of(v):
    return v.f['shape'] if isinstance(v, NArr) else v.shape


def alg_of(v):
    a = getattr(v, 'alg', None)
    if a is not None and isinstance(v, NArr) and v.f['fn'] is not v.algfn:
        return None      # modified since
    return a


def product(I, a, b, kind=None):
    'matrix product of two values of the algebra, or None'
    x, y = alg_of(a), alg_of(b)
    if x is None or y is None or 'A' in (x[2], y[2]) or x[2] != 'I':
        return None
    sa, sb = shape_of(a), shape_of(b)
    I.ctx.oblige(f'{I.where()}: shapes of a matrix product', eq(sa[1], sb[0]))
    return arr((mul(x[0], y[0]), add(x[1], y[1]), y[2]), (sa[0], sb[1]), kind)


def scaled(I, k, m):
    x = alg_of(m)
    if x is None:
        return None
    if x[2] == 'A':
        r = Csr(m.kind, m.shape, lambda r, c: mul(k, m.entry(r, c)))
        r.alg = (mul(x[0], k), 0, 'A')
        return r
    return arr((mul(x[0], k), x[1], x[2]), shape_of(m), None if isinstance(m, NArr) else m.kind)
