'''Contracts of symbolic.py (C18), of the simulation steps of core.py (C22) and of the approximation models (C12).'''
from contracts_dag import *

SY = 'symbolic.'
EXPR = {'Expr': {'__kinds__': {'Add': 1, 'Number': 2, 'Symbol': 3, 'Mul': 4, 'Expr': (1, 2, 3, 4)}, 'args': 'list:Expr', 'name': 'str', '()float': 'real'}}


def names(ctx):
    n = z3.Int('vars.len')
    ctx.fact(n >= 0)
    return PList(arr=(n, lambda i: SStr([('sym', z3.Function('vars.at', IS, IS)(num(i)))])))


def terms(n):
    return PList(arr=(n, lambda i: z3.Function('rv.at', IS, RS)(num(i))))


def sym_scen(affine):
    def f(ctx):
        w = world()
        vs = names(ctx)
        n = z3.Int('vars.len')
        rv = terms(add(n, 1) if affine else n)
        return {'args': [ref('Expr', 'e'), vs, rv, affine], 'world': w, 'watch': {'world': w, 'rv': rv}}
    return f


def sum_args(I, st):
    'a sympy sum has at least one summand'
    e = st['args'][0].oid
    return [Not(eq(e, -1)), le(1, z3.Function('Expr.args.len', IS, IS)(e))]


world_contract(SY + '_extract_linear_terms_rec', {'affine': sym_scen(True), 'linear': sym_scen(False)}, P('C18'),
    'a sum adds the terms of each of its summands once; a number adds to the constant (refused without one); a variable adds 1 and a product of a number and a variable adds the number to the coefficient of that variable; anything else is refused', '''
    def spec(e, variables, rv, affine):
        if isinstance(e, Add):
            _extract_linear_terms_rec(e.args[0], variables, rv, affine)
            for arg in e.args[1:len(e.args)]:
                _extract_linear_terms_rec(arg, variables, rv, affine)
        elif isinstance(e, Number):
            if float(e) != 0:
                if not affine:
                    raise RuntimeError('constant')
                rv[len(rv) - 1] += float(e)
        elif isinstance(e, Symbol):
            if e.name not in variables:
                raise RuntimeError('variable')
            rv[variables.index(e.name)] += 1
        elif isinstance(e, Mul):
            if len(e.args) != 2:
                raise RuntimeError('product')
            a, b = e.args[0], e.args[1]
            if isinstance(a, Number) and isinstance(b, Symbol):
                f, s = a, b
            elif isinstance(b, Number) and isinstance(a, Symbol):
                f, s = b, a
            else:
                raise RuntimeError('product')
            if s.name not in variables:
                raise RuntimeError('variable')
            rv[variables.index(s.name)] += float(f)
        else:
            raise RuntimeError('term')
    ''', {SY + '_extract_linear_terms_rec': lambda I, e, v, r, a: does('terms')(I, e)}, EXPR, pre=sum_args)


# ------------------------------------------------------------------ directions (C21): loop invariants over inner products
import gram
NOTES = ('floats are reals in the inner-product proofs', 'termination of the loop that collects directions is not shown (a random vector outside the span comes up eventually)', 'the dynamics matrix is square and the point has its size (precondition)')
for _q, _sc in (('lputil.make_direction_matrix', ('any',)), ('lputil.reorthogonalize_matrix', ('array', 'list'))):
    _c = Contract(_q, None, {s: None for s in _sc}, P('C21'), 'one orthonormal row per dimension; each comes from the next image / given row and earlier rows; a vector is dropped only where the earlier rows span it (within 1e-6); arguments unchanged', replaces=False)
    _c.alt, _c.notes = gram.verify, NOTES
    ALL[_q] = _c
