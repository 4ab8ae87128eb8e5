'''Contracts of the plotting functions (C24): lpplot.py, the stored plot data and the plot paths of a state set.'''
from contracts_sets import *
from contracts_sets import _d

LPP = 'lpplot.'
NDV = dict(VEC, __class__='ndarray', OpMult=lambda I, a, b: Ref('vector', z3.Function('FN_scaled', IS, RS, IS)(*(num(v.oid) if isinstance(v, Ref) else real(v) for v in ((b, a) if isinstance(b, Ref) else (a, b))))),
           OpUSub=lambda I, v: Ref('vector', pure('negated', num(v.oid))))
XDOT = lambda I, a, kw: z3.Function('FN_dot', IS, IS, RS)(*sorted_tokens(token(I, a[0]), token(I, a[1])))
PLT = dict(_d.SCH, LpInstance=dict(_d.SCH.get('LpInstance', {}), dims='nat', cur_vars_offset='nat'), vector=NDV)


def sorted_tokens(a, b):
    'a product of two vectors does not depend on their order'
    return (a, b) if str(a) <= str(b) else (b, a)


def axis(kind, name):
    return {'dim': lambda: nat_axis(name), 'dir': lambda: ref('vector', name), 'time': lambda: None}[kind]


def nat_axis(name):
    return z3.Int(name)


def axes_scens(make):
    return {f'{kx}_{ky}': make(axis(kx, 'xdim'), axis(ky, 'ydim')) for kx in ('dim', 'dir', 'time') for ky in ('dim', 'dir', 'time')}


def pt_scen(x, y):
    def f(ctx):
        w = world()
        return {'args': [ref('vector', 'pt'), x(), y(), z3.Real('cur_time')], 'world': w, 'watch': {'world': w}}
    return f


world_contract(LPP + 'pt_to_plot_xy', axes_scens(pt_scen), P('C24'),
    'per axis: the coordinate, the product with the direction, or the time', '''
    def spec(pt, xdim, ydim, cur_time):
        out = []
        for d in (xdim, ydim):
            if d is None:
                out.append(cur_time)
            elif isinstance(d, int):
                out.append(pt[d])
            else:
                out.append(np.dot(pt, d))
        return out[0], out[1]
    ''', {}, PLT, hooks={'numpy.dot': XDOT})


# ------------------------------------------------------------------ directions
def x_arr(I, a, kw):
    'an array is known by the list it is made of; the copy of an array is the same array'
    return a[0] if isinstance(a[0], Ref) else x_array(I, a, kw)


def zero(I, a, kw):
    n = a[0][0] if isinstance(a[0], tuple) else a[0]
    return Ref('vector', pure('zeros', num(n)))


def vadd(I, a, b):
    return Ref('vector', pure('plus', num(a.oid), num(b.oid)))


DIRV = dict(PLT, vector=dict(NDV, OpAdd=vadd))
UNIT = "np.array([1.0 if i == d else 0.0 for i in range(n)])"


def scen1(*args):
    def f(ctx):
        w = world()
        return {'args': [a() for a in args], 'world': w, 'watch': {'world': w}}
    return f


NN = lambda: z3.Int('n')
world_contract(LPP + '_make_dir', {k: scen1(NN, axis(k, 'd')) for k in ('dim', 'dir')}, P('C24'), 'the unit vector of a dimension; a direction itself', f'''
    def spec(n, d):
        if isinstance(d, int):
            return {UNIT}
        return d
    ''', {}, DIRV, hooks={'numpy.array': x_arr}, pre=lambda I, st: [And(le(0, z3.Int('n')))])


def x_make_dir(I, n, d):
    'proved above'
    if isinstance(d, Ref):
        return d
    t = PList(arr=(n, lambda i: z3.If(num(i) == num(d), z3.RealVal(1), z3.RealVal(0))))
    return Ref('vector', pure('np.array', token(I, t)))


world_contract(LPP + 'bbox_widths', {f'{a}_{b}': scen1(lambda: ref('LpInstance', 'lpi'), axis(a, 'x'), axis(b, 'y')) for a in ('dim', 'dir') for b in ('dim', 'dir')}, P('C24'),
    'per direction the largest minus the smallest value over the set, at least 1e-5', '''
    def spec(lpi, x, y):
        cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
        out = []
        for d in (x, y):
            v = _make_dir(lpi.dims, d)
            low = np.dot(v, lpi.minimize(direction_vec=v, columns=cols))
            high = np.dot(v, lpi.minimize(direction_vec=-1 * v, columns=cols))
            out.append(max(high - low, 1e-5))
        return out
    ''', {LI + 'minimize': minimized(False), LPP + '_make_dir': x_make_dir}, DIRV, hooks={'numpy.array': x_arr, 'numpy.dot': XDOT})


# ------------------------------------------------------------------ vertices
def set_objective(I, lpi, v, is_csr=False, offset=None):
    'the direction of the next minimisation of that set; nothing else reads it'
    I.ctx.objective = (lpi, v)


def minimize_set(I, lpi, direction_vec=None, columns=None, fail_on_unsat=True, print_on=False):
    if direction_vec is None:
        o = getattr(I.ctx, 'objective', None)
        if o is None or not z3.eq(num(o[0].oid), num(lpi.oid)):
            raise Unsupported('minimisation without a direction')
        direction_vec = o[1]
    return looks('minimize', 'ref:vector')(I, lpi, direction_vec, columns)


def x_kamenev(I, n, f, epsilon=None):
    'a function of the support function (by its value in an arbitrary direction), the number of dimensions and the accuracy'
    v = ref('vector', 'any_direction')
    I.ctx.fact(eq(world_field(I, 'vector', 'size', 'nat', v.oid), n))
    I.ctx.oblige(f'{I.where()}: accuracy of the vertices', lt(0, epsilon))
    p = I.call(f, [v], {})
    t = pure('kamenev.get_verts', num(n), token(I, p), real(epsilon))
    many = z3.Function('FN_many', IS, z3.BoolSort())(t)
    if I.ctx.branch(many):
        r = Ref('points', t)
        I.ctx.fact(le(3, world_field(I, 'points', 'size', 'nat', t)))
        return r
    two = z3.Function('FN_two', IS, z3.BoolSort())(t)
    at = z3.Function('FN_vertex', IS, IS, IS)
    return PList(items=[('one', Ref('vector', at(t, z3.IntVal(i)))) for i in range(2 if I.ctx.branch(two) else 1)])


def x_hull(I, a, kw):
    h = Ref('Hull', pure('ConvexHull', token(I, a[0])))
    n, _ = seqview(I, world_field(I, 'Hull', 'vertices', 'ints', h.oid))
    I.ctx.fact(le(3, n))
    return h


def x_widths(I, lpi, x, y):
    'proved above'
    out = [looks('width', 'real')(I, lpi, d) for d in (x, y)]
    for w in out:
        I.ctx.fact(le(Fraction(1, 10 ** 5), w))
    return PList(items=[('one', w) for w in out])


def point_at(I, p, ix):
    _, i, j = ix
    return z3.Function('points.at', IS, IS, IS, RS)(num(p.oid), num(i), num(j))


GV = dict(DIRV, Hull={'vertices': 'ints'}, points={'[]': point_at, '__iter__': lambda I, p: (world_field(I, 'points', 'size', 'nat', p.oid), None)})

world_contract(LPP + 'get_verts', {k + s: (lambda v, k, s: lambda ctx: (lambda w: {'args': [ref('LpInstance', 'lpi'), v[0](), v[1](), Opaque('vectors'), (z3.Real('time') if s == '_at' else PList(items=[('one', z3.Real('time')), ('one', z3.Real('last'))]))],
                                                                 'world': w, 'watch': {'world': w}})(world()))(v, k, s)
                                   for k, v in {f'{kx}_{ky}': (axis(kx, 'xdim'), axis(ky, 'ydim')) for kx in ('dim', 'dir', 'time') for ky in ('dim', 'dir', 'time')}.items() for s in ('_at', '_from')}, P('C24'),
    """a closed list of points. Two time axes: the corners of the time interval. One time axis: the corners of (smallest and largest value in the direction) x (the time interval), each once.
    No time axis: the vertices found for the support function of the projection with an accuracy of a thousandth of the smaller width of the bounding box; three or more are put in the order of their convex hull""", """
    def spec(lpi, x, y, vecs, t):
        tol = 1e-9
        if isinstance(t, float):
            t = [t, t]
        if x is None and y is None:
            if abs(t[0] - t[1]) < tol:
                v = [[t[0], t[0]]]
            else:
                v = [[t[0], t[0]], [t[0], t[1]], [t[1], t[1]], [t[1], t[0]]]
        elif x is None or y is None:
            if x is None:
                d = y
            else:
                d = x
            if isinstance(d, int):
                d = _make_dir(lpi.dims, d)
            cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
            low = np.dot(d, lpi.minimize(direction_vec=d, columns=cols))
            high = np.dot(d, lpi.minimize(direction_vec=-1 * d, columns=cols))
            c = [(low, t[0])]
            if abs(low - high) > tol:
                c.append((high, t[0]))
                if abs(t[0] - t[1]) > tol:
                    c.append((high, t[1]))
            if abs(t[0] - t[1]) > tol:
                c.append((low, t[1]))
            v = []
            for a, b in c:
                if x is None:
                    v.append([b, a])
                else:
                    v.append([a, b])
        else:
            dx, dy = _make_dir(lpi.dims, x), _make_dir(lpi.dims, y)
            w = bbox_widths(lpi, dx, dy)
            cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
            def support(u):
                d = np.zeros((lpi.dims,), dtype=float)
                d += -u[0] * dx
                d += -u[1] * dy
                p = lpi.minimize(direction_vec=d, columns=cols)
                return np.array([np.dot(dx, p), np.dot(dy, p)])
            v = kamenev.get_verts(2, support, epsilon=min(w) / 1000.0)
            if len(v) > 2:
                v = [[v[i, 0], v[i, 1]] for i in ConvexHull(v).vertices]
        v.append(v[0])
        return v
    """, {LI + 'set_minimize_direction': set_objective, LI + 'minimize': minimize_set, LPP + '_make_dir': x_make_dir, LPP + 'bbox_widths': x_widths,
        'kamenev.get_verts': x_kamenev}, GV, hooks={'numpy.array': x_arr, 'numpy.dot': XDOT, 'numpy.zeros': zero, 'scipy.spatial.ConvexHull': x_hull})
