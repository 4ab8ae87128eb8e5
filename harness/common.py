'''Shared tools of the bounded runtime checks (run with the repository's own interpreter).

Nothing here is counted as proof.  The oracles do not use hylaa code: sets are described as affine images of
H-polytopes (class Desc) and solved with scipy's HiGHS; LP contents are read through the raw swiglpk calls.
'''
import os, sys, random, math, io, contextlib
import numpy as np
import scipy.linalg
from scipy.optimize import linprog
import swiglpk as glpk

TOL = 1e-5


class Violation(Exception):
    'a property does not hold on this concrete input'


class Known(Exception):
    'a listed known finding shows on this concrete input'
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


class Skip(Exception):
    'the generated case is degenerate / outside the preconditions'


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def close(a, b, tol=TOL):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b)))))


def expect_reject(fn, what, types=(Exception,)):
    try:
        fn()
    except types:
        return
    raise Violation('accepted although it must be refused: ' + what)


@contextlib.contextmanager
def accepts(what):
    'a well-formed operation must not raise'
    try:
        yield
    except (Violation, Known, Skip):
        raise
    except Exception as e:    # pylint: disable=broad-except
        if 'lgg approx model beta was too close to zero' in str(e):
            raise Skip('inputs too small for this approximation model')
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
        raise Violation(f'{what}: raised {type(e).__name__}: {e} at {where}')


# ------------------------------------------------------------------ raw LP access

class Raw:
    'the contents of an LpInstance, read through swiglpk only'

    def __init__(self, lpi):
        lp = lpi.lp
        self.rows = glpk.glp_get_num_rows(lp)
        self.cols = glpk.glp_get_num_cols(lp)
        self.A = np.zeros((self.rows, self.cols))
        self.types = []
        self.rhs = np.zeros(self.rows)
        ia = glpk.intArray(self.cols + 2)
        da = glpk.doubleArray(self.cols + 2)
        for r in range(self.rows):
            n = glpk.glp_get_mat_row(lp, r + 1, ia, da)
            for k in range(1, n + 1):
                self.A[r, ia[k] - 1] = da[k]
            t = glpk.glp_get_row_type(lp, r + 1)
            self.types.append(t)
            self.rhs[r] = glpk.glp_get_row_lb(lp, r + 1) if t == glpk.GLP_LO else glpk.glp_get_row_ub(lp, r + 1)
        self.obj = np.array([glpk.glp_get_obj_coef(lp, c + 1) for c in range(self.cols)])
        self.obj0 = glpk.glp_get_obj_coef(lp, 0)
        self.objdir = glpk.glp_get_obj_dir(lp)
        self.coltypes = [glpk.glp_get_col_type(lp, c + 1) for c in range(self.cols)]
        self.off = lpi.cur_vars_offset
        self.dims = lpi.dims
        self.names = list(lpi.names)

    def split(self):
        ub, eq = [], []
        for r in range(self.rows):
            t = self.types[r]
            if t == glpk.GLP_UP:
                ub.append((self.A[r], self.rhs[r]))
            elif t == glpk.GLP_LO:
                ub.append((-self.A[r], -self.rhs[r]))
            elif t == glpk.GLP_FX:
                eq.append((self.A[r], self.rhs[r]))
            elif t != glpk.GLP_FR:
                raise Violation(f'unexpected row type {t} in row {r}')
        f = lambda l: (np.array([x for x, _ in l]).reshape(len(l), self.cols), np.array([y for _, y in l]))
        return f(ub), f(eq)

    def desc(self):
        (au, bu), (ae, be) = self.split()
        bad = [c for c, t in enumerate(self.coltypes) if t != glpk.GLP_FR]
        need(not bad, f'columns {bad} are not free variables')
        M = np.zeros((self.dims, self.cols))
        for i in range(self.dims):
            M[i, self.off + i] = 1
        return Desc(M, np.zeros(self.dims), au, bu, ae, be)

    def same(self, o, objective=True):
        return self.A.shape == o.A.shape and np.array_equal(self.A, o.A) and self.types == o.types and \
            np.array_equal(self.rhs, o.rhs) and self.names == o.names and self.off == o.off and \
            self.dims == o.dims and (not objective or np.array_equal(self.obj, o.obj))


# ------------------------------------------------------------------ set descriptions

class GlpkProb:
    'oracle LP: fresh raw GLPK problem, primal simplex; every optimum is checked for feasibility'

    def __init__(self, au, bu, ae, be):
        self.au, self.bu, self.ae, self.be = au, bu, ae, be
        self.n = n = au.shape[1]
        self.lp = lp = glpk.glp_create_prob()
        k = len(bu) + len(be)
        glpk.glp_add_cols(lp, n)
        for j in range(n):
            glpk.glp_set_col_bnds(lp, j + 1, glpk.GLP_FR, 0, 0)
        if k:
            glpk.glp_add_rows(lp, k)
        A = np.vstack([au, ae]) if k else au
        ia, da = glpk.intArray(n + 1), glpk.doubleArray(n + 1)
        for i in range(k):
            if i < len(bu):
                glpk.glp_set_row_bnds(lp, i + 1, glpk.GLP_UP, 0, float(bu[i]))
            else:
                glpk.glp_set_row_bnds(lp, i + 1, glpk.GLP_FX, float(be[i - len(bu)]), float(be[i - len(bu)]))
            nz = np.nonzero(A[i])[0]
            for t, j in enumerate(nz):
                ia[t + 1] = int(j) + 1
                da[t + 1] = float(A[i, j])
            glpk.glp_set_mat_row(lp, i + 1, len(nz), ia, da)
        glpk.glp_std_basis(lp)
        self.params = glpk.glp_smcp()
        glpk.glp_init_smcp(self.params)
        self.params.msg_lev = glpk.GLP_MSG_OFF
        self.params.meth = glpk.GLP_PRIMAL

    def solve(self, c):
        lp = self.lp
        for j in range(self.n):
            glpk.glp_set_obj_coef(lp, j + 1, float(c[j]))
        if glpk.glp_simplex(lp, self.params) != 0:
            glpk.glp_std_basis(lp)
            return None
        st = glpk.glp_get_status(lp)
        if st == glpk.GLP_OPT:
            z = np.array([glpk.glp_get_col_prim(lp, j + 1) for j in range(self.n)])
            t = 1e-6 * (1 + np.max(np.abs(z), initial=0))
            if np.any(self.au @ z > self.bu + t) or np.any(np.abs(self.ae @ z - self.be) > t):
                glpk.glp_std_basis(lp)
                return None
            return 0, float(np.dot(c, z)), z
        if st == glpk.GLP_NOFEAS:
            return 2, None, None
        glpk.glp_std_basis(lp)
        return None

    def __del__(self):
        try:
            glpk.glp_delete_prob(self.lp)
        except Exception:    # pylint: disable=broad-except
            pass


class Desc:
    '{ M z + m : Au z <= bu, Ae z = be }'

    def __init__(self, M, m, au=None, bu=None, ae=None, be=None):
        self.M = np.array(M, dtype=float)
        self.m = np.array(m, dtype=float).reshape(self.M.shape[0])
        n = self.M.shape[1]
        self.bu = np.zeros(0) if bu is None else np.array(bu, dtype=float).reshape(-1)
        self.be = np.zeros(0) if be is None else np.array(be, dtype=float).reshape(-1)
        self.au = np.zeros((0, n)) if au is None else np.array(au, dtype=float).reshape(len(self.bu), n)
        self.ae = np.zeros((0, n)) if ae is None else np.array(ae, dtype=float).reshape(len(self.be), n)
        self._lp = None
        self.soft = None     # which rows of au are guard/invariant conditions (see margin)

    def softs(self):
        r = np.zeros(len(self.bu))
        if self.soft is not None:
            r[:len(self.soft)] = self.soft
        return r

    def like(self, o):
        self.soft = o.softs()
        return self

    @property
    def dims(self):
        return self.M.shape[0]

    def copy(self):
        return Desc(self.M.copy(), self.m.copy(), self.au.copy(), self.bu.copy(), self.ae.copy(), self.be.copy()).like(self)

    def widen(self, k):
        'add k free variables'
        z = lambda a: np.hstack([a, np.zeros((a.shape[0], k))])
        return Desc(z(self.M), self.m, z(self.au), self.bu, z(self.ae), self.be).like(self)

    def map(self, R, t=None):
        R = np.array(R, dtype=float).reshape(-1, self.dims)
        return Desc(R @ self.M, R @ self.m + (0 if t is None else np.array(t, dtype=float)),
                    self.au, self.bu, self.ae, self.be).like(self)

    def meet(self, G, g):
        'intersect with G x <= g'
        G = np.array(G, dtype=float).reshape(-1, self.dims)
        g = np.array(g, dtype=float).reshape(-1)
        d = Desc(self.M, self.m, np.vstack([self.au, G @ self.M]), np.concatenate([self.bu, g - G @ self.m]),
                 self.ae, self.be)
        d.soft = np.concatenate([self.softs(), np.ones(len(g))])
        return d

    def plus(self, other):
        'Minkowski sum'
        a, b = self.M.shape[1], other.M.shape[1]
        bd = lambda x, y: np.vstack([np.hstack([x, np.zeros((x.shape[0], b))]),
                                     np.hstack([np.zeros((y.shape[0], a)), y])])
        d = Desc(np.hstack([self.M, other.M]), self.m + other.m, bd(self.au, other.au),
                 np.concatenate([self.bu, other.bu]), bd(self.ae, other.ae), np.concatenate([self.be, other.be]))
        d.soft = np.concatenate([self.softs(), other.softs()])
        return d

    def lp(self, c):
        'min c.z -> (status, value, z)'
        n = self.M.shape[1]
        if n == 0:
            ok = np.all(self.bu >= -1e-9) and np.all(np.abs(self.be) <= 1e-9)
            return (0 if ok else 2), 0.0, np.zeros(0)
        if self._lp is None or self._lp[0] != (id(self.au), id(self.bu), id(self.ae), id(self.be)):
            self._lp = ((id(self.au), id(self.bu), id(self.ae), id(self.be)),
                        GlpkProb(self.au, self.bu, self.ae, self.be))
        r = self._lp[1].solve(c)
        if r is not None:
            return r
        for method in ('highs', 'highs-ds', 'highs-ipm'):
            r = linprog(c, A_ub=self.au if len(self.bu) else None, b_ub=self.bu if len(self.bu) else None,
                        A_eq=self.ae if len(self.be) else None, b_eq=self.be if len(self.be) else None,
                        bounds=[(None, None)] * n, method=method)
            if r.status in (0, 2, 3):
                return r.status, r.fun, r.x
        return r.status, r.fun, r.x

    def feasible(self):
        st, _, _ = self.lp(np.zeros(self.M.shape[1]))
        return st == 0

    def margin(self, soft=False):
        '''largest s with Au z + s <= bu feasible (equalities exact): <0 infeasible; robustly classified if |s| large.
        soft: only the rows added by meet() get the slack'''
        n = self.M.shape[1]
        if len(self.bu) == 0:
            return 1.0 if self.feasible() else -1.0
        nr = np.linalg.norm(self.au, axis=1)
        if np.any((nr < 1e-12) & (self.bu < -1e-9)):
            return -1.0
        # a condition added to a set that does not vary in its direction holds or not by what is left
        cap = np.min(self.bu[(nr < 1e-12) & (self.softs() > 0)], initial=1.0)
        sl = (nr > 1e-12).astype(float)
        if soft:
            sl = sl * self.softs()
            # conditions that do not restrict anything have no slack to give
            big = np.max(np.abs(self.au), axis=1, initial=0)
            sl = sl * (big > 1e-9)
        au = np.hstack([self.au, sl.reshape(-1, 1)])
        ae = np.hstack([self.ae, np.zeros((self.ae.shape[0], 1))])
        d = Desc(np.zeros((1, n + 1)), [0], np.vstack([au, np.eye(n + 1)[-1:]]), np.concatenate([self.bu, [1.0]]), ae, self.be)
        st, v, _ = d.lp(-np.eye(n + 1)[-1])
        return min(-v, max(cap, 0.0)) if st == 0 else -1.0

    def support(self, d):
        'max d.x; None if empty, inf if unbounded'
        d = np.array(d, dtype=float)
        st, v, _ = self.lp(-(d @ self.M))
        if st == 2:
            return None
        if st == 3:
            return math.inf if self.feasible() else None
        if st != 0:
            raise Skip('oracle LP failed')
        return -v + float(d @ self.m)

    def argmax(self, d):
        st, _, z = self.lp(-(np.array(d, dtype=float) @ self.M))
        if st != 0:
            return None
        return self.M @ z + self.m

    def contains(self, x, tol=1e-6):
        'is x within tol (inf norm) of the set?'
        n = self.M.shape[1]
        x = np.array(x, dtype=float)
        # min s : |Mz+m-x| <= s
        one = np.ones((self.dims, 1))
        au = np.vstack([np.hstack([self.au, np.zeros((self.au.shape[0], 1))]),
                        np.hstack([self.M, -one]), np.hstack([-self.M, -one])])
        bu = np.concatenate([self.bu, x - self.m, self.m - x])
        ae = np.hstack([self.ae, np.zeros((self.ae.shape[0], 1))])
        st, v, _ = Desc(np.zeros((1, n + 1)), [0], au, bu, ae, self.be).lp(np.eye(n + 1)[-1])
        return st == 0 and v <= tol * (1 + np.max(np.abs(x), initial=0))


def box_desc(box):
    n = len(box)
    A = np.vstack([np.eye(n), -np.eye(n)]) if n else np.zeros((0, 0))
    return Desc(np.eye(n), np.zeros(n), A, [b[1] for b in box] + [-b[0] for b in box])


def directions(dims, rng, extra=6):
    ds = []
    for i in range(dims):
        for s in (1, -1):
            d = [0.0] * dims
            d[i] = float(s)
            ds.append(d)
    for _ in range(extra):
        ds.append([float(rng.randint(-4, 4)) for _ in range(dims)])
    return ds


def same_set(got, want, rng, what, tol=TOL, extra=6, also=()):
    'compare two Descs through their support functions'
    need(got.dims == want.dims, f'{what}: dimension {got.dims}, expected {want.dims}')
    fa, fb = got.feasible(), want.feasible()
    if fa != fb:
        if abs(want.margin()) < 1e-6:
            raise Skip('borderline feasibility')
        raise Violation(f'{what}: set is {"non-empty" if fa else "empty"}, expected {"non-empty" if fb else "empty"}')
    if not fb:
        return False
    for d in directions(want.dims, rng, extra) + [np.array(r, dtype=float) for r in also]:
        a, b = got.support(d), want.support(d)
        if a is None or b is None:
            raise Skip('borderline feasibility')
        if math.isinf(a) or math.isinf(b):
            need(a == b, f'{what}: support in direction {d} is {a}, expected {b}')
            continue
        need(abs(a - b) <= tol * (1 + abs(a) + abs(b)),
             f'{what}: maximum in direction {d} is {a!r}, expected {b!r}')
    return True


def contained(inner, outer, rng, what, tol=TOL, extra=6):
    for d in directions(inner.dims, rng, extra):
        a, b = inner.support(d), outer.support(d)
        if a is None:
            return
        need(b is not None, f'{what}: outer set is empty')
        need(a <= b + tol * (1 + abs(a) + abs(b)), f'{what}: direction {d}: member reaches {a!r}, result only {b!r}')


def lpi_desc(lpi):
    return Raw(lpi).desc()


# ------------------------------------------------------------------ dynamics oracles

def expm(a):
    return scipy.linalg.expm(np.array(a, dtype=float))


def step_mats(a, b, dt):
    'one-step matrix and one-step input matrix, from a single augmented exponential'
    a = np.array(a, dtype=float)
    n = a.shape[0]
    if b is None:
        return expm(a * dt), None
    b = np.array(b, dtype=float)
    m = b.shape[1]
    big = np.zeros((n + m, n + m))
    big[:n, :n] = a
    big[:n, n:] = b
    e = expm(big * dt)
    return e[:n, :n], e[:n, n:]


# ------------------------------------------------------------------ generators

Q = [0, 0, 1, -1, 2, -2, 0.5, -0.5, 0.25, 1.5, -1.5, 3, -0.75]


def num(rng, nz=False):
    while True:
        v = rng.choice(Q)
        if v or not nz:
            return v


def mat(rng, r, c, density=0.7):
    return [[(num(rng) if rng.random() < density else 0) for _ in range(c)] for _ in range(r)]


def gen_a(rng, n):
    k = rng.random()
    if k < 0.1:
        return [[0] * n for _ in range(n)]
    if k < 0.25:    # nilpotent / clock like
        return [[(num(rng) if j > i else 0) for j in range(n)] for i in range(n)]
    return [[v * 0.5 for v in row] for row in mat(rng, n, n, rng.choice([0.4, 0.8, 1.0]))]


def gen_box(rng, n, flat=0.25):
    b = []
    for _ in range(n):
        lo = rng.choice([-3, -2, -1, -0.5, 0, 0.5, 1, 2])
        w = 0 if rng.random() < flat else rng.choice([0.25, 0.5, 1, 2])
        b.append([lo, lo + w])
    return b


def gen_poly(rng, n, extra=None):
    'bounded feasible H-polytope containing a random point: (A, b)'
    p = [rng.choice([-1, -0.5, 0, 0.5, 1]) for _ in range(n)]
    A, b = [], []
    for i in range(n):
        for s in (1, -1):
            row = [0] * n
            row[i] = s
            A.append(row)
            b.append(s * p[i] + rng.choice([0, 0.25, 0.5, 1, 2]))
    for _ in range(rng.randint(0, 3) if extra is None else extra):
        row = [num(rng) if rng.random() < 0.7 else 0 for _ in range(n)]
        A.append(row)
        b.append(sum(x * y for x, y in zip(row, p)) + rng.choice([0, 0.25, 0.5, 1]))
    idx = list(range(len(A)))
    rng.shuffle(idx)
    return [A[i] for i in idx], [b[i] for i in idx]


def gen_zono(rng, n):
    return [num(rng) for _ in range(n)], [[num(rng) for _ in range(n)] for _ in range(rng.randint(0, n + 2))]


def gen_inputs(rng, n, lo=1, hi=2):
    m = rng.randint(lo, hi)
    b = mat(rng, n, m, 0.7)
    while not any(any(r) for r in b):
        b = mat(rng, n, m, 0.9)
    U, u = gen_poly(rng, m, rng.randint(0, 1))
    return b, U, u


def gen_mode(rng, dims=None, inputs=None):
    n = dims if dims is not None else rng.randint(1, 3)
    d = {'a': gen_a(rng, n)}
    if inputs or (inputs is None and rng.random() < 0.4):
        d['b'], d['U'], d['u'] = gen_inputs(rng, n)
    return d


def gen_setspec(rng, n):
    k = rng.random()
    if k < 0.5:
        return {'kind': 'box', 'box': gen_box(rng, n)}
    if k < 0.8:
        A, b = gen_poly(rng, n)
        return {'kind': 'cons', 'A': A, 'b': b, 'sparse': rng.random() < 0.5}
    c, g = gen_zono(rng, n)
    return {'kind': 'zono', 'c': c, 'g': g}


# ------------------------------------------------------------------ building real objects

def csr(m, cols=None):
    from scipy.sparse import csr_matrix
    m = np.array(m, dtype=float)
    if m.size == 0 and m.ndim < 2:
        m = m.reshape(0, cols or 0)
    return csr_matrix(m, dtype=float)


def real_mode(ha, spec, name):
    m = ha.new_mode(name)
    if spec.get('a') is not None:
        m.set_dynamics(np.array(spec['a'], dtype=float))
        if spec.get('b') is not None:
            m.set_inputs(np.array(spec['b'], dtype=float), np.array(spec['U'], dtype=float),
                         np.array(spec['u'], dtype=float), allow_constants=True)
        if spec.get('inv'):
            m.set_invariant(np.array([r for r, _ in spec['inv']], dtype=float), [b for _, b in spec['inv']])
    return m


def new_ha():
    from hylaa.hybrid_automaton import HybridAutomaton
    return HybridAutomaton()


def real_set(spec, mode):
    from hylaa import lputil
    with accepts('building a set from a well-formed description'):
        if spec['kind'] == 'box':
            return lputil.from_box([tuple(b) for b in spec['box']], mode)
        if spec['kind'] == 'cons':
            A = np.array(spec['A'], dtype=float)
            if spec.get('sparse'):
                A = csr(A)
            return lputil.from_constraints(A, list(spec['b']), mode)
        if spec['kind'] == 'zono':
            return lputil.from_zonotope(list(spec['c']), [list(g) for g in spec['g']], mode)
    raise RuntimeError(spec['kind'])


def set_desc(spec):
    if spec['kind'] == 'box':
        return box_desc(spec['box'])
    if spec['kind'] == 'cons':
        n = len(spec['A'][0])
        return Desc(np.eye(n), np.zeros(n), spec['A'], spec['b'])
    c, g = spec['c'], spec['g']
    k = len(g)
    M = np.array(g, dtype=float).reshape(k, len(c)).T
    return Desc(M, c, np.vstack([np.eye(k), -np.eye(k)]), np.ones(2 * k))


class Traj:
    'oracle for a set of trajectories inside one mode: keeps (initial z, inputs in time order)'

    def __init__(self, d0, mode_spec, dt):
        self.d = d0            # current states
        self.init = d0.copy()  # initial states of the mode (same z)
        self.spec = mode_spec
        self.E, self.G = step_mats(mode_spec['a'], mode_spec.get('b'), dt)
        self.step_no = 0

    def step(self):
        d = self.d.map(self.E)
        ini = self.init
        if self.G is not None:
            m = self.G.shape[1]
            k = d.M.shape[1]
            d = d.widen(m)
            d.M[:, k:] = self.G
            U = np.array(self.spec['U'], dtype=float).reshape(-1, m)
            d.au = np.vstack([d.au, np.hstack([np.zeros((U.shape[0], k)), U])])
            d.bu = np.concatenate([d.bu, np.array(self.spec['u'], dtype=float)])
            ini = ini.widen(m)
        self.d = d
        self.init = Desc(ini.M, ini.m, d.au, d.bu, d.ae, d.be).like(d)
        self.step_no += 1

    def trim(self, G, g):
        self.d = self.d.meet(G, g)
        self.init = Desc(self.init.M, self.init.m, self.d.au, self.d.bu, self.d.ae, self.d.be).like(self.d)


class ShiftTraj(Traj):
    '''what the code computes for trimming with inputs (known finding KF1): the input variable of block j keeps the
    coefficient e^{A(j-1)dt}G for ever, so a constraint recorded at step i later refers to shifted inputs'''

    def trim(self, G, g):
        if not hasattr(self, 'blocks'):
            self.k0, self.M0, self.m0, self.blocks = self.d.M.shape[1], self.d.M.copy(), self.d.m.copy(), 0
        self.d = self.d.meet(G, g)

    def step(self):
        n = self.E.shape[0]
        if not hasattr(self, 'blocks'):
            self.blocks = 0
            self.k0 = self.d.M.shape[1]
            self.M0 = self.d.M.copy()
            self.m0 = self.d.m.copy()
        self.step_no += 1
        Ek = np.linalg.matrix_power(self.E, self.step_no)
        d = self.d
        if self.G is not None:
            m = self.G.shape[1]
            k = d.M.shape[1]
            d = d.widen(m)
            U = np.array(self.spec['U'], dtype=float).reshape(-1, m)
            d.au = np.vstack([d.au, np.hstack([np.zeros((U.shape[0], k)), U])])
            d.bu = np.concatenate([d.bu, np.array(self.spec['u'], dtype=float)])
            self.blocks += 1
            M = np.zeros((n, d.M.shape[1]))
            M[:, :self.k0] = Ek @ self.M0
            for j in range(self.blocks):
                M[:, self.k0 + j * m:self.k0 + (j + 1) * m] = np.linalg.matrix_power(self.E, j) @ self.G
            d = Desc(M, Ek @ self.m0, d.au, d.bu, d.ae, d.be).like(d)
        else:
            d = Desc(Ek @ self.M0, Ek @ self.m0, d.au, d.bu, d.ae, d.be).like(d)
        self.d = d


def real_core(ha, **kw):
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    s = HylaaSettings(kw.pop('dt', 0.25), kw.pop('bound', 1.0))
    s.stdout = HylaaSettings.STDOUT_NONE
    for k, v in kw.items():
        setattr(s, k, v)
    return Core(ha, s)
