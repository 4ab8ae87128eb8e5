from common import *
RULE = 'random histories of writes/reads/copies on a constraint store against a plain array model; non-trivial = at least one block written and read back'


def gen_block(rng, r, c):
    return {'m': mat(rng, r, c, rng.choice([.3, .7, 1])) if r and c else [], 'r': r, 'c': c}


def gen(rng):
    dims = rng.randint(1, 3)
    ops = []
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(['cols', 'le', 'eq0', 'types', 'csr', 'csr', 'csc', 'csc', 'swig', 'rhs', 'rhs', 'clone', 'clone', 'bm',
                        'oob', 'opt'])
        ops.append([k, rng.randint(0, 10**6)])
    return {'kind': 'history', 'dims': dims, 'inp': rng.random() < .5, 'ops': ops}


class Model:
    def __init__(self):
        self.A = np.zeros((0, 0)); self.obj = np.zeros(0); self.t = []; self.b = []; self.names = []
        self.reach = None

    def copy(self):
        m = Model(); m.A = self.A.copy(); m.obj = self.obj.copy(); m.t = list(self.t); m.b = list(self.b); m.names = list(self.names)
        m.reach = self.reach
        return m

    def addrows(self, ts, bs):
        self.A = np.vstack([self.A, np.zeros((len(ts), self.A.shape[1]))])
        self.t += ts; self.b += bs

    def addcols(self, names):
        self.A = np.hstack([self.A, np.zeros((self.A.shape[0], len(names)))])
        self.obj = np.concatenate([self.obj, np.zeros(len(names))])
        self.names += names


def check(lpi, m, rng):
    raw = Raw(lpi) if True else None
    need(raw.A.shape == m.A.shape, f'store has shape {raw.A.shape}, written {m.A.shape}')
    need(np.array_equal(raw.A, m.A), 'stored matrix differs from what was written')
    need(raw.types == m.t, 'stored row types differ')
    need(np.array_equal(raw.obj, m.obj), f'objective {raw.obj.tolist()}, set {m.obj.tolist()} (shared with a copy, or left over)')
    need(np.array_equal(raw.rhs, np.array(m.b, dtype=float)), 'stored right-hand sides differ')
    need(list(lpi.get_names()) == m.names, 'column names differ')
    need(lpi.get_num_rows() == len(m.b) and lpi.get_num_cols() == len(m.names), 'sizes differ')
    need(list(lpi.get_types()) == m.t, 'get_types')
    need(np.array_equal(lpi.get_rhs(), np.array(m.b, dtype=float)), f'get_rhs returned {lpi.get_rhs()}, written {m.b} (types {m.t})')
    f = lpi.get_full_constraints()
    need(f.shape == m.A.shape and np.array_equal(f.toarray(), m.A), 'get_full_constraints')
    R, C = m.A.shape
    if R:
        for r in {0, R - 1, rng.randrange(R)}:
            g = lpi.get_row(r)
            need(g.shape == (1, C) and np.array_equal(g.toarray()[0], m.A[r]), f'get_row({r})')
        idx = [rng.randrange(R) for _ in range(3)]
        need(np.array_equal(lpi.get_rhs(idx), np.array([m.b[i] for i in idx], dtype=float)), f'get_rhs({idx})')
    x, y = rng.randint(0, C), rng.randint(0, R)
    w, h = rng.randint(0, C - x), rng.randint(0, R - y)
    if C:
        need(np.array_equal(lpi.get_dense_constraints(x, y, w, h), m.A[y:y + h, x:x + w]), f'get_dense_constraints({x},{y},{w},{h})')
    if m.reach is not None:
        need((lpi.dims, tuple(lpi.basis_mat_pos), lpi.cur_vars_offset, lpi.input_effects_offsets) == m.reach, 'layout fields')


def run(c):
    from hylaa.lpinstance import LpInstance, SwigArray
    from scipy.sparse import csr_matrix, csc_matrix
    dims = c['dims']
    lpi = LpInstance(); m = Model()
    n0 = 3 * dims + 1
    lpi.add_cols([f'n{i}' for i in range(n0)]); m.addcols([f'n{i}' for i in range(n0)])
    lpi.add_rows_equal_zero(2 * dims); m.addrows([glpk.GLP_FX] * (2 * dims), [0.0] * (2 * dims))
    lpi.set_reach_vars(dims, (0, 0), dims, (dims, 2 * dims) if c['inp'] else None)
    m.reach = (dims, (0, 0), dims, (dims, 2 * dims) if c['inp'] else None)
    live = [(lpi, m)]
    for k, s in c['ops']:
        rng = random.Random(s)
        lpi, m = live[rng.randrange(len(live))]
        R, C = m.A.shape
        if k == 'cols':
            n = rng.randint(0, 3)
            nm = [f'c{s % 97}_{i}' for i in range(n)]
            nm2 = list(nm)
            lpi.add_cols(nm); m.addcols(nm2)
            need(nm == nm2, 'add_cols changed its argument')
        elif k == 'le':
            b = [num(rng) for _ in range(rng.randint(0, 3))]
            lpi.add_rows_less_equal(np.array(b, dtype=float) if rng.random() < .5 or not b else b)
            m.addrows([glpk.GLP_UP] * len(b), [float(x) for x in b])
        elif k == 'eq0':
            n = rng.randint(0, 2)
            lpi.add_rows_equal_zero(n); m.addrows([glpk.GLP_FX] * n, [0.0] * n)
        elif k == 'types':
            n = rng.randint(1, 4)
            t = [rng.choice([glpk.GLP_UP, glpk.GLP_LO, glpk.GLP_FX]) for _ in range(n)]
            b = [num(rng) for _ in range(n)]
            lpi.add_rows_with_types(t, np.array(b, dtype=float) if rng.random() < .5 else b)
            m.addrows(list(t), [float(x) for x in b])
        elif k in ('csr', 'csc'):
            r0, c0 = rng.randint(0, R), rng.randint(0, C)
            h, w = rng.randint(0, R - r0), rng.randint(0, C - c0)
            blk = np.array(mat(rng, h, w, rng.choice([.2, .6, 1])), dtype=float).reshape(h, w)
            sp = (csr_matrix if k == 'csr' else csc_matrix)(blk, dtype=float)
            if rng.random() < .5:
                # unsorted indices
                for i in range(len(sp.indptr) - 1):
                    sl = slice(sp.indptr[i], sp.indptr[i + 1])
                    sp.indices[sl] = sp.indices[sl][::-1].copy(); sp.data[sl] = sp.data[sl][::-1].copy()
                sp.has_sorted_indices = False
            d0 = sp.toarray().copy()
            if h == 0 or w == 0:
                if k == 'csr' and h:
                    m.A[r0:r0 + h, :] = 0
                if k == 'csc' and w:
                    m.A[:, c0:c0 + w] = 0
            if k == 'csr':
                off = (r0, c0) if (r0, c0) != (0, 0) or rng.random() < .5 else None
                lpi.set_constraints_csr(sp, offset=off)
                m.A[r0:r0 + h, :] = 0
            else:
                lpi.set_constraints_csc(sp, offset=(r0, c0))
                m.A[:, c0:c0 + w] = 0
            m.A[r0:r0 + h, c0:c0 + w] = blk
            need(np.array_equal(sp.toarray(), d0), 'argument matrix changed')
        elif k == 'oob':
            h, w = rng.randint(1, 2), rng.randint(1, 2)
            r0, c0 = rng.choice([(R - h + 1, 0), (0, C - w + 1), (-1, 0), (0, -1), (R - h + 1, C - w + 1)])
            blk = np.ones((h, w))
            if rng.random() < .5:
                expect_reject(lambda: lpi.set_constraints_csr(csr_matrix(blk), offset=(r0, c0)), f'block {h}x{w} at {(r0, c0)} of {R}x{C}', (RuntimeError, AssertionError, ValueError))
            else:
                expect_reject(lambda: lpi.set_constraints_csc(csc_matrix(blk), offset=(r0, c0)), f'block {h}x{w} at {(r0, c0)} of {R}x{C}', (RuntimeError, AssertionError, ValueError))
        elif k == 'swig':
            r0 = rng.randint(0, R - 1)
            rows = []
            for _ in range(rng.randint(1, R - r0)):
                cols = rng.sample(range(C), rng.randint(0, C))
                rows.append((cols, [float(num(rng, True)) for _ in cols]))
            lpi.set_constraints_swigvec_rows([SwigArray.as_double_array(v) for _, v in rows],
                                             [SwigArray.as_int_array([1 + x for x in cc]) for cc, _ in rows],
                                             [len(v) for _, v in rows], r0)
            for i, (cc, v) in enumerate(rows):
                m.A[r0 + i, :] = 0
                m.A[r0 + i, cc] = v
        elif k == 'rhs':
            r, v = rng.randrange(R), float(num(rng))
            lpi.set_constraint_rhs(r, v); m.b[r] = v
        elif k == 'opt':
            # queries never change the stored constraints
            try:
                how = rng.choice(['list', 'short', 'csr', 'off'])
                m.obj = np.zeros(C)
                if how in ('list', 'short'):
                    d = [float(num(rng)) for _ in range(dims if how == 'list' else rng.randint(1, dims))]
                    lpi.set_minimize_direction(d)
                    m.obj[dims:dims + len(d)] = d
                else:
                    off = None if how == 'csr' else rng.randint(0, C - 1)
                    w = dims if off is None else rng.randint(1, C - off)
                    d = np.array(mat(rng, 1, w, .6), dtype=float)
                    lpi.set_minimize_direction(csr_matrix(d), is_csr=True, offset=off)
                    o = dims if off is None else off
                    m.obj[o:o + w] = d[0]
            except AssertionError:
                raise Violation('set_minimize_direction refused a direction of the right length')
        elif k == 'bm':
            # writing a basis matrix through the cached index arrays
            from hylaa import lputil
            bm = np.array(mat(rng, dims, dims), dtype=float)
            lputil.set_basis_matrix(lpi, bm)
            m.A[0:dims, :] = 0
            m.A[0:dims, 0:dims] = bm
            for i in range(dims):
                m.A[i, dims + i] = -1
                if c['inp']:
                    m.A[i, 2 * dims + i] = 1
            need(np.array_equal(lputil.get_basis_matrix(lpi), bm), 'get_basis_matrix does not return what was set')
        elif k == 'clone' and len(live) < 4:
            lp2 = lpi.clone()
            need(Raw(lp2).same(Raw(lpi)), 'copy differs from the original')
            need(sorted(lp2.obj_cols) == sorted(lpi.obj_cols), 'copy lost objective bookkeeping')
            live.append((lp2, m.copy()))
        for l, mm in live:
            check(l, mm, rng)
    return True
