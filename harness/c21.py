from common import *
RULE = 'random points, dynamics and direction lists (rank-deficient, nilpotent, too few or too many rows): orthonormality, successive spans and unchanged arguments; non-trivial = at least one direction from the input'


def gen(rng):
    n = rng.randint(1, 5) if rng.random() < .95 else rng.choice([8, 12])
    k = rng.choice(['arnoldi', 'reorth', 'reorth'])
    c = {'kind': k, 'n': n, 's': rng.randint(0, 10**6)}
    if k == 'arnoldi':
        c['a'] = gen_a(rng, n)
        if rng.random() < .3:
            c['a'] = [[(c['a'][i][j] if rng.random() < .5 else 0) for j in range(n)] for i in range(n)]
        if rng.random() < .25:
            sc = rng.choice([1e-3, 1e-2])
            c['a'] = [[sc * x for x in r] for r in c['a']]
        c['p'] = [num(rng) for _ in range(n)]
    else:
        r = rng.randint(0, n + 2)
        rows = [[num(rng) if rng.random() < .7 else 0 for _ in range(n)] for _ in range(r)]
        for i in range(r):
            if rng.random() < .25 and i:
                rows[i] = [2 * x for x in rows[rng.randrange(i)]]
            if rng.random() < .1:
                rows[i] = [0] * n
        if r > 1 and rng.random() < .3: # nearly dependent, but clearly more than rounding
            i, eps = rng.randrange(1, r), rng.choice([3e-5, 1e-3, 2e-2])
            rows[i] = [x + eps * rng.choice([-1, 0, 1]) for x in rows[rng.randrange(i)]]
        if rng.random() < .1 and r:
            i = rng.randrange(r)
            rows[i] = [x * 1e-3 for x in rows[i]]
        c['m'] = rows
        c['list'] = rng.random() < .3 and r > 0
    return c


def orth(m, n):
    need(isinstance(m, np.ndarray) and m.shape == (n, n), f'shape {getattr(m, "shape", None)}, expected {(n, n)}')
    need(np.max(np.abs(m @ m.T - np.eye(n))) < (1e-6 if n < 8 else 1e-4), f'directions are not orthonormal: {m.tolist()}')


def spans(m, vecs, n):
    'leading rows span the given vectors in order: every vector lies in the span of the first k rows, k = rank so far'
    basis = []
    for i, v in enumerate(vecs):
        w = np.array(v, dtype=float)
        for q in basis:
            w = w - q * np.dot(q, w)
        for q in basis:
            w = w - q * np.dot(q, w)
        nr = np.linalg.norm(w)
        if 1e-8 < nr < 1e-5:
            raise Skip('nearly dependent')
        if nr >= 1e-5:
            basis.append(w / nr)
        k = len(basis)
        if k > n:
            break
        lead = m[:k]
        res = np.array(v, dtype=float) - lead.T @ (lead @ np.array(v, dtype=float))
        need(np.linalg.norm(res) < 1e-6 * (1 + np.linalg.norm(v)), f'the first {k} directions do not span vector {i}')
    return len(basis)


def run(c):
    from hylaa import lputil
    n = c['n']
    np.random.seed(c['s'] % 1000)
    if c['kind'] == 'arnoldi':
        A = csr(c['a'], n)
        a0 = A.toarray().copy()
        p = list(map(float, c['p']))
        arg = np.array(p) if c['s'] % 2 else p
        with accepts('make_direction_matrix'):
            m = lputil.make_direction_matrix(arg, A)
        orth(m, n)
        need(list(arg) == p and np.array_equal(A.toarray(), a0), 'arguments changed')
        # successive images (the first direction comes from the dynamics applied to the point)
        v = np.array(p)
        vs = []
        for _ in range(n):
            v = a0 @ v
            nv = np.linalg.norm(v)
            if nv < 1e-8:
                break
            v = v / nv
            vs.append(v.copy())
        return krylov(m, np.array(p), a0, n)
    mat_ = np.array(c['m'], dtype=float).reshape(len(c['m']), n)
    arg = [list(map(float, r)) for r in c['m']] if c['list'] else mat_.copy()
    with accepts('reorthogonalize_matrix'):
        m = lputil.reorthogonalize_matrix(arg, n)
    orth(m, n)
    need(np.array_equal(np.array(arg, dtype=float).reshape(mat_.shape), mat_), 'the given direction matrix was changed')
    return spans(m, mat_, n) > 0


def krylov(m, p, A, n):
    'direction j is A times direction j-1 (A times the point for the first) made orthogonal, as long as that is independent'
    prev = p
    for j in range(n):
        w = A @ prev
        w0 = np.linalg.norm(w)
        for q in m[:j]:
            w = w - q * np.dot(q, w)
        nr = np.linalg.norm(w)
        if 1e-8 < nr < 1e-5:
            raise Skip('nearly dependent')
        if nr < 1e-8:
            return j > 0
        need(np.linalg.norm(w / nr - m[j]) < 1e-4 or np.linalg.norm(w / nr + m[j]) < 1e-4, f'direction {j} is not the next image under the dynamics')
        prev = m[j]
    return True
