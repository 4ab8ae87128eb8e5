from common import *
RULE = 'random dynamics/inputs x request sequences (repeats, gaps, backwards, approximation switched on anywhere) against one augmented matrix exponential; non-trivial = some k>=1 requested'


def gen(rng):
    n = rng.randint(1, 4)
    md = gen_mode(rng, n)
    seq = []
    k = 0
    for _ in range(rng.randint(1, 7)):
        k = rng.choice([k + 1, k + 1, k + 1, rng.randint(0, 8), k, 0, 1, max(0, k - 1), k + 2])
        seq.append(k)
    if rng.random() < .12:      # far steps
        seq.insert(rng.randint(0, len(seq)), rng.choice([11, 17, 33]))
        seq += [seq[-1] + 1]
        if rng.random() < .5:
            k = rng.choice([11, 17, 33])
            seq += [k, k + rng.choice([1, 2, 3]), k + rng.choice([2, 4])]
        md['a'] = [[x / 4 for x in r] for r in md['a']]
    c = {'kind': 'seq', 'mode': md, 'dt': rng.choice([0.05, 0.1, 0.25, 0.5, 1.0] if max(seq) < 11 else [.05, .1]), 'seq': seq, 'lgg': -1,
         'keep': rng.random() < .5}
    if md.get('b') and rng.random() < .5:
        c['lgg'] = rng.randint(1, len(seq))
        c['kind'] = 'lgg'
    return c


def run(c):
    from hylaa.time_elapse import TimeElapser
    ha = new_ha()
    m = real_mode(ha, c['mode'], 'm')
    E, G = step_mats(c['mode']['a'], c['mode'].get('b'), c['dt'])
    n = E.shape[0]
    te = TimeElapser(m, c['dt'])
    lgg = False
    kept = []
    a0 = m.a_csr.toarray().copy()
    for i, k in enumerate(c['seq']):
        if i == c['lgg']:
            with accepts('switching the approximation on'):
                te.use_lgg_approx()
            lgg = True
        with accepts(f'matrices for step {k} after {c["seq"][:i]} (lgg={lgg})'):
            bm, ie = te.get_basis_matrix(k)
        A = np.array(c['mode']['a'], dtype=float)
        P = expm(A * (k * c['dt']))
        what = f'step {k} after requests {c["seq"][:i]}, approximation {"on" if lgg else "off"}'
        need(close(bm, P, 1e-7), f'basis matrix at {what}: {np.array(bm).tolist()}, expected {P.tolist()}')
        if k == 0 or G is None:
            need(ie is None, f'input effects at {what} should be none')
        else:
            Pk = expm(A * ((k - 1) * c['dt']))
            want = np.hstack([Pk @ (np.array(c['mode']['b'], dtype=float) * c['dt']), Pk]) if lgg else Pk @ G
            need(ie is not None and close(ie, want, 1e-6), f'input effects at {what}: {np.array(ie).tolist()}, expected {want.tolist()}')
        kept.append((k, bm, np.array(bm).copy(), ie, None if ie is None else np.array(ie).copy()))
    for k, bm, b0, ie, i0 in kept:
        need(np.array_equal(bm, b0) and (ie is None or np.array_equal(ie, i0)), f'matrices returned for step {k} were changed by later requests')
    need(np.array_equal(m.a_csr.toarray(), a0), 'dynamics changed')
    return any(c['seq'])
