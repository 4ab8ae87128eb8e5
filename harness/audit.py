'''Audit of the LP solver: does GLPK itself answer wrongly on the problem it was given?

Only used to look again at a case that ended in a violation.  A wrong answer of the solver (an "optimal" point that
violates the rows, an optimum that is not one, "infeasible" for a problem that the same solver can solve from a fresh
basis) is a failure of the trusted dependency and says nothing about hylaa.
'''
import numpy as np
import swiglpk as glpk
from types import SimpleNamespace
from common import Raw
FAULTS = []


def plain(params):
    'solver parameters that excuse nothing: the tolerances and limits are the defaults'
    d = glpk.glp_smcp()
    glpk.glp_init_smcp(d)
    return all(getattr(params, k) == getattr(d, k) for k in ('tol_bnd', 'tol_dj', 'tol_piv', 'obj_ll', 'obj_ul', 'it_lim', 'presolve', 'pricing', 'r_test'))


def truth(raw):
    from scipy.optimize import linprog
    (au, bu), (ae, be) = raw.split()
    r = linprog(raw.obj, A_ub=au if len(au) else None, b_ub=bu if len(au) else None, A_eq=ae if len(ae) else None, b_eq=be if len(ae) else None,
                bounds=[(0, None) if t == glpk.GLP_LO else (None, None) for t in raw.coltypes], method='highs')
    return r


def look(lp, params, rc):
    if rc != 0 or not plain(params):
        return None
    st = STATUS(lp)
    raw = Raw(SimpleNamespace(lp=lp, cur_vars_offset=0, dims=0, names=[]))
    if any(t not in (glpk.GLP_FR, glpk.GLP_LO) for t in raw.coltypes):
        return None
    if st == glpk.GLP_OPT:
        z = np.array([glpk.glp_get_col_prim(lp, j + 1) for j in range(raw.cols)])
        (au, bu), (ae, be) = raw.split()
        tol = 1e-4 * (1 + np.max(np.abs(z), initial=0))
        res = max(np.max(au @ z - bu, initial=0), np.max(np.abs(ae @ z - be), initial=0))
        if res > tol:
            return 'a point that violates the rows by %g is called optimal' % res
        r = truth(raw)
        if r.status == 0 and abs(r.fun - raw.obj @ z) > 1e-4 * (1 + abs(r.fun)):
            return 'the optimum is %g, the answer %g' % (r.fun, raw.obj @ z)
    elif st == glpk.GLP_NOFEAS:
        if truth(raw).status == 0:
            q = glpk.glp_create_prob()
            glpk.glp_copy_prob(q, lp, glpk.GLP_OFF)
            glpk.glp_std_basis(q)
            p = glpk.glp_smcp()
            glpk.glp_init_smcp(p)
            p.msg_lev = glpk.GLP_MSG_OFF
            ok = SIMPLEX(q, p) == 0 and STATUS(q) == glpk.GLP_OPT
            glpk.glp_delete_prob(q)
            if ok:
                return 'a feasible problem is called infeasible'
    return None


SIMPLEX, STATUS = glpk.glp_simplex, glpk.glp_get_status


def install():
    FAULTS.clear()

    def simplex(lp, params):
        rc = SIMPLEX(lp, params)
        if not FAULTS:
            f = look(lp, params, rc)
            if f:
                FAULTS.append(f)
        return rc
    glpk.glp_simplex = simplex


def remove():
    glpk.glp_simplex = SIMPLEX
