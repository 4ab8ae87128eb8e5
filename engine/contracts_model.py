'''Contracts of the remaining functions by which a hybrid automaton is defined and checked (C19, C20, C22, C23).'''
from contracts_tt import *
from models import Struct, token

HM, HAC, HTR = HAU + 'Mode.', HAU + 'HybridAutomaton.', HAU + 'Transition.'


world_contract(HM + 'point_in_invariant', {'any': lambda ctx: (lambda w: {'self': Obj('Mode', inv_list=reflist('LinearConstraint', 'inv')), 'args': [Ref('vector', z3.Int('pt'))], 'world': w, 'watch': {'world': w}})(world())}, P('C22', 'C16'),
    'true exactly if the point satisfies every condition of the invariant', '''
    def spec(self, point):
        return all(lc.is_true_for_point(point) for lc in self.inv_list)
    ''', {HAU + 'LinearConstraint.is_true_for_point': looks('true_for_point', 'bool')}, TT)


def mode_scen(**kw):
    def f(ctx):
        w = world()
        s = Obj('Mode', ha=Opaque('ha'), name=SStr([('sym', z3.Int('name'))]), mode_id=z3.Int('mode_id'), a_csr=Ref('matrix', z3.Int('a'), True), b_csr=None, u_constraints_csc=None, u_constraints_rhs=None,
                transitions=PList(), inv_list=PList(), time_elapse=None, _token=z3.Int('mode'))
        s.f.update(kw)
        return {'self': s, 'args': [z3.Real('step_size')], 'world': w, 'watch': {'world': w}}
    return {'any': f}


world_contract(HM + 'init_time_elapse', mode_scen(), P('C15', 'C23'),
    'a mode with dynamics gets its own time elapse object with the given step, an error mode none', '''
    def spec(self, step_size):
        if self.a_csr is not None:
            self.time_elapse = TimeElapser(self, step_size)
    ''', {'time_elapse.TimeElapser': lambda I, mode, step: Ref('TimeElapser', answer(I, 'TimeElapser', 'Int', mode, step))}, TT)


class Modes(Struct):
    'the modes by name'
    def contains(self, I, k):
        return answer(I, 'has mode', 'Bool', k)

    def setitem(self, I, k, v):
        event(I, 'set mode', k, v)

    def same(self, o):
        return type(o) is type(self)

    def length(self, I):
        n = answer(I, 'number of modes', 'Int')
        I.ctx.fact(n >= 0)
        return n


def automaton(**kw):
    return Obj('HybridAutomaton', name=SStr([('sym', z3.Int('ha.name'))]), modes=Modes(), transitions=PList(items=[('one', Ref('Transition', z3.Int('earlier')))]), _token=z3.Int('ha'), **kw)


def ha_scen(args, **kw):
    def f(ctx):
        w = world()
        s = automaton()
        s.f.update({k: v(ctx) for k, v in kw.items()})
        return {'self': s, 'args': args(ctx), 'world': w, 'watch': {'world': w}}
    return {'any': f}


world_contract(HAC + 'new_mode', ha_scen(lambda ctx: [SStr([('sym', z3.Int('name'))])]), P('C23'),
    'the new mode is stored under its name, with the number of modes before it as its identifier; a name that is in use is refused', '''
    def spec(self, name):
        if name in self.modes:
            raise AssertionError('name in use')
        m = Mode(self, name, len(self.modes))
        self.modes[name] = m
        return m
    ''', {HAU + 'Mode': lambda I, ha, name, i: Obj('Mode', ha=ha, name=name, mode_id=i, _token=answer(I, 'Mode', 'Int', ha, name, i))}, TT)


world_contract(HAC + 'new_transition', ha_scen(lambda ctx: [ref('Mode', 'from'), ref('Mode', 'to'), SStr([('sym', z3.Int('name'))])]), P('C23'),
    'a transition between the given modes, appended to the transitions of the automaton', '''
    def spec(self, frm, to, name):
        t = Transition(self, frm, to, name)
        self.transitions.append(t)
        return t
    ''', {HAU + 'Transition': lambda I, ha, frm, to, name: Ref('Transition', answer(I, 'Transition', 'Int', ha, frm, to, name))}, TT)


world_contract(HAC + 'check_transitions', ha_scen(lambda ctx: [], transitions=lambda ctx: reflist('Transition', 'transitions')), P('C23'),
    'refused exactly if some transition leaves an error mode, has no guard, or changes the number of variables without a reset', '''
    def spec(self):
        for t in self.transitions:
            frm, to = t.from_mode.a_csr, t.to_mode.a_csr
            if frm is None or t.guard_csr is None:
                raise AssertionError('no dynamics or guard')
            if to is not None and frm.shape[0] != to.shape[0] and t.reset_csr is None:
                raise AssertionError('no reset')
    ''', {}, dict(TT, Transition=TRANS, Mode=MODE, Shape={'__fields__': ['rows', 'cols'], 'rows': 'nat', 'cols': 'nat'}))


# ------------------------------------------------------------------ guard strengthening
def pure(name, *ts):
    'a function of the arguments'
    return z3.Function('FN_' + name, *[t.sort() for t in ts], IS)(*ts)


def x_csr(I, a, kw):
    'a sparse matrix is known by the data it is built from'
    (data, inds, indptr), shape = a[0], kw['shape']
    return Ref('matrix', pure('csr_matrix', *[token(I, x) for x in (data, inds, indptr, shape[0], shape[1])]))


def x_array(I, a, kw):
    'an array is known by the list it is made of'
    return Ref('vector', pure('np.array', token(I, a[0])))


VEC = {'[]': lambda I, v, i: z3.Function('vector.at', IS, IS, RS)(num(v.oid), num(i)), '__iter__': lambda I, v: (world_field(I, 'vector', 'size', 'nat', v.oid), lambda i: z3.Function('vector.at', IS, IS, RS)(num(v.oid), num(i)))}
STG = dict(TT, vector=VEC, Transition=dict(TRANS, guard_csr='~ref:matrix', guard_rhs='~ref:vector', time_triggered='bool'), LinearConstraint={'rhs': 'real', 'csr': 'ref:matrix'},
           matrix={'shape': 'ref:Shape', 'data': stored_array('data', RS), 'indices': stored_array('indices', IS), 'indptr': stored_array('indptr', IS), 'nnz': 'nat'})


world_contract(HAC + 'do_guard_strengthening', ha_scen(lambda ctx: [], transitions=lambda ctx: reflist('Transition', 'transitions')), P('C19'),
    """the guards of exactly the transitions between different modes that are not time-triggered and have no reset get, after their own rows, the conditions of the target's invariant that do not almost equal one of the rows""", '''
    def spec(self):
        for t in self.transitions:
            if t.from_mode == t.to_mode or t.time_triggered or t.reset_csr is not None:
                continue
            G, rhs = t.guard_csr, t.guard_rhs
            new = []
            for lc in t.to_mode.inv_list:
                there = False
                for r in range(G.shape[0]):
                    d = [G.data[i] for i in range(G.indptr[r], G.indptr[r + 1])]
                    row = csr_matrix((d, [G.indices[i] for i in range(G.indptr[r], G.indptr[r + 1])], [0, len(d)]), shape=(1, G.shape[1]))
                    if LinearConstraint(row, rhs[r]).almost_equals(lc, 1e-13):
                        there = True
                        break
                if not there:
                    new.append(lc)
            if len(new) > 0:
                data, inds, indptr, b = [x for x in G.data], [x for x in G.indices], [x for x in G.indptr], [x for x in rhs]
                for lc in new:
                    inds += [x for x in lc.csr.indices]
                    data += [x for x in lc.csr.data]
                    b.append(lc.rhs)
                    indptr.append(len(data))
                t.guard_csr = csr_matrix((data, inds, indptr), shape=(G.shape[0] + len(new), G.shape[1]))
                t.guard_rhs = np.array(b, dtype=float)
    ''', {HAU + 'LinearConstraint': lambda I, row, rhs: Obj('LinearConstraint', csr=row, rhs=rhs), HAU + 'LinearConstraint.almost_equals': looks('almost_equals', 'bool')},
    STG, hooks={'scipy.sparse.csr_matrix': x_csr, 'numpy.array': x_array})
