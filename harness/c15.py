from common import *
from reach import *
from c08 import strat
BLOWUP = 1e5
RULE = 'random automata x strategies x stop flags, whole analysis runs against an exact exploration; non-trivial = a transition is taken'


def fixed():
    yield {"kind": "unagg", "sys": {"modes": [{"a": [[0.75]], "inv": [[[1], -0.11]], "b": [[0.5]], "U": [[1], [-1]], "u": [1.5, -0.25]}, {"a": [[-0.75]], "inv": [[[-1], -0.51]], "b": [[-0.5]], "U": [[1], [-1]], "u": [2.5, -0.25]}], "nerr": 1, "trans": [{"f": 0, "t": 1, "guard": [[[1], -1.03], [[3], -1.03]]}, {"f": 1, "t": 2, "guard": [[[1], -0.11], [[-1], 1.17]], "reset": {"M": [[0.5]], "C": [[-1], [1]], "d": [1, 0.25]}}], "init": [{"mode": 1, "set": {"kind": "box", "box": [[2, 2]]}}, {"mode": 0, "set": {"kind": "box", "box": [[-1, -0.5]]}}], "dt": 0.5, "steps": 6},
           "urgent": True, "strengthen": True, "strat": "un", "stop_agg": False, "stop_conc": True, "skip_zero": True, "cex": False, "pop": 0, "same": False}


def gen(rng):
    k = rng.choice(['unagg', 'unagg', 'unagg', 'agg', 'agg', 'stop'])
    s = gen_sys(rng, inputs=.25, nerr=1 if k == 'stop' or rng.random() < .7 else 0)
    if rng.random() < .05:
        s = pad_sys(rng, s)
    if rng.random() < .08:
        q = rng.choice(s['init'])
        s['init'].insert(rng.randint(0, len(s['init'])), dict(q, cut=True))
    return {'kind': k, 'sys': s, 'urgent': rng.random() < .25, 'strengthen': rng.random() < .6,
            'strat': rng.choice(['box', 'arnoldi', 'chull']) if k == 'agg' or (k == 'stop' and rng.random() < .5) else 'un',
            'stop_agg': k == 'stop' and rng.random() < .5, 'stop_conc': rng.random() < (.5 if k == 'stop' else .3),
            'skip_zero': rng.random() < .7, 'cex': rng.random() < .5 and k == 'stop', 'pop': rng.randint(0, 2), 'same': rng.random() < .7}


def recording(base):
    class Rec(base):
        def init_rec(self):
            object.__setattr__(self, 'rec', {'visits': [], 'taken': [], 'errors': [], 'after_error': 0})
            return self

        def error_reached(self, state, t, t_lpi):
            self.rec['errors'].append((state.is_concrete, t))
            base.error_reached(self, state, t, t_lpi)

        def check_guards(self):
            st = self.aggdag.get_cur_state()
            if st.cur_step_in_mode > 0:
                self.rec['visits'].append((st.mode, st.cur_step_in_mode, tuple(st.cur_steps_since_start)))
            base.check_guards(self)

    return Rec


def run_real(c, s, strategy, **kw):
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    S = Sys(s)
    st = HylaaSettings(s['dt'], s['dt'] * s['steps'])
    st.num_steps = s['steps']
    st.stdout = 0
    st.optimize_tt_transitions = False
    st.process_urgent_guards = c.get('urgent', False)
    st.do_guard_strengthening = c.get('strengthen', True)
    st.skip_zero_dynamics_modes = c.get('skip_zero', True)
    st.aggstrat = strategy
    for k, v in kw.items():
        setattr(st, k, v)
    Rec = recording(Core)
    # Core is frozen after construction; the record lives on the class
    Rec.rec = {'visits': [], 'taken': [], 'errors': []}
    core = Rec(S.ha, st)
    from hylaa import aggdag as ad
    orig = ad.AggDag.make_op_transition

    def wrap(self, t, t_lpi, state, parent_node):
        Rec.rec['taken'].append((S.trans.index(t), state.cur_step_in_mode, tuple(state.cur_steps_since_start)))
        return orig(self, t, t_lpi, state, parent_node)
    ad.AggDag.make_op_transition = wrap
    try:
        try:
            with accepts('the analysis of a well-formed automaton'):
                res = core.run(S.init)
        except Violation as e:
            if 'lgg approx model beta was too close to zero' in str(e):
                raise Skip('no input in this approximation model')
            if 'No feasible initial states' in str(e):
                return S, core, None, Rec.rec
            raise
    finally:
        ad.AggDag.make_op_transition = orig
    return S, core, res, Rec.rec


def run(c):
    s = dict(c['sys'])
    s['skip_zero'] = c['skip_zero']
    s['strengthen'] = c['strengthen']
    o = explore(s, urgent=c['urgent'])
    kf = has_kf1(s)

    def judge(o):
        check(c, s, o, S, core, res, rec)
    strategy = strat(c['strat'])
    if c['strat'] != 'un':
        strategy.pop_type = c['pop']
        strategy.require_same_path = c['same']
    S, core, res, rec = run_real(c, s, strategy, stop_on_aggregated_error=c['stop_agg'], stop_on_concrete_error=c['stop_conc'], make_counterexample=c['cex'] and not kf)
    try:
        judge(o)
    except Violation as e:
        if kf:
            try:
                judge(explore(s, urgent=c['urgent'], cls=ShiftTraj))
            except (Violation, Skip):
                raise e
            raise Known('KF1', str(e))
        raise
    return bool(o['taken'])


def check(c, s, o, S, core, res, rec):
    if res is None:
        need(o['inits'] == 0, 'the analysis says there are no initial states')
        return
    need(o['inits'] > 0, 'no initial state satisfies the invariant but the analysis ran')
    conc = any(x for x, _ in rec['errors'])
    agg = any(not x for x, _ in rec['errors'])
    need(res.has_concrete_error == conc, 'concrete error flag does not match the error detections')
    need(res.has_aggregated_error == agg, 'aggregated error flag does not match the error detections')
    truth = bool(o['errors'])
    if res.has_concrete_error:
        need(truth, 'a concrete error is reported but no execution reaches an error mode')
    if truth:
        need(res.has_concrete_error or res.has_aggregated_error, f'the analysis reports safe but an error mode is reached: {o["errors"][0]}')
    stopped = (c['stop_conc'] and conc) or (c['stop_agg'] and (agg or conc))
    if stopped:
        stops = [i for i, (x, _) in enumerate(rec['errors']) if (x and c['stop_conc']) or c['stop_agg']]
        need(len(rec['errors']) == stops[0] + 1, 'the analysis went on after the error it had to stop at')
    else:
        need(not core.aggdag.waiting_list and core.aggdag.get_cur_state() is None, 'the analysis stopped although work was left and no stop was requested')
    if c['strat'] == 'un':
        need(not res.has_aggregated_error, 'an aggregated error is reported without aggregation')
        if truth:
            need(res.has_concrete_error, 'error missed')
        if not stopped:
            want = sorted((ti, k, (el, el)) for ti, k, el in o['taken'])
            got = sorted(rec['taken'])
            need(got == want, f'transitions taken (index, step in mode, elapsed): {diff(got, want)}')
            want = sorted((i, k, (el, el)) for i, k, el in o['visits'])
            got = sorted((S.index(m), k, el) for m, k, el in rec['visits'])
            need(got == want, f'sets examined (mode, step in mode, elapsed): {diff(got, want)}')
    elif not stopped:
        # every real step of every mode is covered by some examined interval
        for i, k, el in o['visits']:
            need(any(S.index(m) == i and a <= el <= b for m, _, (a, b) in rec['visits']), f'no set of mode {i} was examined at elapsed step {el}')
            need(any(S.index(m) == i and k == j and a <= el <= b for m, j, (a, b) in rec['visits']), f'no set of mode {i} was examined {k} steps after it was entered, at elapsed step {el}')
        for ti, k, el in o['taken']:
            need(any(ti == x and k == j and a <= el <= b for x, j, (a, b) in rec['taken']), f'transition {ti} was not taken {k} steps after its mode was entered, at elapsed step {el}')


def diff(a, b):
    from collections import Counter
    x, y = Counter(a), Counter(b)
    return f'unexpected {list((x - y).elements())[:4]}, missing {list((y - x).elements())[:4]}'
