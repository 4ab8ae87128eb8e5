'''Contracts of constructors, of the records of results (C24, C16), and of the functions on symbolic expressions (C18).'''
from contracts_last import *
import contracts_dag as _d

NEW = {'freeze_attrs': lambda I, o: None}


def made(cls, args, **kw):
    'a new object and the arguments of its constructor'
    def f(ctx):
        w = world()
        return {'self': Obj(cls, _token=z3.Int('made')), 'args': args(), 'world': w, 'watch': {'world': w}}
    return {'any': f}


def constructor(qual, args, props, doc, src, env=None, schema=None, default=False, **kw):
    sc = made(qual.split('.')[-1], args)
    if default:
        sc.update(default=made(qual.split('.')[-1], lambda: [])['any'])
    c = world_contract(qual + '.__init__', sc, P(*props), doc, src, env or {}, schema or _d.SCH, **kw)
    c.replaces = False


# ------------------------------------------------------------------ objects of the graph
constructor('deaggregation.OpTransition', lambda: [z3.Int('step'), ref('AggDagNode', 'parent'), ref('AggDagNode', 'child', True), ref('Transition', 'transition'), ref('StateSet', 'poststate')], ('C13', 'C14'),
    'records its step, nodes, transition and set', '''
    def spec(self, step, parent_node, child_node, transition, poststate):
        self.step, self.parent_node, self.child_node, self.transition, self.poststate = step, parent_node, child_node, transition, poststate
    ''')

constructor('deaggregation.DeaggregationManager', lambda: [ref('AggDag', 'dag')], ('C14',), 'nothing waits to be split and no replay is under way', '''
    def spec(self, aggdag):
        self.aggdag = aggdag
        self.waiting_nodes = deque()
        self.deagg_parent = self.deagg_children = self.nodes_to_ops = self.replay_step = None
    ''')


constructor('aggdag.AggDag', lambda: [ref('HylaaSettings', 'settings'), ref('Core', 'core')], ('C13', 'C14'), 'no roots, nothing waiting, no current node, its own deaggregation manager', """
    def spec(self, settings, core):
        self.settings, self.core = settings, core
        self.roots, self.waiting_list = [], []
        self.cur_node = None
        self.deagg_man = DeaggregationManager(self)
        self.viz_count = 0
    """, {'deaggregation.DeaggregationManager': lambda I, dag: Ref('DeaggregationManager', z3.Int('manager'))})

world_contract('aggdag.AggDag.is_op_transition', {'ref': lambda ctx: {'args': [ref('Op', 'op')]}, 'none': lambda ctx: {'args': [None]}}, P('C13', 'C14'), 'whether the operation is a transition', """
    def spec(op):
        return isinstance(op, OpTransition)
    """, {}, _d.SCH)

constructor('aggstrat.AggregationStrategy', lambda: [], ('C13',), 'nothing to record', """
    def spec(self):
        pass
    """)

constructor('aggstrat.Aggregated', lambda: [ref('AggType', 'agg_type', True), z3.Bool('deaggregate')], ('C13', 'C14'),
    'pops by lowest average time along equal paths, adds the guard direction, splits the node with most predecessors first', """
    def spec(self, agg_type=Aggregated.AGG_ARNOLDI_BOX, deaggregate=False):
        self.agg_type, self.deaggregate = agg_type, deaggregate
        self.pop_type = Aggregated.POP_LOWEST_AVGTIME
        self.add_guard = self.require_same_path = True
        self.deagg_preference = Aggregated.DEAGG_MOST_STATES
        self.sim_avoid_modes = []
    """, default=True)

constructor('core.Core', lambda: [ref('HybridAutomaton', 'ha'), ref('HylaaSettings', 'settings')], ('C15', 'C22'), 'nothing computed yet, the random generator seeded by the settings', """
    def spec(self, ha, hylaa_settings):
        self.hybrid_automaton, self.settings = ha, hylaa_settings
        self.plotman = PlotManager(self)
        self.aggdag = AggDag(hylaa_settings, self)
        np.random.seed(hylaa_settings.random_seed)
        self.max_steps_remaining = self.result = None
        self.took_tt_transition = self.doing_simulation = False
        self.continuous_steps = 0
        self.sim_waiting_list = self.sim_states = self.sim_basis_matrix = self.sim_should_try_guards = self.sim_took_transition = None
    """, {'plotutil.PlotManager': does('PlotManager', 'ref:PlotManager'), 'aggdag.AggDag': does('AggDag', 'ref:AggDag')}, dict(_d.SCH, HylaaSettings=dict(_d.SCH.get('HylaaSettings', {}), random_seed='int')),
    hooks={'numpy.random.seed': lambda I, a, kw: event(I, 'seed', a[0])})

constructor('result.HylaaResult', lambda: [], ('C15', 'C16', 'C24'), 'no error found, empty counterexample, no plotted data', """
    def spec(self):
        self.has_aggregated_error = self.has_concrete_error = False
        self.counterexample = []
        self.top_level_timer = self.plot_data = self.last_cur_state = self.sim_lines = None
    """)

constructor('result.CounterExampleSegment', lambda: [], ('C16',), 'an empty segment of zero steps', """
    def spec(self):
        self.mode = self.outgoing_transition = None
        self.start, self.end, self.reset_minkowski_vars = [], [], []
        self.steps = 0
        self.inputs = deque()
    """)

constructor('hybrid_automaton.HybridAutomaton', lambda: [SStr([('sym', z3.Int('name'))])], ('C23',), 'no modes and no transitions', """
    def spec(self, name='HybridAutomaton'):
        self.name = name
        self.modes = {}
        self.transitions = []
    """, default=True)
