'''Contracts of settings, drawing directions and expressions: what a user states once and every analysis reads (C15, C22, C24, C18).'''
from contracts_draw import *
from contracts_misc import EXPR, SY, names
from models import *
from interp import Builtin
import contracts_dag as _d

constructor('settings.HylaaSettings', lambda: [z3.Real('step'), z3.Real('max_time')], ('C05', 'C15', 'C22'),
    'as many steps as cover the time bound, and the documented defaults', """
    def spec(self, step_size, max_time):
        self.step_size, self.num_steps = step_size, int(math.ceil(max_time / step_size))
        self.plot, self.aggstrat = PlotSettings(), aggstrat.Aggregated()
        self.stdout, self.stdout_colors = HylaaSettings.STDOUT_NORMAL, [None, 'white', 'blue', 'yellow']
        self.process_urgent_guards = False
        self.do_guard_strengthening = self.optimize_tt_transitions = self.skip_zero_dynamics_modes = True
        self.approx_model = HylaaSettings.APPROX_NONE
        self.stop_on_aggregated_error = False
        self.stop_on_concrete_error = self.make_counterexample = True
        self.random_seed = 0
    """, {'settings.PlotSettings': does('PlotSettings', 'ref:PlotSettings'), 'aggstrat.Aggregated': does('Aggregated', 'ref:Aggregated')},
    hooks={'math.ceil': lambda I, a, kw: -z3.ToInt(-real(a[0]))}, pre=lambda I, st: [Not(eq(st['args'][0], 0))])


# ------------------------------------------------------------------ expressions
def x_terms(I, e, variables, rv, affine):
    'adds the coefficients of the expression (under contract in contracts_misc.py), or refuses'
    bad = z3.Function('ANS_refused', IS, IS, z3.BoolSort(), z3.BoolSort())
    if I.ctx.branch(bad(num(e.oid), token(I, variables), boolz(affine))):
        raise PyRaise('RuntimeError', 'not linear')
    x = rv.f['v']
    n = I.models.length(I, rv)
    old = [seqview(I, rv)[1]]
    co = z3.Function('ANS_coefficient', IS, IS, z3.BoolSort(), IS, RS)
    t = token(I, variables)
    I.ctx.put(rv, 'v', ('arr', n, lambda i: add(rl(old[0](i)), co(num(e.oid), t, boolz(affine), num(i)))))


def lin_scen(ctx):
    w = world()
    return {'args': [ref('Any', 'e'), names(ctx), z3.Bool('affine')], 'world': w, 'watch': {'world': w}}


ANY = {'Any': {'__kinds__': {'Add': 1, 'Number': 2, 'Symbol': 3, 'Mul': 4, 'Expr': (1, 2, 3, 4)}}}
world_contract(SY + 'extract_linear_terms', {'any': lin_scen}, P('C18'),
    'the coefficients of the variables in their order, then the constant if it is asked for; what is not an expression or not linear is refused', '''
    def spec(e, variables, has_affine_variable):
        if not isinstance(e, Expr):
            raise RuntimeError('expression')
        rv = [0] * (len(variables) + (1 if has_affine_variable else 0))
        _extract_linear_terms_rec(e, variables, rv, has_affine_variable)
        return rv
    ''', {SY + '_extract_linear_terms_rec': x_terms}, ANY)


def raising(name, refused, ret):
    'a function of its arguments that may refuse'
    def f(I, *a):
        ts = [token(I, x) for x in a]
        if I.ctx.branch(z3.Function('ANS_' + refused, *[t.sort() for t in ts], z3.BoolSort())(*ts)):
            raise PyRaise('RuntimeError', 'refused')
        return Ref(ret, pure(name, *ts))
    return f


class Constants:
    'a dictionary of constants: any number of names with values'
    size = z3.Int('constants.len')

    def items(self):
        return PList(arr=(self.size, lambda i: (SStr([('sym', z3.Function('constants.name', IS, IS)(num(i)))]), Ref('Value', z3.Function('constants.value', IS, IS)(num(i))))))


def substitute(I, e):
    return Builtin('subs', lambda I, a, kw: Ref('Expr', pure('subs', num(e.oid), token(I, a[0]))))


def mat_scen(ctx):
    w = world()
    n = z3.Int('texts.len')
    ctx.fact(n >= 0)
    ctx.fact(Constants.size >= 0)
    texts = PList(arr=(n, lambda i: SStr([('sym', z3.Function('texts.at', IS, IS)(num(i)))])))
    return {'args': [names(ctx), texts, PDict(base=Constants()), z3.Bool('affine')], 'world': w, 'watch': {'world': w}}


def x_linear(I, e, variables, affine):
    'under contract above'
    r = raising('terms', 'not_linear', 'Row')(I, e, variables, affine)
    p = PList(arr=(add(I.models.length(I, variables), ite(boolz(affine), lambda: 1, lambda: 0)), lambda i: z3.Function('ANS_coefficient', IS, IS, RS)(num(r.oid), num(i))))
    p.frozen = True
    return p


SYM = {'Symbol': {}, 'Value': {}, 'Row': {}, 'Expr': {'subs': substitute}, '__maps__': True}
PARSE = {'sympy.symbols': lambda I, a, kw: Ref('Symbol', pure('symbols', token(I, a[0]))),
         'sympy.parsing.sympy_parser.parse_expr': lambda I, a, kw: raising('parse_expr', 'unreadable', 'Expr')(I, a[0], kw['local_dict'])}
world_contract(SY + 'make_dynamics_mat', {'any': mat_scen}, P('C18'),
    'one row per text in order: the coefficients of the text, read with the variables and constants as names and with every constant replaced by its value; with an affine variable one more row of zeros', '''
    def spec(variables, derivatives, constant_dict, has_affine_variable=False):
        symbols, values = {}, {}
        for v in variables:
            symbols[v] = sympy.symbols(v)
        for v, x in constant_dict.items():
            symbols[v] = sympy.symbols(v)
            values[sympy.symbols(v)] = x
        rows = []
        for text in derivatives:
            rows.append(extract_linear_terms(parse_expr(text, local_dict=symbols).subs(values), variables, has_affine_variable))
        if has_affine_variable:
            rows.append([0] * (len(variables) + 1))
        return rows
    ''', {SY + 'extract_linear_terms': x_linear}, SYM, hooks=PARSE)


def x_dynamics(I, variables, texts, constants, has_affine_variable=False):
    'under contract above: one row per text, and a row of zeros with an affine variable'
    t = raising('dynamics', 'malformed', 'Row')(I, variables, texts, z3.Int('constants'), has_affine_variable).oid
    a = I.ctx.branch(boolz(has_affine_variable))
    n = I.models.length(I, variables)
    m = I.models.length(I, texts)
    n = add(n, 1) if a else n
    k = z3.FreshInt('row')
    co = z3.Function('ANS_entry', IS, IS, IS, RS)
    rows = PList(arr=(n, lambda j: co(num(t), k, num(j))))
    rows.frozen = True
    l = PList(items=[('loop', k, 0, m, (('one', rows),))] + ([('one', PList(arr=(n, lambda j: Fraction(0))))] if a else []))
    l.frozen = False
    return l


world_contract(SY + 'make_reset_mat', {'any': mat_scen}, P('C18'),
    'the rows of the texts; with an affine variable one more row that keeps it: zeros and a final 1', '''
    def spec(variables, resets, constant_dict, has_affine_variable=False):
        rows = make_dynamics_mat(variables, resets, constant_dict, has_affine_variable)
        if has_affine_variable:
            last = rows[-1]
            last[len(last) - 1] = 1.0
        return rows
    ''', {SY + 'make_dynamics_mat': x_dynamics}, SYM, hooks=PARSE)


# ------------------------------------------------------------------ conditions
def t_case(t, f):
    'f of a text that may be conditional'
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), t_case(t.arg(1), f), t_case(t.arg(2), f))
    return f(t)


def t_count(sep):
    'occurrences in a text; >= replaced by <= adds those of the one to those of the other'
    def f(t):
        if t.decl().name() == 'TEXT_le':
            return t_count('<=')(t.arg(0)) + t_count('>=')(t.arg(0)) if sep == '<=' else z3.IntVal(0)
        return z3.Function('TEXT_count_' + {'<=': 'le', '>=': 'ge'}[sep], IS, IS)(t)
    return lambda t: t_case(t, f)


def t_part(i):
    'the text before / behind the only comparison sign'
    def f(t):
        return f(t.arg(0)) if t.decl().name() == 'TEXT_le' else z3.Function(f'TEXT_part{i}', IS, IS)(t)
    return lambda t: t_case(t, f)


def text_count(I, o):
    def f(I, a, kw):
        if a[0] not in ('<=', '>='):
            raise Unsupported('count in a text')
        n = t_count(a[0])(num(o.oid))
        I.ctx.fact(n >= 0)
        return n
    return Builtin('count', f)


def text_replace(I, o):
    def f(I, a, kw):
        if tuple(a) != ('>=', '<='):
            raise Unsupported('replacement in a text')
        return Ref('Text', z3.Function('TEXT_le', IS, IS)(num(o.oid)))
    return Builtin('replace', f)


def text_split(I, o):
    def f(I, a, kw):
        if len(a) != 1 or a[0] not in ('<=', '>='):
            raise Unsupported('split of a text')
        t = num(o.oid)
        I.ctx.oblige(f'{I.where()}: one {a[0]} and no other sign in the text that is split', And(eq(t_count(a[0])(t), 1), eq(t_count('>=' if a[0] == '<=' else '<=')(t), 0)))
        return tuple(SStr([('sym', t_part(i)(t))]) for i in (0, 1))
    return Builtin('split', f)


def cond_scen(ctx):
    s = mat_scen(ctx)
    n = z3.Int('texts.len')
    s['args'][1] = PList(arr=(n, lambda i: Ref('Text', z3.Function('texts.at', IS, IS)(num(i)))))
    return s


def some_cond(ctx):
    s = cond_scen(ctx)
    s['args'][1] = ref('Text', 'text')
    return s


world_contract(SY + 'make_condition', {'any': cond_scen, 'not_a_list': some_cond}, P('C18'),
    'one row and one right-hand side per condition in order: the coefficients of (smaller side) - (larger side), and minus its constant; refused unless every condition has exactly one comparison sign; a zero for the affine variable', '''
    def spec(variables, condition_list, constant_dict, has_affine_variable=False):
        if not isinstance(condition_list, list):
            raise AssertionError('list')
        symbols, values = {}, {}
        for v in variables:
            symbols[v] = sympy.symbols(v)
        for v, x in constant_dict.items():
            symbols[v] = sympy.symbols(v)
            values[sympy.symbols(v)] = x
        rows, rhs = [], []
        for text in condition_list:
            if text.count('<=') + text.count('>=') != 1:
                raise RuntimeError('one sign')
            if text.count('<=') == 1:
                small, large = text.split('<=')
            else:
                large, small = text.split('>=')
            terms = extract_linear_terms(parse_expr(f"{small} - ({large})", local_dict=symbols).subs(values), variables, True)
            rows.append([terms[i] for i in range(len(variables))] + ([0] if has_affine_variable else []))
            rhs.append(-terms[len(variables)])
        return rows, rhs
    ''', {SY + 'extract_linear_terms': x_linear}, dict(SYM, Text={'count': text_count, 'replace': text_replace, 'split': text_split}), hooks=PARSE)
