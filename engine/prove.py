'''Deductive part: discharges the contracts a property depends on, from /repo's current source.

prove.py PID [--tier quick|thorough] [--out FILE] [--only NAME] [-v]
'''
import argparse, json, os, sys, time, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3
import core, interp, models, contracts, contracts_lputil, contracts_te, contracts_ha, contracts_ss, contracts_core, contracts_dag, contracts_misc, contracts_run, contracts_tt, contracts_model, contracts_more, contracts_last, contracts_fin, contracts_sets, contracts_plot
import contracts_agg, contracts_draw, contracts_tail
from core import *
from interp import *

REPO = os.environ.get('HYLAA_REPO', '/repo')
ABSTRACT = ('SUM', 'FIRST', 'FOLD', 'PS!', 'STR', 'len!', 'str?', 'PYM', 'partial', 'matind', 'matpos', 'matlen', '.objposinv', 'kx!', 'OPT', 'SEG', 'REC!', 'EV_', 'ANS_', 'FN_', 'HCONS', 'INLIST')


def make_prog():
    BAPPS.clear()
    p = Program(REPO)
    p.contracts = contracts.ALL
    return p


def run_path(prog, c, scen, prefix):
    'one path of one scenario: real code, then specification, then comparison'
    INVERSES.clear()
    core.FRESH[0] = 0
    prog.recs.clear()
    prog.rec_cache.clear()
    ctx = Ctx(prog, prefix, c.qual)
    I = Interp(ctx, models.Models())
    I.contract, I.assuming, I.seen_pairs = c, False, set()
    ctx.I = I
    ctx.lemmas = rec_lemmas
    I.alias = {}
    I.caller = lambda: c.qual
    I.under = c.qual
    setup = c.scenarios[scen]
    st1 = setup(ctx)
    fr = prog.find(c.qual)
    if fr is None:
        raise Unsupported('function not found')
    res = []
    try:
        try:
            st2 = setup(ctx)
            if c.verify_fn is not None:
                def run():
                    try:
                        return 'return', I.call_func(fr, st1['args'], st1.get('kwargs', {}), st1.get('self'))
                    except PyRaise as e:
                        return 'raise', e
                kind = c.verify_fn(I, run, st1, st2, spec_args(fr, st2, I))
                vac = str(ctx.check(z3.BoolVal(True), timeout=2000))
                return ctx, kind, vac
            # the callee's own preconditions are assumed
            I.assuming = True
            I.stack.append(c.qual + ' (contract)')
            out2 = ('raise', None)
            I.world = st2.get('world')
            if c.pre is not None:
                for h in c.pre(I, st2):
                    ctx.assume(h)
            try:
                r2 = c.spec_fn(I, *spec_args(fr, st2, I))
                out2 = ('return', r2)
            except PyRaise as e:
                out2 = ('raise', e)
            I.stack.pop()
            I.assuming = False
            ctx.side = 1
            nspec = len(ctx.obls)
            del ctx.obls[:]
            I.stack = []
            I.world = st1.get('world')
            try:
                if c.qual.endswith('.__init__'):
                    r1 = I.call_func(fr, st1['args'], st1.get('kwargs', {}), st1['self'])
                else:
                    r1 = I.call_func(fr, st1['args'], st1.get('kwargs', {}), st1.get('self'))
                out1 = ('return', r1 if c.after is None else c.after(I, st1, r1))
            except PyRaise as e:
                out1 = ('raise', e)
            if out1[0] != out2[0]:
                what = 'does not raise' if out1[0] == 'raise' else 'refuses'
                ctx.oblige(f'{c.qual}: {what}' + (f' ({out1[1]})' if out1[0] == 'raise' else ''), False, 'post')
            elif out1[0] == 'raise':
                ctx.oblige(f'{c.qual}: refuses exactly where the contract does', True, 'post')
            else:
                I.stack = [c.qual]
                ctx.side = 2
                contracts.compare_states(I, c, st1, st2, out1[1], out2[1])
            kind = out1[0]
        except Infeasible:
            kind = 'infeasible'
        # vacuity: the hypotheses of this path must be satisfiable
        vac = 'infeasible' if kind == 'infeasible' else str(ctx.check(z3.BoolVal(True), timeout=2000))
        return ctx, kind, vac
    except NeedBranch:
        raise Unsupported('decision inside an expression')


def spec_args(fr, st, I):
    env = Env(fr.mod, fr)
    so = st.get('self')
    node = getattr(I.contract.spec_fn, 'node', None) or fr.node      # a specification written as a program has its own defaults
    I.bind(node, env, st['args'], st.get('kwargs', {}), so)
    return [env.v[x.arg] for x in node.args.args]


def is_abstract(e, seen=None):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a in x.decl().name() for a in ABSTRACT):
                return True
            st.extend(x.children())
    return False


BAPPS = {}      # AST id -> (term kept alive, applications of binder functions in it)


def binder_apps1(prog, e):
    r = BAPPS.get(e.get_id())
    if r is not None:
        return r[1]
    if len(BAPPS) > 200000:
        BAPPS.clear()
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        ch = kids(x)
        if ch:
            if x.decl().name() in prog.binder_body:
                out.append(x)
            st.extend(ch)
    BAPPS[e.get_id()] = (e, out)
    return out


def binder_apps(prog, es):
    out, seen = [], set()
    for e in reversed(es):
        for x in binder_apps1(prog, e):
            if x.get_id() not in seen:
                seen.add(x.get_id())
                out.append(x)
    return out


def sum_lemmas(prog, es):
    '''instances of: sums (folds) of equal terms over equal ranges are equal; a sum of zeros is zero

    (forall k: P(k)) -> E is used in the form P(w) -> E with a new constant w.
    '''
    out, done = [], set()
    for _ in range(2):
        apps = binder_apps(prog, es + out)[:14]
        for i, x in enumerate(apps):
            tag, kk, ph, body = prog.binder_body[x.decl().name()]
            bx = lambda w, x=x, kk=kk, ph=ph, body=body: z3.substitute(body, (kk, w), *zip(ph, x.children()[2:]))
            if ('0', x.get_id()) not in done and tag == 'SUM':
                done.add(('0', x.get_id()))
                w = z3.FreshInt('w')
                out.append(z3.Implies(z3.Implies(z3.And(x.arg(0) <= w, w < x.arg(1)), bx(w) == 0), x == 0))
            for y in apps[i + 1:]:
                tag2, kk2, ph2, body2 = prog.binder_body[y.decl().name()]
                sums = tag in ('SUM', 'PS!') and tag2 in ('SUM', 'PS!')
                if tag != tag2 and not sums or tag == 'FIRST' or x.sort() != y.sort() or (x.get_id(), y.get_id()) in done:
                    continue
                done.add((x.get_id(), y.get_id()))
                w = z3.FreshInt('w')
                by = z3.substitute(body2, (kk2, w), *zip(ph2, y.children()[2:]))
                same = x.arg(1) == y.arg(1)
                if sums:       # (or both are empty)
                    same = z3.Or(same, z3.And(x.arg(1) <= x.arg(0), y.arg(1) <= y.arg(0)))
                out.append(z3.Implies(z3.And(x.arg(0) == y.arg(0), same, z3.Implies(z3.And(x.arg(0) <= w, w < x.arg(1)), bx(w) == by)), x == y))
    return out


def first_lemmas(prog, es):
    'first positions of equal conditions over equal ranges are equal (in the steps of recurrences too)'
    es = [h for h in es if not has_quant(h)]
    out, done = [], set()
    for _ in range(3):
        apps = [x for x in binder_apps(prog, es + out) if prog.binder_body[x.decl().name()][0] == 'FIRST'][:24]
        for i, x in enumerate(apps):
            _, kk, ph, body = prog.binder_body[x.decl().name()]
            for y in apps[i + 1:]:
                if (x.get_id(), y.get_id()) in done or not x.arg(0).eq(y.arg(0)) and isconst(x.arg(0)) and isconst(y.arg(0)):
                    continue
                done.add((x.get_id(), y.get_id()))
                _, kk2, ph2, body2 = prog.binder_body[y.decl().name()]
                w = z3.FreshInt('w?')
                bx, by = z3.substitute(body, (kk, w), *zip(ph, x.children()[2:])), z3.substitute(body2, (kk2, w), *zip(ph2, y.children()[2:]))
                out.append(z3.Implies(z3.And(x.arg(0) == y.arg(0), x.arg(1) == y.arg(1), z3.Implies(z3.And(x.arg(0) <= w, w < x.arg(1)), bx == by)), x == y))
    return out


RAPPS = {}      # AST id -> (term kept alive, applications of recurrences in it)


def rec_apps1(e):
    r = RAPPS.get(e.get_id())
    if r is not None:
        return r[1]
    if len(RAPPS) > 100000:
        RAPPS.clear()
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen or not z3.is_app(x):
            continue
        seen.add(i)
        ch = kids(x)
        if ch:
            n = x.decl().name()
            if n.startswith('REC!'):
                out[i] = (n[4:].split('_')[0], tuple(c.get_id() for c in ch), ch)
            st.extend(ch)
    RAPPS[e.get_id()] = (e, list(out.values()))
    return RAPPS[e.get_id()][1]


def rec_apps(prog, es):
    'applications of recurrences outside quantifiers, per group: {gid: {(ks args, index)}}'
    out = {}
    for e in es:
        for g, key, ch in rec_apps1(e):
            out.setdefault(g, {})[key] = ch
    return out


def rec_lemmas(prog, es):
    '''two groups of recurrences with equal initial values and equal steps are equal (induction on the index):
    lo = lo', hi = hi', R(lo) = R'(lo'), (for all j in [lo, hi): R(j) = R'(j) -> step(j) = step'(j)) -> R(t) = R'(t), instantiated
    at the indices that occur; the inner quantifier is used in the form P(w) -> E with a new constant w.
    '''
    out, done, lits = [], set(), {}
    for rnd in range(4):
        apps = rec_apps(prog, es + out)
        gids = [g for g in sorted(apps, key=int) if g in prog.recs]
        new = []
        for i, g1 in enumerate(gids):
            for g2 in gids[i + 1:]:
                r1, r2 = prog.recs[g1], prog.recs[g2]
                if r1['side'] == r2['side'] != 2 or len(r1['fns']) != len(r2['fns']) or r1['nk'] != r2['nk']:
                    continue
                pres1 = {tuple(c.get_id() for c in ch[:-1]): ch[:-1] for ch in apps[g1].values()}
                pres2 = {tuple(c.get_id() for c in ch[:-1]): ch[:-1] for ch in apps[g2].values()}
                pairs = [(a, b) for a in pres1 for b in pres2 if a == b] or [(a, b) for a in pres1 for b in pres2]
                # (not at the constants of induction steps, except those of other pairs where both occur)
                both = {c[-1].get_id() for c in apps[g1].values()} & {c[-1].get_id() for c in apps[g2].values()}
                ts = {ch[-1].get_id(): ch[-1] for a in (apps[g1], apps[g2]) for ch in a.values()
                      if not (z3.is_const(ch[-1]) and ch[-1].decl().name().startswith('w?')) or ch[-1].get_id() in both and prog.own_w.get(ch[-1].get_id(), ((g1, g2),))[0] != (g1, g2)}
                for m, perm in enumerate(matchings(r1, r2)):
                    for a, b in pairs:
                        key = (g1, g2, m, a, b)
                        p1, p2 = pres1[a], pres2[b]
                        if key not in lits:
                            if len(lits) > 150:
                                continue
                            if key not in prog.rec_cache:
                                lit = z3.FreshBool('same')
                                w = z3.FreshInt('w?')
                                prog.own_w[w.get_id()] = ((g1, g2), w)
                                prog.rec_cache[key] = (lit, rec_lemma(r1, r2, perm, p1, p2, lit, w), a, b, p1, p2)
                            lits[key] = prog.rec_cache[key][0]
                            new.append(prog.rec_cache[key][1])
                        for t in ts.values():
                            if key + (t.get_id(),) not in done:
                                done.add(key + (t.get_id(),))
                                ck = key + (t.get_id(),)
                                if ck in prog.rec_cache:
                                    new.append(prog.rec_cache[ck][0])
                                    continue
                                lo = z3.substitute(r1['lo'], *zip(r1['ks'], p1)) if r1['ks'] else r1['lo']
                                hi = z3.substitute(r1['hi'], *zip(r1['ks'], p1)) if r1['ks'] else r1['hi']
                                prog.rec_cache[ck] = (z3.Implies(z3.And(lits[key], lo <= t, t <= hi), z3.And(*[f(*p1, t) == r2['fns'][perm[n]](*p2, t) for n, f in enumerate(r1['fns'])])), t)
                                new.append(prog.rec_cache[ck][0])
        if not new:
            break
        out += new
    return out


def matchings(r1, r2):
    'ways to match the members of two groups (equal names first; a member matches one of the same sort and initial value)'
    import itertools
    n = len(r1['fns'])
    fits = lambda i, j: r1['syms'][i].sort() == r2['syms'][j].sort() and not (isconst(r1['inits'][i]) and isconst(r2['inits'][j]) and not r1['inits'][i].eq(r2['inits'][j]))
    fixed = {}
    for i in range(n):
        j = next((j for j in range(n) if r2['names'][j] == r1['names'][i] and fits(i, j)), None)
        if j is not None and j not in fixed.values():
            fixed[i] = j
    rest1, rest2 = [i for i in range(n) if i not in fixed], [j for j in range(n) if j not in fixed.values()]
    if len(rest1) > 4:
        return []
    out = []
    for p in itertools.permutations(rest2):
        m = {**fixed, **dict(zip(rest1, p))}
        if all(fits(i, j) for i, j in m.items()):
            out.append([m[i] for i in range(n)])
    return out[:6]


def isconst(e):
    return z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e)


def rec_lemma(r1, r2, perm, p1, p2, lit, w):
    'hypotheses of the induction -> lit (lit: the two sequences are equal on their range)'
    n = len(r1['fns'])
    inst = lambda r, p: (lambda e: z3.substitute(e, *zip(r['ks'], p)) if r['ks'] else e)
    i1, i2 = inst(r1, p1), inst(r2, p2)
    at1, at2 = [f(*p1, w) for f in r1['fns']], [f(*p2, w) for f in r2['fns']]
    lo1, lo2, hi1, hi2 = i1(r1['lo']), i2(r2['lo']), i1(r1['hi']), i2(r2['hi'])
    st1 = [z3.substitute(i1(e), (r1['k'], w), *zip(r1['syms'], at1)) for e in r1['steps']]
    st2 = [z3.substitute(i2(e), (r2['k'], w), *zip(r2['syms'], at2)) for e in r2['steps']]
    ante = [lo1 == lo2, hi1 == hi2] + [i1(r1['inits'][i]) == i2(r2['inits'][perm[i]]) for i in range(n)]
    step = z3.Implies(z3.And(lo1 <= w, w < hi1, *[at1[i] == at2[perm[i]] for i in range(n)]), z3.And(*[st1[i] == st2[perm[i]] for i in range(n)]))
    return z3.Implies(z3.And(*ante, step), lit)


def discharge(o, tmo, prog):
    t = time.time()
    g = z3.simplify(o.goal)
    if z3.is_true(g):
        o.status, o.backend, o.time = 'proved', 'simplifier', time.time() - t
        return
    goal = [boolz(h) for h in o.hyps] + [z3.Not(o.goal)]
    goal += sum_lemmas(prog, [h for h in goal if not has_quant(h)])
    recl = rec_lemmas(prog, goal)
    firl = first_lemmas(prog, goal + recl)
    lemmas = recl + firl
    goal += lemmas
    ground = [h for h in goal if not has_quant(h)]
    last = None
    quant = [h for h in lemmas if has_quant(h)]
    for hs, tm in ((ground, tmo / 4), (ground + quant if firl else None, tmo / 2), (goal, tmo)):
        if hs is None or hs is goal and len(goal) == len(ground):
            continue
        s = z3.Solver()
        s.set('timeout', int(tm * 1000))
        s.add(*hs)
        r = s.check()
        if r == z3.unsat:
            o.status, o.backend, o.time = 'proved', 'z3', time.time() - t
            return
        last = (r, s, hs)
    r, s, hs = last
    if r == z3.unknown:
        r2 = cvc5_check(s, tmo)
        if r2 == 'unsat':
            o.status, o.backend, o.time = 'proved', 'cvc5', time.time() - t
            return
    o.time = time.time() - t
    if r == z3.sat and not any(is_abstract(h) for h in goal):
        o.status = 'refuted'
        m = s.model()
        o.reason = 'counterexample: ' + ', '.join(f'{d.name()}={m[d]}' for d in list(m.decls())[:40] if d.arity() == 0)[:900]
    elif r == z3.sat:
        # the solver has a model of the negated obligation, with interpretations of the abstract operations of the contracts
        o.status, o.reason = 'failed', 'the solver gives a model in which the obligation is false (abstract operations interpreted)'
    else:
        o.status, o.reason = 'undecided', f'solver: {r}'


def cvc5_check(s, tmo):
    try:
        import cvc5
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(tmo * 1000)))
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + s.to_smt2(), 'q')
        sm = ip.getSymbolManager()
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                return None
            out = cmd.invoke(slv, sm).strip()
            if out in ('sat', 'unsat', 'unknown'):
                return out
    except Exception as e:
        return None


def verify(args):
    'one contract, one scenario -> report'
    qual, scen, tmo, limit, verbose = args
    c = contracts.ALL[qual]
    t0 = time.time()
    rep = {'function': qual, 'scenario': scen, 'obligations': [], 'paths': 0, 'vacuity': [], 'assumptions': [], 'calls': [], 'solver_s': 0.0, 'props': c.props}
    prog = make_prog()
    if c.alt is not None:
        return verify_alt(prog, c, scen, tmo, limit, verbose, rep, t0)
    prog.hooks.update(c.hooks or {})
    prog.schema = c.schema or {}
    if c.env:
        prog.contracts = dict(contracts.ALL, **{q: contracts.Contract(q, f, {}, (), 'abstract operation') for q, f in c.env.items()})
    proved = {}      # the same obligation on another path
    try:
        prefix = []
        while prefix is not None:
            if time.time() - t0 > limit or rep['paths'] > 200:
                raise Unsupported('time or path limit')
            ctx, kind, vac = run_path(prog, c, scen, prefix)
            rep['paths'] += 1
            rep['vacuity'].append((kind, vac))
            rep['assumptions'] += list(ctx.assume_notes)
            rep['calls'] += list(ctx.calls)
            rep['solver_s'] += ctx.solver_s
            if kind != 'infeasible':
                for o in ctx.obls:
                    if time.time() - t0 > limit:
                        o.status, o.reason = 'undecided', 'time limit'
                    else:
                        known = (o.goal.get_id(), *[h.get_id() for h in map(boolz, o.hyps)])
                        if known in proved:
                            o.status, o.backend = 'proved', proved[known][0]
                        else:
                            discharge(o, tmo, prog)
                            if o.status == 'proved':
                                proved[known] = (o.backend, o)      # (the terms are kept alive)
                        if o.status != 'proved' and os.environ.get('PROVE_STOP'):
                            limit = 0
                    rep['solver_s'] += o.time
                    if verbose and o.status != 'proved':
                        print('   ', o.status, o.name, o.reason[:300])
                        if verbose > 1:
                            print('      goal:', str(z3.simplify(o.goal))[:3000])
                            for h in o.hyps:
                                print('      hyp:', str(h)[:400].replace('\n', ' '))
                    rep['obligations'].append((o.name, o.kind, o.status, o.reason, o.backend))
            prefix = ctx.dec.next_prefix()
        if not any(k == 'return' and v != 'unsat' for k, v in rep['vacuity']) and not all(k == 'raise' for k, v in rep['vacuity']):
            rep['obligations'].append((f'{qual}/{scen}: some input reaches a normal return', 'vacuity', 'undecided', 'no satisfiable normal path', ''))
    except Unsupported as e:
        rep['unsupported'] = str(e)
        rep['obligations'].append((f'{qual}/{scen}: body within reach', 'reach', 'undecided', f'outside the verified subset: {e}', ''))
        if verbose > 1:
            traceback.print_exc()
    except Exception as e:
        rep['unsupported'] = f'internal error: {type(e).__name__}: {e}'
        rep['obligations'].append((f'{qual}/{scen}: body within reach', 'reach', 'undecided', rep['unsupported'], ''))
        if verbose:
            traceback.print_exc()
    rep['wall'] = time.time() - t0
    return rep


def verify_alt(prog, c, scen, tmo, limit, verbose, rep, t0):
    'a contract discharged by another generator of obligations'
    try:
        obls, rep['vacuity'], rep['solver_s'] = c.alt(prog, c.qual, scen, tmo, limit)
        rep['paths'] = len(rep['vacuity'])
        rep['obligations'] += obls
        rep['assumptions'] += list(c.notes)
        if not any(k == 'return' and v != 'unsat' for k, v in rep['vacuity']):
            rep['obligations'].append((f'{c.qual}/{scen}: some input reaches a normal return', 'vacuity', 'undecided', 'no satisfiable normal path', ''))
        if verbose:
            for n, _, st, r, _ in obls:
                if st != 'proved':
                    print('   ', st, n, r[:300])
    except Unsupported as e:
        rep['unsupported'] = str(e)
        rep['obligations'].append((f'{c.qual}/{scen}: body within reach', 'reach', 'undecided', f'outside the verified subset: {e}', ''))
        if verbose > 1:
            traceback.print_exc()
    except Exception as e:
        rep['unsupported'] = f'internal error: {type(e).__name__}: {e}'
        rep['obligations'].append((f'{c.qual}/{scen}: body within reach', 'reach', 'undecided', rep['unsupported'], ''))
        if verbose:
            traceback.print_exc()
    rep['wall'] = time.time() - t0
    return rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--procs', type=int, default=4)
    ap.add_argument('--tmo', type=float, default=0)
    ap.add_argument('--stop', action='store_true', help='stop a scenario at its first obligation that fails')
    ap.add_argument('-v', action='count', default=0)
    a = ap.parse_args()
    t0 = time.time()
    tmo, limit = (8, 100) if a.tier == 'quick' else (40, 300)
    tmo = a.tmo or tmo
    if a.stop:
        os.environ['PROVE_STOP'] = '1'
    jobs = [(q, s, tmo, limit, a.v) for q, c in contracts.ALL.items() if (a.pid in c.props or a.pid == 'ALL') and (not a.only or a.only in q) for s in c.scenarios]
    if a.v > 1 or len(jobs) <= 1:
        reps = [verify(j) for j in jobs]
    else:
        with mp.Pool(min(a.procs, len(jobs)), maxtasksperchild=4) as pool:
            reps = pool.map(verify, jobs, chunksize=1)
    obls, funcs, backends, notes = [], {}, {}, set()
    inplace = sorted({q[10:] for r in reps for q in r['calls'] if q.startswith('in place: ')})
    nvac = {'paths': 0, 'satisfiable': 0, 'refusing_paths': 0}
    for r in reps:
        for n, kind, st, reason, be in r['obligations']:
            obls.append({'name': f"[{r['function'].split('.', 1)[1]}/{r['scenario']}] {n}", 'kind': kind, 'status': st, 'reason': reason})
            if st == 'proved':
                backends[be] = backends.get(be, 0) + 1
        f = funcs.setdefault(r['function'], {'function': r['function'], 'scenarios': [], 'obligations': 0, 'discharged': 0, 'bounded': contracts.ALL[r['function']].bounded})
        f['scenarios'].append(r['scenario'])
        f['obligations'] += len(r['obligations'])
        f['discharged'] += sum(1 for o in r['obligations'] if o[2] == 'proved')
        if r.get('unsupported'):
            f['outside'] = r['unsupported']
        notes |= set(r['assumptions'])
        for k, v in r['vacuity']:
            nvac['paths'] += 1
            nvac['satisfiable'] += v == 'sat'
            nvac['refusing_paths'] += k == 'raise'
        if a.v:
            bad = [o for o in r['obligations'] if o[2] != 'proved']
            print(f"{r['function']}/{r['scenario']}: {len(r['obligations']) - len(bad)}/{len(r['obligations'])} paths {r['paths']} {r['vacuity']} {r['wall']:.1f}s {r.get('unsupported', '')}")
            for o in bad[:5]:
                print('     ', o[2], o[0], o[3][:200])
    out = {'obligations': obls, 'functions': list(funcs.values()), 'executed_in_place': inplace, 'backends': backends, 'solver_s': round(sum(r['solver_s'] for r in reps), 2),
           'assumptions': sorted(notes), 'trusted_base': contracts.TRUSTED, 'vacuity': nvac,
           'bounded_functions': [f"{f['function']}: {f['bounded']}" for f in funcs.values() if f['bounded']], 'wall_s': round(time.time() - t0, 1)}
    if a.out:
        json.dump(out, open(a.out, 'w'))
    st = {}
    for o in obls:
        st[o['status']] = st.get(o['status'], 0) + 1
    print(a.pid, st, f'{time.time() - t0:.1f}s')


if __name__ == '__main__':
    main()
