"""Histories: set() / solve() / caller-side mutations on one solver, with a reference model."""
import copy
import numpy as np
from . import core
from .core import pick, InjectedError
from .base import Violation, classify, must, where
from .spec import build, construct, gen_spec, shrink_spec, eff
from .decode import decode, decode_p
from .script import Script, gen_behaviour, EXC
from .ref import Ref, gen_value, FIELDS, same

INJECTED = (InjectedError, KeyboardInterrupt, MemoryError, BrokenPipeError)


class Rec:
    """One solve as the harness saw it."""

    def __init__(self, n):
        self.n = n
        self.calls, self.result, self.exc = [], None, None
        self.w0 = self.l00 = self.x0 = self.p = None
        self.pin = ([], [])
        self.t0 = self.t1 = 0.0


class Session:
    """One solver under a scripted sub-solver."""

    def __init__(self, spec, W, script_cls=Script, handler=None, b=None):
        self.W, self.spec = W, spec
        self.who = getattr(W.tls, 'name', None)
        self.b = b or build(spec)
        if not hasattr(W, 'sessions'):
            W.sessions = {}
        W.sessions[self.who] = self
        W.handler = lambda nlp, c: W.sessions[c.who]._handler(nlp, c)
        self.user_handler = handler
        self.script = None
        self.solver = must('building the solver', construct, self.b)
        mine = [n for n in W.nlps if n.who == self.who]
        if not mine:
            raise Violation('no_nlp', 'the solver built no NLP')
        self.nlp = mine[-1]
        prob = self.solver.problem
        self.d = decode(self.b, self.nlp.x_names, prob)
        self.pd = decode_p(self.b, self.d, self.nlp.p_names)
        self.lbw0, self.ubw0 = np.array(prob.lbw, dtype=float), np.array(prob.ubw, dtype=float)
        self.ref = Ref(self.b, self.d, prob.w0)
        self.script = script_cls(self.b, self.d, self.pd)
        self.recs = []
        self.sets = []
        self.pending = []
        self.o = self.b['o']

    def _handler(self, nlp, c):
        if self.user_handler is not None:
            return self.user_handler(self, nlp, c)
        return self.script(nlp, c)

    def calls_since(self, n0):
        return [c for c in self.W.calls[n0:] if c.who == self.who]

    def set(self, field, value, model=True):
        """set() through the public API; the documented Warning for overwritten guesses is tolerated."""
        try:
            self.solver.set(field, value)
        except Warning as e:
            if field not in ('x', 'w') or self.o['initialization_strategy'] == 'EXTERNAL':
                raise Violation('unexpected_exception', f'set({field!r}) raised {e}')
        except BaseException as e:
            classify(e, f'set({field!r})')
        if model:
            self.ref.set(field, value)
            self.sets.append((field, np.array(value, dtype=float)))
        self.W.event(f'set {field} {core.h(np.asarray(value, dtype=float).ravel())}')

    def solve(self, plan):
        W = self.W
        r = Rec(len(self.recs))
        r.x0, r.p = self.ref.x0.copy(), self.ref.p.copy()
        r.l00 = self.ref.l00()
        r.w0 = self.ref.begin()
        r.pin = self.ref.pinned()
        self.script.start(plan)
        n0 = len(W.calls)
        r.t0 = W.elapsed
        try:
            r.result = self.solver.solve()
        except INJECTED as e:
            if not any(q in str(e) or isinstance(e, KeyboardInterrupt) for q in ('injected',)):
                classify(e, 'solve()')
            r.exc = e
            W.event(f'solve raised {type(e).__name__}')
        except BaseException as e:
            classify(e, 'solve()')
        r.t1 = W.elapsed
        r.calls = self.calls_since(n0)
        if r.result is not None:
            miss = [k for k in KEYS if k not in r.result] + (['sot'] if self.d.sot != 'SOT_NONE' and 'sot' not in r.result else [])
            if miss:
                raise Violation('result_incomplete', f'the result of solve() has no {", ".join(miss)}')
            w = r.result.get('w_sol')
            if w is not None:
                W.event(f'result {core.h(np.asarray(w, dtype=float))} {r.result.get("status")}')
            if r.calls and r.calls[-1].x is not None:
                self.ref.end(r.calls[-1].x)
        self.recs.append(r)
        return r


KEYS = ('x_out', 'x_list', 'x_all_list', 'u_list', 'theta_list', 'lambda_list', 'alpha_list', 'lambda_n_list', 'lambda_p_list',
        'z_list', 'time_steps', 'x_traj', 'u_traj', 't_grid', 't_grid_u', 'v_global', 'switch_times', 'cpu_time_nlp', 'nlp_iter',
        'w_all', 'w_sol', 'cost_val', 'status')


def gen_sets(r, spec, ops, n, fields=None):
    """Append n random set ops applicable to the spec."""
    o = eff(spec['opts'])
    ok = ['x0', 'x', 'w']
    if spec['n_u']:
        ok.append('u')
    if spec['n_v']:
        ok.append('v_global')
    if spec['n_pg']:
        ok.append('p_global')
    if spec['n_ptv']:
        ok.append('p_time_var')
    if len(spec['sys']) == 1 and o['pss_mode'] == 'STEWART':
        ok.append('theta')
    if fields:
        ok = [f for f in ok if f in fields]
    for _ in range(n):
        ops.append({'op': 'set', 'field': r.choice(ok), 'seed': r.randrange(10 ** 6), 'var': r.randint(0, 1)})


def gen_plan(r, n, fault_rate=0.35, raise_rate=0.0, conv_end=0.5, kinds=None):
    """A list of n behaviours; may end below the tolerance, may raise."""
    plan = []
    for i in range(n):
        last = i == n - 1
        plan.append(gen_behaviour(r, conv=True if last and r.random() < conv_end else False, fault_rate=fault_rate))
    if plan and r.random() < raise_rate:
        q = r.randrange(len(plan))
        plan[q]['raise'] = r.choice(sorted(EXC))
        plan[q]['when'] = r.choice(['before', 'after'])
    return plan


def sched_len(spec):
    """Upper bound on the number of homotopy NLPs of one solve."""
    o = eff(spec['opts'])
    return limit(o)


def limit(o):
    if o['max_iter_homotopy']:
        return o['max_iter_homotopy']
    return int(round(abs(np.log(o['comp_tol'] / o['sigma_0']) / np.log(o['homotopy_update_slope'])))) + 1


def shrink_ops(case, key='ops'):
    ops = case[key]
    # drop chunks, then single ops
    n = len(ops)
    for size in (max(1, n // 2), 1):
        for i in range(0, n, size):
            c = copy.deepcopy(case)
            del c[key][i:i + size]
            if any(q['op'] in ('solve', 'run') for q in c[key]):
                yield c
        if n // 2 <= 1:
            break
    for i, op in enumerate(ops):
        if op.get('plan'):
            for j in range(len(op['plan'])):
                c = copy.deepcopy(case)
                del c[key][i]['plan'][j]
                yield c
            for j, be in enumerate(op['plan']):
                simp = {'k': 'res', 'seed': 1, 'it': 1, 'dt': 0.01, 'st': 'Solve_Succeeded', 'm': 100.0}
                if be != simp:
                    c = copy.deepcopy(case)
                    c[key][i]['plan'][j] = simp
                    yield c
                for q in ('raise', 'stall', 'jump'):
                    if q in be:
                        c = copy.deepcopy(case)
                        c[key][i]['plan'][j].pop(q)
                        yield c
                if be['st'] != 'Solve_Succeeded':
                    c = copy.deepcopy(case)
                    c[key][i]['plan'][j]['st'] = 'Solve_Succeeded'
                    yield c


def shrink_case(case):
    yield from shrink_ops(case)
    for s in shrink_spec(case['spec']):
        c = copy.deepcopy(case)
        c['spec'] = s
        yield c


def apply_op(S, op):
    """Run one op of a history; returns the Rec for solves."""
    if op['op'] == 'set':
        v = gen_value(S.b, S.d, op['field'], op['seed'], op.get('var', 0))
        if v is None:
            return None
        S.set(op['field'], v)
        return None
    if op['op'] == 'solve':
        return S.solve(op['plan'])
    raise core.HarnessError(op['op'])


REAL = ['nosnoc package (options, model, OCP, problem assembly, homotopy loop, polishing, result extraction)',
        'casadi symbolics and function evaluation, casadi rootfinder']
STUB = ['casadi.nlpsol (IPOPT): scripted sub-solver', 'time.*: simulated clock', 'stdout: sink']


def check_data(S, r, guess=True):
    """Every NLP of the solve uses the state and parameters in force; the first one the guess in force."""
    d, pd = S.d, S.pd
    for i, c in enumerate(r.calls):
        if i == 0 and guess and r.w0 is not None:
            diff = np.where(~((c.x0 == r.w0) | (np.isnan(c.x0) & np.isnan(r.w0))))[0]
            sure, maybe = r.pin
            diff = [q for q in diff if not (q in sure or q in maybe) or c.x0[q] != 0.0]
            if len(diff):
                raise Violation('first_guess', f'solve {r.n} does not start at the initial guess: entries '
                                f'{[c.nlp.x_names[q] for q in diff[:5]]} are {c.x0[diff[:5]]}, expected {r.w0[diff[:5]]}')
        if not same(c.p[pd.x0], r.x0):
            raise Violation('x0_param', f'solve {r.n} NLP #{i}: initial state {c.p[pd.x0]} instead of {r.x0}')
        for st in range(d.N):
            if not same(c.p[pd.p[st]], r.p[st]):
                raise Violation('params', f'solve {r.n} NLP #{i}: parameters of stage {st} are {c.p[pd.p[st]]} instead of '
                                f'{r.p[st]}')
        if not np.all(np.isfinite(r.x0)):
            continue
        got = [(c.p[q],) for q in pd.l00] if d.stewart else [(c.p[a], c.p[q]) for a, q in zip(pd.l00n, pd.l00p)]
        for sy in range(d.n_sys):
            exp = (r.l00[sy],) if d.stewart else r.l00[sy]
            if not all(np.allclose(g, e, rtol=1e-9, atol=1e-9) for g, e in zip(got[sy], exp)):
                raise Violation('lambda00', f'solve {r.n} NLP #{i}: initial multipliers of subsystem {sy} are {got[sy]} '
                                f'instead of {exp}')
