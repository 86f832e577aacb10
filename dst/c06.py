"""C06: the simulation loop chains and records its steps consistently."""
import copy
import numpy as np
from . import core
from .base import Check, Violation, HarnessError, classify
from .core import pick, nprng
from .spec import gen_spec, eff
from .decode import fes
from .hist import Session, gen_plan, limit, shrink_case, check_data, Rec, INJECTED, gen_sets, apply_op, REAL, STUB
from .c02 import want, rav
from .c05 import frozen
from .ref import same
import nosnoc


def cp(o):
    return copy.deepcopy(o)


class Watch:
    """Wraps solver.solve: what the looper asked for, step by step."""

    def __init__(self, S, op, x0, pv, wi):
        self.S, self.op, self.pv, self.wi = S, op, pv, wi
        self.recs = []
        self.x = np.array(x0, dtype=float)
        self.real = S.solver.solve

    def solve(self):
        S, i = self.S, len(self.recs)
        ref = S.ref
        ref.set('x0', self.x)
        if i < self.op['Nsim']:
            if self.wi is not None:
                ref.set('w', self.wi[i])
            if self.pv is not None:
                ref.set('p_global', self.pv[i])
        r = Rec(i)
        r.x0, r.p, r.l00 = ref.x0.copy(), ref.p.copy(), ref.l00()
        r.w0 = ref.begin()
        r.pin = ref.pinned()
        self.recs.append(r)
        S.script.start(self.op['steps'][i] if i < len(self.op['steps']) else [])
        n0 = len(S.W.calls)
        try:
            r.result = self.real()
        except BaseException as e:
            r.exc = e
            raise
        finally:
            r.calls = S.W.calls[n0:]
            S.W.stdout.fail_at = None
        if i >= self.op['Nsim']:
            raise Violation('too_many_steps', f'step {i + 1} of {self.op["Nsim"]} was started')
        r.copy = cp(r.result)
        if not r.calls or r.calls[-1].x is None:
            raise Violation('no_nlp_solved', 'solve() posed no NLP')
        w = r.calls[-1].x
        ref.end(w)
        c, f = fes(S.d)[-1]
        self.x = w[S.d.Xend[c][f]].copy()
        return r.result


def run_loop(S, op):
    W, d, o = S.W, S.d, S.o
    N = op['Nsim']
    g = nprng('loop', op['seed'])
    x0 = np.round(g.normal(size=d.n_x), 4)
    pv = np.round(g.normal(size=(N, d.n_pg)), 4) if op['p'] and d.n_pg else None
    wi = [np.round(g.normal(size=d.nw), 4) for _ in range(N)] if op['w'] and S.ref.strategy == 'EXTERNAL' else None
    mine = [(n, a, cp(a)) for n, a in (('x0', x0), ('p_values', pv), ('w_init', wi)) if a is not None]
    watch = Watch(S, op, cp(x0), cp(pv), cp(wi))
    x_first = cp(x0)
    kw = {}
    if pv is not None:
        kw['p_values'] = pv
    if wi is not None:
        kw['w_init'] = wi
    if op.get('pl') is not None:
        kw['print_level'] = op['pl']
    S.solver.solve = watch.solve
    exc = ret = None
    try:
        L = nosnoc.NosnocSimLooper(S.solver, x0, N, **kw)
        if op.get('mut'):
            # the caller reuses its buffers between construction and run
            for n, a, _ in mine:
                for b in (a if isinstance(a, list) else [a]):
                    b += 1 + g.random()
            mine = [(n, a, cp(a)) for n, a, _ in mine]
            W.fault('caller_mutation')
        ret = L.run(stop_on_failure=True) if op['stop'] else L.run()
    except Violation:
        raise
    except INJECTED as e:
        if not (watch.recs and watch.recs[-1].exc is e):
            classify(e, 'run()')
        if isinstance(e, RuntimeError) and 'injected' not in str(e):
            classify(e, 'run()')
        exc = e
    except BaseException as e:
        classify(e, 'run()')
    finally:
        del S.solver.solve
    recs = watch.recs
    for r in recs:
        check_data(S, r, guess=True)
    done = [r for r in recs if r.result is not None]
    fail = [i for i, r in enumerate(done) if r.copy['status'] != nosnoc.nosnoc_types.Status.SUCCESS]
    W.event(f'loop done={len(done)} fail={fail} ret={ret} exc={type(exc).__name__}')
    if exc is None:
        if len(done) != len(recs):
            if ret is not False:
                raise Violation('exception_swallowed', f'step {len(done)} raised but run() returned {ret}')
        elif op['stop'] and fail:
            if len(done) != fail[0] + 1:
                raise Violation('stop_on_failure', f'first unsuccessful step is {fail[0]}, but {len(done)} steps were executed')
            if ret is not False:
                raise Violation('stop_on_failure', f'run() returned {ret} after a failed step')
            W.probe('stopped_on_failure')
        else:
            if len(done) != N:
                raise Violation('steps_missing', f'{len(done)} of {N} steps were executed')
            if ret is not True:
                raise Violation('return_value', f'run() returned {ret} after all steps')
    else:
        W.probe('stopped_by_exception')
    if exc is None and len(done) != len(recs):
        return len(done), fail, 'swallowed'
    # the record
    try:
        R = L.get_results()
    except BaseException as e:
        classify(e, 'get_results()')
    res = [r.copy for r in done]
    for k in ('X_sim', 'cpu_nlp', 'time_steps', 't_grid', 'theta_sim', 'lambda_sim', 'alpha_sim', 'z_sim', 'sot', 'w_sim', 'w_all',
              'cost_vals', 'status', 'switch_times'):
        if k not in R:
            raise Violation('record', f'the record has no {k}')
    X = [x_first] + [x for q in res for x in q['x_list']]
    want('record', R['X_sim'], X, 'X_sim')
    ts = np.concatenate([np.zeros(0)] + [np.asarray(q['time_steps'], dtype=float) for q in res])
    want('record', R['time_steps'], ts, 'time_steps')
    tg = np.concatenate(([0.0], np.cumsum(ts)))
    want('record', R['t_grid'], tg, 't_grid', 1e-12)
    if len(R['X_sim']) != len(R['t_grid']):
        raise Violation('record', f"{len(R['X_sim'])} states on {len(R['t_grid'])} grid points")
    for k, src in (('theta_sim', 'theta_list'), ('lambda_sim', 'lambda_list'), ('alpha_sim', 'alpha_list'),
                   ('z_sim', 'z_list'), ('w_sim', 'w_sol'), ('w_all', 'w_all'), ('cost_vals', 'cost_val')):
        if len(R[k]) != len(res):
            raise Violation('record', f'{k} has {len(R[k])} entries for {len(res)} steps')
        for i, q in enumerate(res):
            a, b = frozen(R[k][i]), frozen(q[src])
            if len(a) != len(b):
                raise Violation('record', f'{k}[{i}] has {len(a)} parts, the step had {len(b)}')
            for (p1, v1), (p2, v2) in zip(a, b):
                want('record', v1, v2, f'{k}[{i}]{p1}')
    if d.sot != 'SOT_NONE':
        want('record', [rav(q) for q in R['sot']], [rav(q['sot']) for q in res], 'sot')
    if list(R['status']) != [q['status'] for q in res]:
        raise Violation('record', f"status {R['status']}, steps ended with {[q['status'] for q in res]}")
    t0, sw = 0.0, []
    for q in res:
        sw += [t0 + s for s in q['switch_times']]
        t0 += float(np.sum(np.asarray(q['time_steps'], dtype=float)))
    want('switch_times', R['switch_times'], sw, 'switch_times', 1e-9)
    # switch times are points of the global grid
    for s in np.asarray(R['switch_times'], dtype=float):
        if np.isfinite(s) and np.all(np.isfinite(tg)) and np.min(np.abs(tg - s)) > 1e-6 * max(1.0, np.max(np.abs(tg))):
            raise Violation('switch_times', f'switch time {s} is not on the time grid')
    n = limit(o) + (1 if o['do_polishing_step'] else 0)
    E = np.zeros((N, n))
    for i, q in enumerate(res):
        for j, v in enumerate(q['cpu_time_nlp']):
            E[i, j] = 0.0 if v is None else v
    G = np.asarray(R['cpu_nlp'], dtype=float)
    if G.shape == (len(res), n):
        E = E[:len(res)]
    want('record', G, np.nan_to_num(E), 'cpu_nlp')
    for n, a, q in mine:
        for (_, v1), (_, v2) in zip(frozen(a), frozen(q)):
            if not same(v1, v2):
                raise Violation('caller_array_modified', f'{n} was modified by the loop')
    return len(done), fail, type(exc).__name__


class C06(Check):
    id = 'C06'
    runs = {'quick': 2500, 'thorough': 40000}
    cap = {'quick': 240, 'thorough': 3000}
    real, stub = REAL, STUB
    rule = ('seeded simulation problem + 1-3 loops on one solver (parameter rows, guesses, stop_on_failure, per-step statuses, '
            'exceptions at NLP calls and in output); non-trivial: at least two steps or an unsuccessful step; distinct by '
            '(spec, steps done, failures, exception)')
    assumptions = ['one run() per looper', 'interrupts inside the looper\'s own bookkeeping are not injected']

    def gen(self, r, idx, tier):
        while True:
            spec = gen_spec(r, sim=True, small=True)
            if 'ocp' not in spec:
                break
        o = spec['opts']
        o['max_iter_homotopy'] = r.randint(1, 3)
        n = o['max_iter_homotopy']
        ops = []
        for _ in range(pick(r, (4, 1), (2, 2), (1, 3))):
            if ops and r.random() < 0.4:
                gen_sets(r, spec, ops, 1)
            N = pick(r, (1, 1), (2, 2), (3, 3), (2, 5), (1, 8))
            fr = r.choice([0.0, 0.0, 0.15, 0.6])
            rr = r.choice([0.0, 0.0, 0.2])
            steps = []
            for i in range(N):
                if r.random() < 0.5:
                    p = [{'k': 'regions', 'seed': r.randrange(10 ** 6), 'it': r.randrange(99), 'dt': 0.1,
                          'st': r.choice(core.BAD) if r.random() < fr else r.choice(core.GOOD)} for _ in range(n)]
                else:
                    p = gen_plan(r, n, fault_rate=fr)
                if r.random() < rr:
                    q = r.choice(p)
                    if r.random() < 0.3 and o.get('print_level'):
                        q['print_fail'] = r.randint(1, 3)
                    else:
                        q['raise'], q['when'] = r.choice(['RuntimeError', 'KeyboardInterrupt', 'MemoryError']), \
                            r.choice(['before', 'after'])
                for _ in range(2):
                    p.append({'k': 'regions', 'seed': r.randrange(10 ** 6), 'it': 5, 'dt': 0.2,
                              'st': r.choice(core.BAD) if r.random() < fr else r.choice(core.GOOD)})
                for be in p:
                    if o.get('rootfinder_for_initial_z') and be['k'] == 'nan':
                        be['k'] = 'garbage'
                        be['sc'] = 0
                steps.append(p)
            ops.append({'op': 'run', 'Nsim': N, 'steps': steps, 'p': r.random() < 0.6, 'w': r.random() < 0.5,
                        'stop': r.random() < 0.5, 'mut': r.random() < 0.15, 'seed': r.randrange(10 ** 6), 'pl': pick(r, (2, None), (1, 0), (1, 1))})
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        S = Session(case['spec'], W)
        sig, nt = [], False
        for op in case['ops']:
            if op['op'] == 'run':
                q = run_loop(S, op)
                sig.append(q)
                nt |= q[0] >= 2 or bool(q[1]) or q[2] != 'NoneType'
            else:
                apply_op(S, op)
        return nt, (case['spec'], sig)

    def shrink(self, case):
        for i, op in enumerate(case['ops']):
            if op['op'] == 'run' and op['Nsim'] > 1:
                for j in range(op['Nsim']):
                    c = cp(case)
                    c['ops'][i]['Nsim'] -= 1
                    del c['ops'][i]['steps'][j]
                    yield c
            if op['op'] == 'run':
                for k in ('p', 'w', 'stop', 'mut'):
                    if op.get(k):
                        c = cp(case)
                        c['ops'][i][k] = False
                        yield c
                for j, st in enumerate(op['steps']):
                    if len(st) > 1:
                        c = cp(case)
                        c['ops'][i]['steps'][j] = st[:1]
                        yield c
                    for m, be in enumerate(st):
                        for q in ('raise', 'print_fail', 'stall'):
                            if q in be:
                                c = cp(case)
                                del c['ops'][i]['steps'][j][m][q]
                                yield c
        yield from shrink_case(case)


CHECK = C06()
