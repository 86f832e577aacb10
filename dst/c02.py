"""C02: solve() reports what actually happened."""
import numpy as np
from .base import Check, Violation
from .core import pick, GOOD
from .spec import gen_spec, eff
from .decode import flat, fes, steps
from .hist import Session, gen_sets, gen_plan, limit, shrink_case, apply_op, REAL, STUB
from .ref import same


def rav(v):
    return np.asarray(v, dtype=float).ravel()


def want(kind, got, exp, what, tol=0.0):
    g, e = rav(got), rav(exp)
    if g.shape != e.shape or not (same(g, e) if tol == 0.0 else same(g, e, tol)):
        raise Violation(kind, f'{what}: reported {np.array2string(g, threshold=12)}, '
                        f'actual {np.array2string(e, threshold=12)}')


def seq(kind, got, exp, what):
    if len(got) != len(exp):
        raise Violation(kind, f'{what} has {len(got)} entries, expected {len(exp)}')
    for i, (g, e) in enumerate(zip(got, exp)):
        want(kind, g, e, f'{what}[{i}]')


def split(S, r):
    """Homotopy calls, polishing calls."""
    n = len(r.calls)
    k = n
    if S.o['do_polishing_step']:
        while k > 1 and r.calls[k - 1].p[S.pd.sigma] == 0.0:
            k -= 1
    return r.calls[:k], r.calls[k:]


def check_times(v, cs, what):
    """v must be the time of the NLP solves cs (the last one or all of them)."""
    lo, hi = cs[-1].dt, sum(c.dt + (c.tag or 0.0) for c in cs)
    if v is None or not (lo * (1 - 1e-9) - 1e-9 <= v <= hi + 1e-3):
        raise Violation('cpu_time', f'{what}: reported time {v}, the sub-solver took {[c.dt for c in cs]} s')


def check_stats(S, r):
    hom, pol = split(S, r)
    R, o = r.result, S.o
    last = r.calls[-1]
    ok = last.status in GOOD
    name = getattr(R['status'], 'name', str(R['status']))
    if (name == 'SUCCESS') != ok:
        raise Violation('status', f'reported {name}, the last NLP solve ended with {last.status}')
    n = limit(o) + (1 if o['do_polishing_step'] else 0)
    it, cpu = list(R['nlp_iter']), list(R['cpu_time_nlp'])
    if len(it) != n or len(cpu) != n:
        raise Violation('slots', f'{len(it)} iteration / {len(cpu)} time slots, expected {n}')
    for i in range(n):
        if i < len(hom):
            if it[i] != hom[i].iters:
                raise Violation('nlp_iter', f'slot {i}: {it[i]} iterations reported, NLP solve took {hom[i].iters}')
            check_times(cpu[i], [hom[i]], f'slot {i}')
        elif pol and i == n - 1:
            if it[i] not in (pol[-1].iters, sum(c.iters for c in pol)):
                raise Violation('nlp_iter', f'polishing slot: {it[i]} iterations reported, took {[c.iters for c in pol]}')
            check_times(cpu[i], pol, 'polishing slot')
        elif it[i] is not None or cpu[i] is not None:
            raise Violation('empty_slot', f'slot {i} reports iter={it[i]} time={cpu[i]} although no such NLP solve took place')
    for i, v in enumerate(cpu):
        if v is not None and v < 0:
            raise Violation('negative_time', f'slot {i} reports {v} s')
    cv = float(R['cost_val'])
    if not (cv == last.f or (np.isnan(cv) and np.isnan(last.f)) or abs(cv - last.f) <= 1e-12 * abs(last.f)):
        raise Violation('cost', f'reported cost {cv!r}, objective of the returned solution is {last.f!r}')
    want('w_sol', R['w_sol'], last.x, 'w_sol')
    exp = [c.x for c in hom] + [c.x for c in pol]
    wa = R['w_all']
    if not len(hom) + 1 <= len(wa) <= len(exp) + 1:
        raise Violation('w_all', f'{len(wa)} iterates for {len(hom)} NLP solves')
    for i, w in enumerate(wa[1:]):
        want('w_all', w, exp[i], f'w_all[{i + 1}]')


def trajectories(S, w, x0):
    """name -> list of expected arrays, from the primal vector by names."""
    d = S.d
    F = fes(d)
    T = {}
    T['x_list'] = [w[d.Xend[c][f]] for c, f in F]
    T['x_traj'] = [x0] + T['x_list']
    allx = [x0]
    for c, f in F:
        for row in S.ref.xrows(c, f):
            allx.append(w[row])
    T['x_all_list'] = allx
    T['u_list'] = [w[d.U[c]] for c in range(d.N)]
    T['u_traj'] = T['u_list']
    last = {'theta_list': d.theta, 'lambda_list': d.lam, 'alpha_list': d.alpha, 'lambda_n_list': d.ln,
            'lambda_p_list': d.lp, 'z_list': d.z}
    for k, L in last.items():
        T[k] = [w[np.array(flat(L[c][f][-1]), dtype=int)] for c, f in F]
    return T


def check_traj(S, r):
    d, o, R = S.d, S.o, r.result
    w = r.calls[-1].x
    T = trajectories(S, w, r.x0)
    for k, e in T.items():
        g = R[k]
        empty = all(x.size == 0 for x in e)
        if empty:
            if any(np.asarray(x).size for x in g):
                raise Violation('trajectory', f'{k} reports values for variables that do not exist')
            continue
        seq('trajectory', g, e, k)
    want('trajectory', R['x_out'], T['x_list'][-1], 'x_out')
    if d.sot != 'SOT_NONE':
        want('trajectory', np.concatenate([rav(q) for q in R['sot']]), w[d.s], 'sot')
    want('trajectory', R['v_global'], w[d.v], 'v_global')
    h = steps(d, w)
    want('grid', R['time_steps'], h, 'time_steps', 1e-12)
    t = np.concatenate(([0.0], np.cumsum(h)))
    want('grid', R['t_grid'], t, 't_grid', 1e-12)
    want('grid', R['t_grid_u'], t[np.concatenate(([0], np.cumsum(d.nfe)))], 't_grid_u', 1e-12)
    # switches
    th = T['theta_list'] if d.stewart else T['alpha_list']
    dif = [np.max(np.abs(a - b)) for a, b in zip(th[1:], th[:-1])]
    if all(q < 0.01 or q > 0.3 for q in dif):
        e = [t[i + 1] for i, q in enumerate(dif) if q > 0.3]
        want('switch_times', R['switch_times'], e, 'switch_times', 1e-12)
        return len(e)
    return None


class C02(Check):
    id = 'C02'
    runs = {'quick': 3500, 'thorough': 60000}
    cap = {'quick': 240, 'thorough': 3000}
    real, stub = REAL, STUB
    rule = ('seeded problem + options + history of solves under a scripted sub-solver with failures, NaN and clear-cut regions, '
            'clock jumps; every returned dict is compared with the recorded NLP calls and an independent by-name decoding; '
            'non-trivial: at least one result compared; distinct by (spec, statuses, switch counts)')

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=r.random() < 0.3)
        ops = []
        n = limit(eff(spec['opts']))
        for k in range(pick(r, (3, 1), (2, 2))):
            if k or r.random() < 0.4:
                gen_sets(r, spec, ops, r.randint(0, 2))
            m = r.randint(1, n)
            plan = gen_plan(r, m if r.random() < 0.7 else n, fault_rate=r.choice([0.0, 0.3, 0.9]), conv_end=0.4,
                            raise_rate=0.05)
            if r.random() < 0.6:   # whatever comes last has clear-cut regions
                plan = plan[:r.randint(0, len(plan))]
                for q in range(n - len(plan)):
                    plan.append({'k': 'regions', 'seed': r.randrange(10 ** 6), 'it': r.randrange(300),
                                 'dt': round(r.uniform(1e-3, 1), 5),
                                 'st': pick(r, (3, 'Solve_Succeeded'), (1, 'Infeasible_Problem_Detected'))})
            if spec['opts'].get('do_polishing_step'):
                for q in range(4):
                    plan.append({'k': r.choice(['regions', 'res', 'garbage']), 'm': 0.5, 'seed': r.randrange(10 ** 6),
                                 'it': r.randrange(300), 'dt': round(r.uniform(1e-3, 1), 5),
                                 'st': pick(r, (2, 'Solve_Succeeded'), (1, 'Solved_To_Acceptable_Level'),
                                            (1, 'Search_Direction_Becomes_Too_Small'), (1, 'Feasible_Point_Found'),
                                            (2, 'Restoration_Failed'))})
            for be in plan:
                if r.random() < 0.2:
                    be['jump'] = r.choice([-3600.0, 3600.0, -0.5, -1e7, 1e5])
            ops.append({'op': 'solve', 'plan': plan})
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        S = Session(case['spec'], W)
        sig, nt = [], False
        for op in case['ops']:
            r = apply_op(S, op)
            if r is None or r.exc is not None:
                continue
            if not r.calls:
                raise Violation('no_nlp_solved', 'solve() returned without posing an NLP')
            check_stats(S, r)
            ns = check_traj(S, r)
            if ns:
                W.probe('switches_reported', ns)
            nt = True
            sig.append((ns, [c.status for c in r.calls]))
        return nt, (case['spec'], sig)

    shrink = staticmethod(shrink_case)


CHECK = C02()
