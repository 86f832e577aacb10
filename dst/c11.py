"""C11: a finite element integrates exactly up to the advertised order, for every scheme, number of stages and representation."""
import copy
import numpy as np
from numpy.polynomial import Polynomial as P
from . import pwc
from .base import Violation, HarnessError
from .core import pick
from .c07 import C07, Player, CHEATS, gen_faults, step_phases, grids
from .decode import fes
from .spec import eff, DEFAULTS
from .pwc import NotRegular, Fam, u2


def order(o):
    return 2 * o['n_s'] - (1 if o['irk_scheme'] == 'RADAU_IIA' else 0)


def gen_opts(r, real):
    o = {}
    o['pss_mode'] = pick(r, (1, 'STEWART'), (1, 'STEP'))
    o['irk_scheme'] = pick(r, (1, 'RADAU_IIA'), (1, 'GAUSS_LEGENDRE'))
    o['n_s'] = r.randint(1, 5 if real else 9)
    o['irk_representation'] = pick(r, (2, 'INTEGRAL'), (1, 'DIFFERENTIAL'), (1, 'DIFFERENTIAL_LIFT_X'))
    o['mpcc_mode'] = pick(r, (6, 'SCHOLTES_INEQ'), (1, 'ELASTIC_INEQ'))
    o['cross_comp_mode'] = pick(r, (3, 'SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA'), (1, 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'))
    o['use_fesd'] = real or r.random() < 0.7      # (plain time stepping has other solutions, which IPOPT may find)
    o['step_equilibration'] = pick(r, (2, 'HEURISTIC_MEAN'), (2, 'HEURISTIC_DELTA'),
                                   (1 if o['n_s'] <= 4 else 0, 'DIRECT'))      # (its products magnify rounding errors)
    o['N_finite_elements'] = pick(r, (2, 1), (3, 2), (2, 3)) if r.random() < 0.8 else 4
    o['rho_h'] = pick(r, (2, 1.0), (1, 0.1))
    o['terminal_time'] = round(r.uniform(0.4, 1.6), 3)
    o['comp_tol'] = pick(r, (2, 1e-8), (1, 1e-7))
    o['sigma_N'] = 1e-9
    o['initialization_strategy'] = pick(r, (2, 'ALL_XCURRENT_W0_START'), (1, 'ALL_XCURRENT_WOPT_PREV'), (1, 'EXTERNAL'))
    o['equidistant_control_grid'] = r.random() < 0.85
    return {k: v for k, v in o.items() if DEFAULTS[k] != v}


def partition(r, total, n):
    """n positive integers that add up to at most total."""
    out = []
    for i in range(n):
        out.append(r.randint(1, max(1, total - sum(out) - (n - i - 1))))
    return out


def gen_fam(r, o, dims, tmax):
    """A member of the C07 family with clock, forced at high degree, and a chain of smooth states."""
    for _ in range(1000):
        q = pwc.gen_fam(r, o, dims)
        if q['clock'] is not None and q['mode'] != 'g':
            break
    p, ic = order(o), q['clock']
    iq = ic - 1
    n0 = q['n_x']
    k = pick(r, (1, 1), (3, 2), (2, 3))
    # weights: x_i is a polynomial in time of degree wt[i] (p: the order of the method is just enough)
    wt = {ic: 1}
    chain, force = [], []
    for i in range(n0, n0 + k):
        top = max(1, p - 1) if i == n0 and k > 1 and r.random() < 0.7 else p
        terms, best = [], 1
        for _ in range(r.randint(1, 2)):
            js = []
            left = (r.randint(1, top) if r.random() < 0.4 else top) - 1
            for j in sorted(wt, key=lambda _: r.random()):
                while j != ic and wt[j] <= left and len(js) < 3 and r.random() < 0.7:
                    js.append(j)
                    left -= wt[j]
            m = left if r.random() < 0.7 else r.randint(0, left)
            terms.append([i, round(u2(r, 0.5, 1.5) / tmax ** m, 12), sorted(js), m])
            best = max(best, 1 + m + sum(wt[j] for j in js))
        chain += terms
        wt[i] = best
    q['n_x'] = n0 + k
    for e in q['sys']:
        e['C'] = [row + [0.0] * k for row in e['C']]
        e['F'] = [row + [0.0] * k for row in e['F']]
    for nm in ('Bu', 'Bt', 'Bg', 'Bv'):
        q[nm] += [[0.0] * len(q[nm][0]) for _ in range(k)]
    for i in range(n0, n0 + k):
        for nm in ('Bt', 'Bg'):
            for j in range(len(q[nm][0])):
                if r.random() < 0.4:
                    q[nm][i][j] = u2(r, 0.2, 0.8)
    q['x0'] += [round(r.uniform(-1, 1), 3) for _ in range(k)]
    q['z'] = [t for t in q['z'] if t[0] >= 0]
    q['chain'] = chain
    q['force'] = [f for f in q['force'] if f[0] != iq]
    if r.random() < 0.8:
        m = p - 1 if r.random() < 0.7 else r.randint(0, p - 1)
        q['force'].append([iq, round(u2(r, 0.5, 2.0) / tmax ** m, 12), m])
    # rates of iq that depend on the mode and on time
    q['iq'] = iq
    deg = p - 1 - max([f[2] for f in q['force'] if f[0] < iq] + [0])
    if deg > 0 and r.random() < 0.6:
        e = r.choice(q['sys'])
        e['Q'] = []
        for _ in e['F']:
            m = deg if r.random() < 0.6 else r.randint(0, deg)
            e['Q'].append([0.0] * m + [round(u2(r, 0.3, 1.5) / tmax ** m, 12)])
    q['wt'] = sorted([int(a), int(b)] for a, b in wt.items())
    return q


def gen_cost(r, q, o, tmax):
    p, wt = order(o), dict(q['wt'])

    def monos(top):
        out = []
        for _ in range(r.randint(1, 2)):
            fs, left = [], top
            for j in sorted(wt, key=lambda _: r.random()):
                m = left // wt[j] if r.random() < 0.6 else 0
                if j != q['clock']:
                    m = min(m, 2)
                if m:
                    fs.append([j, m])
                    left -= m * wt[j]
            m = sum(b for a, b in fs if a == q['clock'])
            out.append([round(u2(r, 0.5, 1.5) / tmax ** m, 12), fs])
        return out
    oc = {}
    if r.random() < 0.85:
        oc['fq'] = {'k': u2(r), 'mono': monos(p - 1)}
    if r.random() < 0.4:
        oc['fT'] = {'k': 0.0, 'x': [u2(r) for _ in range(q['n_x'])]}
    return oc or None


class P11(Player):
    tol_real = 2e-5

    def __init__(self, S, case, W):
        super().__init__(S, case, W)
        # rounding errors of the coefficients grow with the number of stages
        self.reject, self.tol_ideal = (2e-9, 1e-8) if S.o['n_s'] <= 6 else (4e-8, 4e-7)


class C11(C07):
    id = 'C11'
    runs = {'quick': 2000, 'thorough': 30000}
    cap = {'quick': 300, 'thorough': 3000}
    player = P11
    rule = ('seeded (scheme, 1-9 stages, representation, grid) and piecewise-smooth system whose solution is a polynomial in time of '
            'exactly the degree that the advertised order integrates without error (forced states, triangular nonlinear chains, '
            'mode-dependent rates, integral cost), simulated under fault plans with the sub-solvers of C07; non-trivial: at least '
            'one successful step compared; distinct by (case, statuses)')
    assumptions = ['solution unique, transversal, switches at least 0.02 apart', 'coefficients of the method to about 1e-9']

    def gen(self, r, idx, tier):
        real = r.random() < 0.12
        for _ in range(600):
            opts = gen_opts(r, real)
            o = eff(opts)
            n = pick(r, (3, 1), (2, 2))
            tmax = max(1.0, round(n * o['terminal_time'] + 0.5, 3))
            fam = gen_fam(r, o, dict(n_u=0, n_v=0, n_t=pick(r, (2, 0), (1, 1)), n_g=pick(r, (2, 0), (1, 1))), tmax)
            case = {'fam': fam, 'opts': opts, 'steps': [{'pt': fam['pt'][0], 'pg': fam['pg']}] * n, 'gl_cz': False}
            oc = gen_cost(r, fam, o, tmax) if r.random() < 0.6 else None
            if oc:
                case['ocp'] = oc
            f = Fam(fam)
            try:
                ph = step_phases(case, f)
            except NotRegular:
                continue
            if not self.ok(case, f, ph, real):
                continue
            if o['use_fesd'] and not real and o['N_finite_elements'] > 1 and not any(len(p) > 1 for p in ph) and r.random() < 0.7:
                continue
            break
        else:
            raise HarnessError('no regular problem found')
        case['sub'] = 'real' if real else 'ideal'
        case['loop'] = oc is None and r.random() < 0.2
        att = []
        for k in range(n):
            a = []
            if not case['loop'] and r.random() < 0.3:
                a.append({'plan': gen_faults(r, 40, True), 'cheats': []})
            plan = gen_faults(r, r.randint(0, 3) if r.random() < 0.5 else 0, False)
            for be in plan:
                be.pop('raise', None)
            ch = [] if real or not o['use_fesd'] else [[r.choice(CHEATS), r.randrange(10 ** 6)] for _ in range(r.randint(0, 4))]
            a.append({'plan': plan, 'cheats': ch})
            att.append(a)
        case['att'] = att
        case['stop'] = r.random() < 0.3
        return case

    def ok(self, case, f, ph, real):
        o = eff(case['opts'])
        if not o['use_fesd'] or real:
            if any(len(p) > 1 for p in ph):
                return False
        elif not grids(case, ph):
            return False
        if any(q.event == 'leave' for p in ph for q in p):
            return False
        p = order(o)
        ch = {t[0] for t in f.chain}
        for q in (q for a in ph for q in a):
            for i in range(f.n_x):
                c = np.trim_zeros(np.array(q.rate[i].convert().coef), 'b')
                if i not in ch and len(c) - 1 > p - 1:
                    return False
            if np.max(np.abs([a(t) for a in q.x for t in (q.s0, q.s1)])) > 20:
                return False
        return True

    def step_done(self, case, pl, k, result):
        t = np.ravel(np.asarray(pl.S.solver.opts.irk_time_points, dtype=float))
        cs, _, _ = pwc.tableau(pl.o['irk_scheme'], pl.o['n_s'])
        if len(t) not in (len(cs), len(cs) + 1) or not np.all(np.abs(t[-len(cs):] - cs) <= 1e-8) \
                or len(t) > len(cs) and t[0] != 0:
            raise Violation('stage_times', f'stage times {t} instead of {cs}')
        oc = case.get('ocp')
        if not oc or pl.plan and pl.i <= len(pl.plan):
            return
        S, o, fam = pl.S, pl.o, pl.fam
        J = 0.0
        ph = pl.phases[k]
        if oc.get('fq'):
            for q in ph:
                e = P([oc['fq']['k']])
                for a, fs in oc['fq']['mono']:
                    t = P([a])
                    for i, m in fs:
                        t = t * q.x[i].convert(domain=[-1, 1]) ** m
                    e = e + t
                J += e.integ(lbnd=q.s0)(q.s1)
        if oc.get('fT'):
            J += oc['fT']['k'] + float(np.dot(oc['fT']['x'], pwc.at(ph, ph[-1].s1, fam.n_x)))
        if o['use_fesd']:
            h = np.asarray(result['time_steps'], dtype=float)
            if o['step_equilibration'] == 'HEURISTIC_MEAN':
                J += o['rho_h'] * float(np.sum((h - o['terminal_time'] / len(h)) ** 2))
            elif o['step_equilibration'] == 'HEURISTIC_DELTA':
                J += o['rho_h'] * float(np.sum(np.diff(h) ** 2))
        w = pl.S.W.calls[-1].x
        el = 0.0
        if o['mpcc_mode'].startswith('ELASTIC'):
            return          # the penalty of the elastic variable is part of the objective
        got = float(result['cost_val'])
        tol = (pl.tol_ideal if not pl.real else 1e-4) * (1 + abs(J))
        pl.W.probe('cost_compared')
        if not abs(got - J) <= tol:
            raise Violation('quadrature', f'step {k}: the integral cost along the exact trajectory is {J:.12g}, the objective is '
                            f'{got:.12g}')

    def shrink(self, case):
        for c in super().shrink(case):
            if self.fits(c):
                yield c
        if case.get('ocp'):
            c = copy.deepcopy(case)
            del c['ocp']
            yield c
        for i in range(len(case['fam']['chain'])):
            c = copy.deepcopy(case)
            del c['fam']['chain'][i]
            yield c

    def fits(self, c):
        try:
            f = Fam(c['fam'])
            return self.ok(c, f, step_phases(c, f), c['sub'] == 'real')
        except NotRegular:
            return False


CHECK = C11()
