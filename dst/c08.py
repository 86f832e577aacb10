"""C08: a successful OCP solution satisfies the user's problem as stated (and solutions of it are accepted)."""
import copy
import numpy as np
from . import core, pwc
from .base import Check, Violation, HarnessError
from .core import pick, nprng, rng_of, GOOD
from .spec import eff, DEFAULTS
from .hist import Session
from .decode import fes, flat, comp_res, stage_states
from .pwc import NotRegular, val
from .c07 import gen_opts as sim_opts, gen_faults, REJECT, SMALL, name

BIG = 0.03          # a candidate violating the user's problem by more than this must not be feasible
INF = 'inf'


# -- generation --------------------------------------------------------------------
def gen_opts(r, real):
    o = sim_opts(r, real)
    N = pick(r, (2, 1), (4, 2), (3, 3) if not real else (1, 3))
    o['N_stages'] = N
    o.pop('Nfe_list', None)
    nf = o.get('N_finite_elements', 2)
    if real:
        nf = min(nf, 3)
        o['n_s'] = min(o.get('n_s', 2), 2)
    o['N_finite_elements'] = nf
    if r.random() < 0.3:
        o['Nfe_list'] = [max(1, nf + r.randint(-1, 1)) for _ in range(N)]
    o['terminal_time'] = round(r.uniform(0.4, 1.0) * N, 3)
    o['speed_of_time_variables'] = pick(r, (4, 'SOT_NONE'), (2, 'SOT_LOCAL'), (2, 'SOT_GLOBAL'))
    if o['speed_of_time_variables'] != 'SOT_NONE':
        o['speed_of_time_min'] = pick(r, (1, 1.0), (1, 0.5))
        o['speed_of_time_max'] = pick(r, (1, 25.0), (1, 2.5))
    o['equidistant_control_grid'] = r.random() < 0.7
    o['use_fesd'] = r.random() < 0.85
    if not o['use_fesd']:
        o['fix_active_set_fe0'] = False
    o['time_freezing'] = o['equidistant_control_grid'] and r.random() < 0.25
    o['g_path_at_fe'] = r.random() < 0.35
    o['g_path_at_stg'] = r.random() < 0.35
    o['rho_h'] = pick(r, (1, 0.0), (1, 1.0))
    o['fix_active_set_fe0'] = False
    return {k: v for k, v in o.items() if DEFAULTS[k] != v}


def R(r, lo, hi, nd=3):
    return round(r.uniform(lo, hi), nd)


def expr(r, dims, sets, sc=1.0, sq=None):
    """Random affine expression (plus squares) in the given vectors."""
    t = {'k': R(r, -1, 1)}
    for n in sets:
        if dims[n]:
            t[n] = [R(r, -sc, sc) if r.random() < 0.8 else 0.0 for _ in range(dims[n])]
    if sq:
        t['sq'] = [[n, r.randrange(dims[n]), R(r, 0.1, 1.0)] for n in sq if dims[n]]
    return t


def data_of(o, s, N):
    """Per-stage data of a solve description, as the exact integrator wants it."""
    out = []
    for k in range(N):
        sot = s['sot'][k]
        out.append(dict(L=s['L'][k] * sot, sot=sot, u=np.array(s['u'][k], dtype=float), v=np.array(s['v'], dtype=float),
                        pt=np.array(s['pt'][k], dtype=float), pg=np.array(s['pg'], dtype=float)))
    return out


class FakeD:
    """Just enough of a decoder for the grid."""

    def __init__(self, o, n_x):
        self.o, self.N = o, o['N_stages']
        self.nfe = list(o['Nfe_list']) if o['Nfe_list'] else [o['N_finite_elements']] * self.N
        self.fesd, self.n_s, self.n_x = o['use_fesd'], o['n_s'], n_x
        self.radau = o['irk_scheme'] == 'RADAU_IIA'


def seen(d, phases, data):
    """Can the discretisation represent this solution exactly?"""
    grid = pwc.make_grid(d, phases, data)
    if grid is None:
        return None
    if d.fesd and not d.radau:
        c, _, _ = pwc.tableau('GAUSS_LEGENDRE', d.n_s)
        for k in range(d.N):
            ph = [p for p in phases if p.stage == k]
            h0 = d.o['terminal_time'] / d.N / d.nfe[k]
            if len(ph) > 1 and (ph[-1].s1 - ph[-1].s0) / data[k]['sot'] < (1 - c[-1]) * 2 * h0 * 1.02:
                return None
    return grid


def solution(fam, d, x0, data):
    ph, _ = pwc.integrate(fam, x0, data)
    grid = seen(d, ph, data)
    if grid is None:
        raise NotRegular('does not fit the grid')
    return ph, grid, pwc.elements(fam, d, x0, grid, data)


def points(o, d, grid, els):
    """(stage, kind, x) of every point: 's' stages, 'f' ends of elements, 'c' ends of control stages."""
    out = []
    for i, (g, e) in enumerate(zip(grid, els)):
        last = i + 1 == len(grid) or grid[i + 1][0] != g[0]
        for k in range(d.n_s):
            if not (d.radau and k == d.n_s - 1):
                out.append((g[0], 's', e.X[k]))
        out.append((g[0], 'c' if last else 'f', e.xe))
    return out


def odd_plan(r, fam, d, o, solves, lb, vt, a_T, a_tT, dims):
    k = r.randrange(len(solves))
    s = copy.deepcopy(solves[k])
    st = r.randrange(len(s['u']))
    free = [i for i, a in enumerate(s['u'][st]) if a > lb[i]]
    if not free:
        return None
    i = r.choice(free)
    s['u'][st][i] = round(max(lb[i] + 0.01, s['u'][st][i] + r.choice([-1, 1]) * r.uniform(0.1, 0.9)), 4)
    try:
        e = solution(fam, d, s['x0'], data_of(o, s, d.N))
    except NotRegular:
        return None
    if vt:
        s['v'][0] = float(np.dot(a_T, e[2][-1].xe) + (np.dot(a_tT, s['pt'][-1]) if dims['n_t'] else 0.0))
    return {'solve': k, 's': s}, e


def spike(r, odd, oc, pts, k0, use, n_x):
    """A constraint that the odd plan violates at a single point."""
    for _ in range(30):
        i = r.randrange(n_x)
        if r.random() < 0.3:        # a bound on the state
            v = np.array([x[i] for k, (st, kd, x) in pts if kd != 's' or k < k0])
            o = np.array([k == k0 for k, (st, kd, x) in pts if kd != 's' or k < k0])
            sg = r.choice([-1, 1])
            j = int(np.argmax(sg * v))
            if not o[j] or np.sum(sg * v > sg * v[j] - 0.08) > 1:
                continue
            oc['ubx' if sg > 0 else 'lbx'][i] = round(float(v[j]) - sg * 0.05, 5)
            odd['what'] = 'bound'
            return
        P = [(k, x[i], kd) for k, (st, kd, x) in pts if kd in use]
        own = [j for j, q in enumerate(P) if q[0] == k0]
        j = r.choice(own)
        dist = min((abs(q[1] - P[j][1]) for n, q in enumerate(P) if n != j), default=1.0)
        if dist < 0.02:
            continue
        sg, K, x = r.choice([-1, 1]), round(0.1 / dist ** 2, 2), float(P[j][1])
        if 'gp' not in oc:
            oc['gp'], oc['lbg'], oc['ubg'] = [], [], []
        lin = [0.0] * n_x
        lin[i] = 2 * sg * K * x
        oc['gp'].append({'k': -sg * K * x * x, 'x': lin, 'sq': [['x', i, -sg * K]]})
        oc['lbg'].append('-inf' if sg > 0 else 0.05)
        oc['ubg'].append(-0.05 if sg > 0 else INF)
        odd['what'] = 'path_' + P[j][2]
        return


def gen_case(r, real):
    for _ in range(600):
        opts = gen_opts(r, real)
        o = eff(opts)
        N = o['N_stages']
        nu, nv = pick(r, (2, 1), (2, 2)), pick(r, (2, 0), (2, 1), (1, 2))
        dims = dict(n_u=nu, n_v=nv, n_t=pick(r, (1, 0), (1, 1)), n_g=pick(r, (1, 0), (2, 1), (1, 2)))
        # one global parameter does not enter the dynamics: the target of the terminal constraint
        tgt = dims['n_g'] and r.random() < 0.5
        fam = pwc.gen_fam(r, o, dims, z=False)
        if tgt:
            k = dims['n_g'] - 1
            for row in fam['Bg']:
                row[k] = 0.0
            for e in fam['sys']:
                for row in e['Og']:
                    row[k] = 0.0
        rho = 1.0
        if o['time_freezing']:
            # a state counts physical time
            n = fam['n_x']
            fam['n_x'] = n + 1
            for e in fam['sys']:
                for row in e['C'] + e['F']:
                    row.append(0.0)
            for nm, kk in (('Bu', nu), ('Bt', dims['n_t']), ('Bg', dims['n_g']), ('Bv', nv)):
                fam[nm].append([0.0] * kk)
            fam['x0'].append(R(r, -1, 1))
            fam['z'] = []
            if o['speed_of_time_variables'] != 'SOT_NONE':
                rho = round(1 / r.uniform(1.0, 2.0), 3)
            fam['force'].append([n, rho, 0])
            fam['tphys'] = n
        case = {'fam': fam, 'opts': opts}
        F = pwc.Fam(fam)
        d = FakeD(o, fam['n_x'])
        # controls: one of them may be at its lower bound everywhere, or exactly one per stage
        lb = [R(r, -1.2, 0.0) for _ in range(nu)]
        ucomp = pick(r, (2, ''), (1, 'one')) if nu == 1 else pick(r, (2, ''), (1, 'one'), (2, 'alt'))
        vfix = [R(r, -0.8, 0.8) for _ in range(nv)]
        vt = nv > 0 and r.random() < 0.4          # v[0] carries the terminal value
        if vt:
            for row in fam['Bv']:
                row[0] = 0.0
            F = pwc.Fam(fam)
        a_T = [R(r, -1, 1) for _ in range(fam['n_x'])]
        a_tT = [R(r, -1, 1) for _ in range(dims['n_t'])]
        solves, exact = [], []
        try:
            for k in range(pick(r, (3, 1), (3, 2), (1, 3))):
                s = {}
                if k == 0:
                    s['x0'], s['pt'], s['pg'] = fam['x0'], fam['pt'], list(fam['pg'])
                else:
                    p = solves[-1]
                    s['x0'], s['pt'], s['pg'] = p['x0'], p['pt'], list(p['pg'])
                    if r.random() < 0.8:
                        ph = exact[-1][0]
                        end = [q for q in ph if q.stage == 0][-1]
                        x = pwc.at(ph, end.s1, fam['n_x'])
                        s['x0'] = [round(float(a), 6) for a in (x + (np.array([R(r, -.1, .1) for _ in x])
                                                                  if r.random() < 0.6 else 0))]
                    if r.random() < 0.5:
                        s['pt'] = [[R(r, -1, 1) for _ in row] for row in s['pt']]
                    if r.random() < 0.5:
                        s['pg'] = [round(a + r.uniform(-0.4, 0.4), 3) for a in s['pg']]
                s['u'] = [[R(r, q, q + 1.5) for q in lb] for _ in range(N)]
                for row in s['u']:
                    if ucomp == 'one':
                        row[0] = lb[0]
                    elif ucomp == 'alt':
                        i = r.randrange(2)
                        row[i] = lb[i]
                s['v'] = list(vfix)
                w = [r.uniform(0.7, 1.3) for _ in range(N)] if not o['equidistant_control_grid'] and o['use_fesd'] else [1.0] * N
                s['L'] = [o['terminal_time'] * a / sum(w) for a in w]
                if o['speed_of_time_variables'] == 'SOT_NONE':
                    s['sot'] = [1.0] * N
                elif o['time_freezing']:
                    s['sot'] = [1 / rho] * N
                elif o['speed_of_time_variables'] == 'SOT_GLOBAL':
                    s['sot'] = [R(r, max(1.0, o['speed_of_time_min']), 2.0)] * N
                else:
                    s['sot'] = [R(r, o['speed_of_time_min'], 2.0) for _ in range(N)]
                e = solution(F, d, s['x0'], data_of(o, s, N))
                xT = e[2][-1].xe
                t = float(np.dot(a_T, xT) + (np.dot(a_tT, s['pt'][-1]) if dims['n_t'] else 0.0))
                if vt:
                    s['v'][0] = t
                elif tgt:
                    s['pg'][-1] = t
                solves.append(s)
                exact.append(e)
        except NotRegular:
            continue
        if o['use_fesd'] and not any(q.event for e in exact for q in e[0]) and r.random() < 0.6:
            continue
        fam['pg'] = list(solves[0]['pg'])
        # a wrong plan, apart from a single point as good as the others
        odd = None
        if not real and (vt or not tgt) and r.random() < 0.5:
            odd = odd_plan(r, F, d, o, solves, lb, vt, a_T, a_tT, dims)
        true = exact
        if odd is not None:
            case['odd'] = odd[0]
            solves = solves + [odd[0]['s']]
            exact = exact + [odd[1]]
        # the problem around the solutions
        oc = {}
        D = dict(x=fam['n_x'], u=nu, pt=dims['n_t'], pg=dims['n_g'], v=nv)
        pts = [(k, p) for k, e in enumerate(exact) for p in points(o, d, e[1], e[2])]
        X = np.array([p[2] for _, p in pts])
        oc['lbx'] = [round(float(a) - r.uniform(0.01, 0.4), 4) if r.random() < 0.4 else '-inf' for a in X.min(axis=0)]
        oc['ubx'] = [round(float(a) + r.uniform(0.01, 0.4), 4) if r.random() < 0.4 else INF for a in X.max(axis=0)]
        U = np.array([u for s in solves for u in s['u']])
        oc['lbu'] = list(lb)
        oc['ubu'] = [round(float(a) + r.choice([0.0, 0.05, 0.3]), 4) if real or r.random() < 0.7 else INF for a in U.max(axis=0)]
        if nv:
            V = np.array([s['v'] for s in solves])
            oc['lbv_global'] = [round(float(a), 6) - r.choice([0.0, 0.3]) * (0 if vt and i == 0 else 1) - (2.0 if vt and i == 0 else 0)
                                for i, a in enumerate(V.min(axis=0))]
            oc['ubv_global'] = [round(float(a) + r.choice([0.05, 0.3]) + (2.0 if vt and i == 0 else 0), 4)
                                for i, a in enumerate(V.max(axis=0))]
            if r.random() < 0.5:
                oc['v_global_guess'] = [R(r, -0.5, 0.5) for _ in range(nv)]
        if r.random() < 0.5:
            oc['u_guess'] = [R(r, q, q + 1) for q in lb]

        def dd(k, st, x):
            s = solves[k]
            return dict(x=x, u=s['u'][st], pt=s['pt'][st], pg=s['pg'], v=s['v'])
        use = {'c'} | ({'f', 'c'} if o['g_path_at_fe'] else set()) | ({'s'} if o['g_path_at_stg'] else set())
        if r.random() < 0.6:
            oc['gp'], oc['lbg'], oc['ubg'] = [], [], []
            for _ in range(r.randint(1, 2)):
                t = expr(r, D, ['x', 'u', 'pt', 'pg', 'v'], sq=['x'] if r.random() < 0.3 else None)
                vs = [val(t, dd(k, st, x)) for k, (st, kd, x) in pts if kd in use]
                m = r.random()
                oc['gp'].append(t)
                oc['lbg'].append(round(min(vs) - r.uniform(0.01, 0.3), 5) if m < 0.7 else '-inf')
                oc['ubg'].append(round(max(vs) + r.uniform(0.01, 0.3), 5) if m > 0.35 else INF)
        if odd is not None:
            spike(r, case['odd'], oc, pts, len(true), use, fam['n_x'])
            solves = solves[:-1]
        if vt or (tgt and not vt):
            t = {'k': 0.0, 'x': a_T}
            if dims['n_t']:
                t['pt'] = a_tT
            if vt:
                t['v'] = [-1.0] + [0.0] * (nv - 1)
            else:
                t['pg'] = [0.0] * (dims['n_g'] - 1) + [-1.0]
            oc['gT'] = [t]
        comp = []
        if ucomp == 'alt':
            e = [{'k': -lb[i], 'u': [1.0 if j == i else 0.0 for j in range(nu)]} for i in range(2)]
            comp.append(e if r.random() < 0.5 else e[::-1])
        if ucomp == 'one':
            b = {'k': -lb[0], 'u': [1.0] + [0.0] * (nu - 1)}
            a = expr(r, D, ['x', 'pg'] if r.random() < 0.6 else ['pt', 'pg'])
            if all(not a.get(n) or not any(a[n]) for n in ('x', 'pt')):
                a['u'] = [0.0] * nu
            vs = [val(a, dd(k, st, x)) for k, (st, kd, x) in pts if k < len(solves)]
            a['k'] = round(a['k'] - min(vs) + r.uniform(0.2, 1.0), 4)
            comp.append([a, b] if r.random() < 0.5 else [b, a])
        ci = nv - 1
        if nv and not (vt and ci == 0) and r.random() < 0.5:
            b = {'k': -vfix[ci], 'v': [0.0] * ci + [1.0]}
            oc['lbv_global'][ci] = vfix[ci]
            a = expr(r, D, pick(r, (1, ['x', 'u']), (1, ['u', 'pt']), (1, ['pg'])))
            vs = [val(a, dd(k, st, x)) for k, (st, kd, x) in pts if k < len(solves)]
            a['k'] = round(a['k'] - min(vs) + r.uniform(0.2, 1.0), 4)
            comp.append([a, b] if r.random() < 0.5 else [b, a])
        if comp:
            oc['comp'] = comp
        if r.random() < 0.7 or real:
            oc['fq'] = expr(r, D, ['x', 'u', 'pt', 'pg', 'v'], sq=['x', 'u'])
        if r.random() < 0.7:
            oc['fT'] = expr(r, D, ['x', 'pt', 'pg', 'v'], sq=['x'])
        case['ocp'] = oc
        case['solves'] = solves
        return case
    raise HarnessError('no regular problem found')


# -- the user's problem ------------------------------------------------------------
class Traj:
    """What the user sees: controls, speeds, global variables, steps, states."""
    __slots__ = ('U', 'sot', 'v', 'h', 'xe', 'X')


def of_primal(S, w):
    d = S.d
    t = Traj()
    t.U = [w[d.U[k]] for k in range(d.N)]
    t.sot = [1.0] * d.N if d.sot == 'SOT_NONE' else [w[d.s[k if d.sot == 'SOT_LOCAL' else 0]] for k in range(d.N)]
    t.v = w[d.v] if d.n_v else np.zeros(0)
    if d.fesd:
        t.h = [w[d.h[c][f]] for c, f in fes(d)]
    else:
        t.h = [d.o['terminal_time'] / d.N / d.nfe[c] for c, f in fes(d)]
    t.xe = [w[d.Xend[c][f]] for c, f in fes(d)]
    t.X = stage_states(d, w, S.ref.x0)
    return t


def comp_kinds(oc):
    """Category of each path complementarity: stage, control stage or global."""
    out = []
    for a, b in oc.get('comp') or []:
        def dep(n):
            return any(any(q.get(n) or []) for q in (a, b))
        out.append('s' if dep('x') else 'c' if dep('u') or dep('pt') else 'g')
    return out


class User:
    """The user's problem of one solve, evaluated on a trajectory."""

    def __init__(self, case, fam, d, s):
        self.case, self.fam, self.d, self.s = case, fam, d, s
        self.o = eff(case['opts'])
        self.oc = case['ocp']

    def static(self, t):
        """[(violation, what)] without the dynamics."""
        o, oc, d, s = self.o, self.oc, self.d, self.s
        out = []

        def box(v, lo, hi, what):
            v = np.atleast_1d(np.asarray(v, dtype=float))
            lo = np.array([float(a) for a in lo])
            hi = np.array([float(a) for a in hi])
            e = np.maximum(lo - v, v - hi)
            if v.size and np.max(e) > 0:
                out.append((float(np.max(e)), f'{what} {np.round(v, 6)} not in [{lo}, {hi}]'))
            if np.isnan(v).any():
                out.append((np.inf, f'{what} is {v}'))
        T, N = o['terminal_time'], d.N
        hs = np.array(t.h, dtype=float)
        out.append((abs(float(np.sum(hs)) - T), f'step sizes add up to {np.sum(hs):.8g} instead of {T}'))
        out.append((max(0.0, -float(np.min(hs))), 'negative step size'))
        k0, ends = 0, []
        for k in range(N):
            L = float(np.sum(hs[k0:k0 + d.nfe[k]]))
            k0 += d.nfe[k]
            ends.append(k0 - 1)
            if o['equidistant_control_grid']:
                out.append((abs(L - T / N), f'control stage {k} has length {L:.8g} instead of {T / N:.8g}'))
            box(t.U[k], oc['lbu'], oc['ubu'], f'control of stage {k}')
            if d.sot != 'SOT_NONE':
                box(t.sot[k], [o['speed_of_time_min']], [o['speed_of_time_max']], f'speed of time of stage {k}')
        if d.n_v:
            box(t.v, oc['lbv_global'], oc['ubv_global'], 'v_global')
        F = fes(d)
        for i, (c, f) in enumerate(F):
            box(t.xe[i], oc['lbx'], oc['ubx'], f'state at the end of element {c},{f}')

        def at(c, x):
            return dict(x=x, u=t.U[c], pt=s['pt'][c], pg=s['pg'], v=t.v)
        for j, g in enumerate(oc.get('gp') or []):
            for i, (c, f) in enumerate(F):
                last = i in ends
                if last or o['g_path_at_fe']:
                    box(val(g, at(c, t.xe[i])), [oc['lbg'][j]], [oc['ubg'][j]], f'path constraint {j} at the end of element {c},{f}')
                if o['g_path_at_stg']:
                    for k in range(d.n_s - 1 if d.radau else d.n_s):
                        box(val(g, at(c, t.X[i][k])), [oc['lbg'][j]], [oc['ubg'][j]], f'path constraint {j} at stage {c},{f},{k}')
        for j, g in enumerate(oc.get('gT') or []):
            q = val(g, at(N - 1, t.xe[-1]))
            out.append((abs(q), f'terminal constraint {j} is {q:.8g} instead of 0'))
        for j, (kd, (a, b)) in enumerate(zip(comp_kinds(oc), oc.get('comp') or [])):
            for i, (c, f) in enumerate(F):
                if kd == 's':
                    xs = [at(c, x) for x in t.X[i]]
                elif i in ends:
                    xs = [at(c, t.xe[i])]
                else:
                    continue
                for q in xs:
                    p = val(a, q) * val(b, q)
                    out.append((p, f'path complementarity {j} in element {c},{f}: product {p:.6g}'))
        if o['time_freezing']:
            q = self.fam.q['tphys']
            for k in range(N):
                ph = t.xe[ends[k]][q] - s['x0'][q]
                e = abs(ph - T / N * (k + 1))
                out.append((max(0.0, e - o['time_freezing_tolerance']),
                            f'physical time {ph:.8g} at the end of stage {k} instead of {T / N * (k + 1):.8g}'))
        return out

    def inner(self, t):
        """Violation of the state bounds at the Runge-Kutta stages (they may or may not be imposed there)."""
        lo, hi = [np.array([float(a) for a in self.oc[k]]) for k in ('lbx', 'ubx')]
        return max(float(np.max(np.maximum(lo - x, x - hi))) for X in t.X for x in X)

    def dynamics(self, t, tol=0.0):
        """(violation, what, allowance) of the dynamics, or None if the exact solution is not clear-cut."""
        d, o = self.d, self.o
        data, i = [], 0
        for k in range(d.N):
            L = float(np.sum(t.h[i:i + d.nfe[k]]))
            i += d.nfe[k]
            sot = float(np.asarray(t.sot[k]).ravel()[0])
            if not L > 1e-3 or not sot > 1e-3:
                return None
            data.append(dict(L=L * sot, sot=sot, u=np.asarray(t.U[k], dtype=float), v=np.asarray(t.v, dtype=float),
                             pt=np.array(self.s['pt'][k], dtype=float), pg=np.array(self.s['pg'], dtype=float)))
        try:
            ph, _ = pwc.integrate(self.fam, self.s['x0'], data)
        except NotRegular:
            return None
        if seen(d, ph, data) is None:
            return None
        if not d.fesd and not self.same_modes(t, ph, data):
            return None     # plain time stepping has more solutions than the one that follows the exact trajectory
        allow = 0.0
        for k, p in enumerate(ph):
            if p.event == 'leave':
                c, _, _ = pwc.tableau(o['irk_scheme'], d.n_s)
                dt = max(0.6 * c[0], 1 - c[-1]) * (1 + o['gamma_h']) * max(t.h) * max(float(np.ravel(a)[0]) for a in t.sot)
                q = [j for j in range(len(p.sl)) if p.sl[j] is not None and ph[k + 1].sl[j] is None][0]
                a, b = p.modes(self.fam, q)
                F = self.fam.sys[q]['F']
                allow += abs(p.th[q].deriv()(p.s1)) * dt ** 2 * float(np.max(np.abs(F[a] - F[b])))
        worst, what, tau, i, times = 0.0, '', 0.0, 0, []
        for c, f in fes(d):
            tau += float(t.h[i]) * data[c]['sot']
            times.append(tau)
            e = pwc.at(ph, tau, self.fam.n_x)
            q = float(np.max(np.abs(np.asarray(t.xe[i]) - e) / (1 + np.abs(e))))
            if not q <= worst:
                worst, what = q, (f'state {np.round(np.asarray(t.xe[i], dtype=float), 6)} at the end of element {c},{f}, the '
                                  f'dynamics lead to {np.round(e, 6)}')
            i += 1
        if d.fesd:
            for p, nxt in zip(ph[:-1], ph[1:]):
                if p.event and p.event != 'leave' and p.stage == nxt.stage:
                    q = float(np.min(np.abs(np.array(times) - p.s1)))
                    if q > worst:
                        worst, what = q, f'switch ({p.event}) at scaled time {p.s1:.6g} is not on the grid'
        return worst, what, allow

    def same_modes(self, t, ph, data):
        """Are all stage values in the regions that the exact solution visits at these times?"""
        d = self.d
        cs = pwc.tableau(self.o['irk_scheme'], d.n_s)[0]

        def signs(x, pg):
            c = np.concatenate([np.ravel(self.fam.c(q, x, pg)) for q in range(len(self.fam.sys))])
            return np.where(np.abs(c) < 1e-4, 0, np.sign(c))
        tau = 0.0
        for i, (c, f) in enumerate(fes(d)):
            for k in range(d.n_s):
                e = pwc.at(ph, tau + float(cs[k] * t.h[i]) * data[c]['sot'], self.fam.n_x)
                if not np.array_equal(signs(np.asarray(t.X[i][k], dtype=float), data[c]['pg']), signs(e, data[c]['pg'])):
                    return False
            tau += float(t.h[i]) * data[c]['sot']
        return True

    def cost(self, t):
        """The user's objective by the collocation quadrature."""
        d, oc = self.d, self.oc
        _, _, b = pwc.tableau(self.o['irk_scheme'], d.n_s)
        J = 0.0
        for i, (c, f) in enumerate(fes(d)):
            if oc.get('fq'):
                q = sum(b[k] * val(oc['fq'], dict(x=t.X[i][k], u=t.U[c], pt=self.s['pt'][c], pg=self.s['pg'], v=t.v))
                        for k in range(d.n_s))
                J += t.h[i] * float(np.ravel(t.sot[c])[0]) * q
        if oc.get('fT'):
            J += val(oc['fT'], dict(x=t.xe[-1], u=t.U[-1], pt=self.s['pt'][-1], pg=self.s['pg'], v=t.v))
        return J


# -- candidates ----------------------------------------------------------------------
KINDS = ['u', 'u', 'u_small', 'v', 'sot', 'L', 'T', 'x0', 'pt', 'pg', 'u_swap', 'pt_swap', 'sot_swap', 'old', 'jump', 'jump', 'theta',
         'xend', 'u_dyn', 'v_dyn', 'sot_dyn', 'same', 'drift']

# kinds whose multipliers and stage values are those of a solution of the dynamics with the declared data
PLAN_KINDS = ('u', 'u_small', 'v', 'sot', 'L', 'T', 'same')


def candidate(kind, seed, S, case, fam, k):
    """Primal vector of a perturbed plan, or None.

    decl: what the vector declares; dyn: what its states obey."""
    r = rng_of('cand', kind, seed)
    d, o = S.d, S.o
    s = case['solves'][k]
    decl = copy.deepcopy(s)
    dyn = decl
    N = d.N

    def bump(q, n, lo=0.05, hi=0.8):
        i = r.randrange(n)
        q[i] = q[i] + r.choice([-1, 1]) * r.uniform(lo, hi)
    st = r.randrange(N)
    if kind == 'odd':
        if 'odd' not in case or case['odd']['solve'] != k:
            return None
        decl = copy.deepcopy(case['odd']['s'])
    elif kind == 'u':
        bump(decl['u'][st], d.n_u)
    elif kind == 'u_small':
        bump(decl['u'][st], d.n_u, 0.0, 0.05)
    elif kind == 'v':
        if not d.n_v:
            return None
        bump(decl['v'], d.n_v)
    elif kind == 'sot':
        if d.sot == 'SOT_NONE':
            return None
        a = r.choice([-1, 1]) * r.uniform(0.05, 0.6)
        for j in range(N):
            if d.sot == 'SOT_GLOBAL' or j == st:
                decl['sot'][j] = max(0.2, decl['sot'][j] + a)
    elif kind == 'L':
        if N < 2 or not d.fesd:
            return None
        j = (st + 1) % N
        a = r.uniform(0.05, 0.3) * min(decl['L'])
        decl['L'][st] += a
        decl['L'][j] -= a
    elif kind == 'T':
        if not d.fesd:
            return None
        f = r.choice([0.85, 0.93, 1.07, 1.15])
        for j in range(N):
            if r.random() < 0.6 or j == st:
                decl['L'][j] *= f
    elif kind == 'theta' or kind == 'same' or kind == 'jump' or kind == 'xend' or kind == 'drift':
        pass
    else:
        dyn = copy.deepcopy(s)
        if kind == 'x0':
            dyn['x0'] = list(dyn['x0'])
            bump(dyn['x0'], d.n_x)
        elif kind == 'pt':
            if not d.n_ptv:
                return None
            bump(dyn['pt'][st], d.n_ptv, 0.1)
        elif kind == 'pg':
            if not d.n_pg:
                return None
            bump(dyn['pg'], d.n_pg, 0.1)
        elif kind in ('u_swap', 'pt_swap', 'sot_swap'):
            if N < 2:
                return None
            q = {'u_swap': 'u', 'pt_swap': 'pt', 'sot_swap': 'sot'}[kind]
            j = (st + r.randint(1, N - 1)) % N
            dyn[q][st] = copy.deepcopy(dyn[q][j])
        elif kind == 'u_dyn':
            bump(dyn['u'][st], d.n_u)
        elif kind == 'v_dyn':
            if not d.n_v:
                return None
            bump(dyn['v'], d.n_v)
        elif kind == 'sot_dyn':
            dyn['sot'][st] *= r.choice([0.7, 0.85, 1.2, 1.4])
        elif kind == 'old':
            if k == 0:
                return None
            p = case['solves'][k - 1]
            q = r.choice(['x0', 'pt', 'pg', 'all'])
            for nm in ('x0', 'pt', 'pg'):
                if q in (nm, 'all'):
                    dyn[nm] = copy.deepcopy(p[nm])
    try:
        data = data_of(o, dyn, N)
        ph, grid, els = solution(fam, d, dyn['x0'], data)
    except NotRegular:
        return None
    dd = data_of(o, decl, N)
    if kind == 'jump':
        i = r.randrange(len(els))
        dx = np.zeros(d.n_x)
        dx[r.randrange(d.n_x)] = r.choice([-1, 1]) * r.uniform(0.04, 0.3)
        whole = r.random() < 0.5
        for j in range(i, len(els)):
            if j > i or whole:
                els[j].X = els[j].X + dx
            els[j].xe = els[j].xe + dx
            if j == i and d.radau:
                els[j].X = els[j].X.copy()
                els[j].X[-1] = els[j].xe
    elif kind == 'xend':
        # only the last state is wrong
        dx = np.zeros(d.n_x)
        dx[r.randrange(d.n_x)] = r.choice([-1, 1]) * r.uniform(0.04, 0.3)
        els[-1].xe = els[-1].xe + dx
        if d.radau:
            els[-1].X = els[-1].X.copy()
            els[-1].X[-1] = els[-1].xe
    elif kind == 'drift':
        # the velocity of one element is off
        i = r.randrange(len(els))
        c, A, b = pwc.tableau(o['irk_scheme'], d.n_s)
        dv = np.zeros(d.n_x)
        dv[r.randrange(d.n_x)] = r.choice([-1, 1]) * r.uniform(0.1, 0.5) / max(els[i].h, 1e-2)
        dx = els[i].h * dv
        els[i].V = els[i].V + dv
        els[i].X = els[i].X + els[i].h * np.outer(c, dv)
        els[i].xe = els[i].xe + dx
        for j in range(i + 1, len(els)):
            els[j].X = els[j].X + dx
            els[j].xe = els[j].xe + dx
    elif kind == 'theta':
        i = r.randrange(len(els))
        q = r.randrange(len(fam.sys))
        for j in range(d.n_s):
            th, al = np.array(els[i].th[j][q]), np.array(els[i].al[j][q])
            els[i].th[j][q] = np.roll(th, 1)
            els[i].al[j][q] = 1 - al
    return pwc.write(fam, d, S.b, els, dd)


class Player:
    def __init__(self, S, case, W):
        self.S, self.case, self.W = S, case, W
        self.fam = S.b['fam']
        self.o = S.o
        self.real = case['sub'] == 'real'
        self.eq = self.o['mpcc_mode'] in ('SCHOLTES_EQ', 'FISCHER_BURMEISTER')
        S.user_handler = self

    def start(self, k, plan, cands, adv):
        self.k, self.plan, self.cands, self.adv = k, plan, cands, adv
        self.i = 0
        self.w = self.accepted = self.rejected = None
        self.user = User(self.case, self.fam, self.S.d, self.case['solves'][k])

    def judge_point(self, w):
        """(must reject: text, must accept: bool) for a candidate."""
        t = of_primal(self.S, w)
        st = self.user.static(t)
        dy = self.user.dynamics(t)
        worst = max(st, key=lambda q: q[0])
        if worst[0] > BIG:
            return worst[1], False
        if dy is None:
            return None, False
        if dy[0] > BIG + dy[2]:
            return dy[1], False
        ok = worst[0] <= 1e-9 and dy[0] <= 1e-8 and self.user.inner(t) <= 1e-9
        return None, ok

    def __call__(self, S, nlp, c):
        W = self.W
        be = self.plan[self.i] if self.i < len(self.plan) else None
        self.i += 1
        sig = c.p[S.pd.sigma]
        if be is not None:
            if be.get('raise'):
                W.fault('nlp_raise_' + be['raise'])
                raise {'RuntimeError': core.InjectedError, 'KeyboardInterrupt': KeyboardInterrupt,
                       'MemoryError': MemoryError}[be['raise']]('injected')
            W.fault('nlp_' + be['k'])
            return self.bad_point(be, c), be['st'], 3, 0.01
        if self.real:
            f = None
            if self.adv is not None and 0 < sig <= self.adv['sigma']:
                g = nprng('adv', self.adv['seed'])
                f = 0
                d = S.d
                for i in flat(d.Xend[d.N - 1][d.nfe[d.N - 1] - 1]) + flat(d.U) + flat(d.v) + flat(d.s):
                    f = f + float(g.normal()) * nlp.x_sym[i]
                f = f + 0.01 * sum((nlp.x_sym[i] - c.x0[i]) ** 2 for i in range(nlp.nx) if np.isfinite(c.x0[i]))
                W.fault('adversarial_objective')
            x, st, it = nlp.solve_real(c, f=f, extra={'max_iter': 300})
            return x, st, it, 0.02
        if sig > SMALL:
            return self.bad_point({'k': 'garb', 'seed': self.i}, c), 'Solve_Succeeded' if self.i % 3 else \
                'Maximum_Iterations_Exceeded', 4, 0.01
        slack = REJECT + (3 * (S.d.n_s + 2) * sig if self.eq else 0.0)
        if self.w is None:
            good = []
            for kind, seed in self.cands:
                w = candidate(kind, seed, S, self.case, self.fam, self.k)
                if w is None:
                    continue
                bad, ok = self.judge_point(w)
                ok = ok and kind in PLAN_KINDS
                viol, what = pwc.violation(c, w, nlp)
                if bad:
                    W.probe('cand_' + kind + ('_' + self.case['odd'].get('what', 'none') if kind == 'odd' else ''))
                    if viol <= slack:
                        self.accepted = (kind, bad)
                        self.w = w
                        W.event(f'candidate {kind} {seed} accepted')
                        return w, 'Solve_Succeeded', 5, 0.01
                elif ok:
                    W.probe('good_' + kind)
                    if viol > slack:
                        self.rejected = f'{kind} {seed}: violation {viol:.3g} of {what}'
                        return w, 'Infeasible_Problem_Detected', 50, 0.05
                    good.append(w)
            w = candidate('same', 0, S, self.case, self.fam, self.k)
            if w is None:
                raise HarnessError('plan lost')
            bad, ok = self.judge_point(w)
            if bad or not ok:
                raise HarnessError(f'the plan does not satisfy the generated problem: {bad}')
            viol, what = pwc.violation(c, w, nlp)
            if viol > slack:
                self.rejected = f'violation {viol:.3g} of {what}'
                return w, 'Infeasible_Problem_Detected', 50, 0.05
            self.w = good[-1] if good else w
        viol, what = pwc.violation(c, self.w, nlp)
        if viol > slack:
            self.rejected = f'(polishing or later NLP) violation {viol:.3g} of {what} at relaxation {sig:.1e}'
            return self.w, 'Infeasible_Problem_Detected', 50, 0.05
        return self.w, 'Solve_Succeeded', 5, 0.01

    def bad_point(self, be, c):
        d = self.S.d
        if be['k'] == 'nan':
            return np.full(d.nw, np.nan)
        g = nprng('bad', be['seed'])
        w = np.where(np.isfinite(c.x0), c.x0, 0.0)
        if be['k'] != 'stall':
            w = w + 0.3 * g.normal(size=d.nw)
        for cc, f in fes(d):
            for k in range(d.n_s):
                w[flat(d.theta[cc][f][k]) + flat(d.alpha[cc][f][k])] = 0.4
            for k in range(len(d.lam[cc][f])):
                w[flat(d.lam[cc][f][k]) + flat(d.ln[cc][f][k]) + flat(d.lp[cc][f][k])] = 0.9
        return w


class C08(Check):
    id = 'C08'
    runs = {'quick': 2200, 'thorough': 40000}
    cap = {'quick': 330, 'thorough': 3600}
    real = ['nosnoc package (options, model, OCP, problem assembly, homotopy loop, polishing, result extraction)',
            'casadi symbolics and function evaluation', 'IPOPT/MUMPS in the runs with sub = real']
    stub = ['casadi.nlpsol in the runs with sub = ideal: returns any point the posed NLP accepts (trajectories violating the '
            'user\'s problem first, then solutions of it)', 'time.*: simulated clock', 'stdout: sink']
    rule = ('seeded OCP built around exactly known feasible trajectories, receding-horizon history of set/solve with injected '
            'failures; the sub-solver is an adversarial-but-honest stand-in or real IPOPT (also with adversarial objectives); '
            'non-trivial: at least one successful solve judged; distinct by (case, statuses)')
    assumptions = ['exact trajectories regular (transversal switches, none at a stage boundary), as many finite elements as segments',
                   'Gauss-Legendre: no switch behind the last collocation point of a control stage',
                   'time freezing with an equidistant control grid', 'path complementarities with user-bounded nonnegative factors']

    def gen(self, r, idx, tier):
        real = r.random() < (0.08 if tier == 'quick' else 0.12)
        case = gen_case(r, real)
        case['sub'] = 'real' if real else 'ideal'
        for s in case['solves']:
            s['att'] = []
            if r.random() < 0.3:
                s['att'].append({'plan': gen_faults(r, 40, True), 'cands': []})
            plan = gen_faults(r, r.randint(1, 3), False) if r.random() < 0.4 else []
            for be in plan:
                be.pop('raise', None)
            q = {'plan': plan, 'cands': [] if real else [[r.choice(KINDS), r.randrange(10 ** 6)] for _ in range(r.randint(2, 14))]}
            if s is case['solves'][case.get('odd', {'solve': -1})['solve']] and 'odd' in case:
                q['cands'].insert(0, ['odd', 0])
            if real and r.random() < 0.4:
                q['adv'] = {'sigma': r.choice([1e-5, 1e-7]), 'seed': r.randrange(10 ** 6)}
            s['att'].append(q)
            s['guess'] = r.randrange(10 ** 6) if r.random() < 0.3 else None
        return case

    def run(self, case, W):
        b = pwc.build_pwc(case)
        S = Session(b['spec'], W, b=b)
        pl = Player(S, case, W)
        sig, nt = [], False
        prev = dict(x0=list(case['fam']['x0']), pt=case['fam']['pt'], pg=case['fam']['pg'])
        for k, s in enumerate(case['solves']):
            sets = []
            if s['x0'] != prev['x0']:
                sets.append(('x0', np.array(s['x0'], dtype=float)))
            if S.d.n_ptv and s['pt'] != prev['pt']:
                sets.append(('p_time_var', np.array(s['pt'], dtype=float)))
            if S.d.n_pg and s['pg'] != prev['pg']:
                sets.append(('p_global', np.array(s['pg'], dtype=float)))
            if s['guess'] is not None:
                g = nprng('guess', s['guess'])
                sets.append(('u', np.round(g.normal(size=(S.d.N, S.d.n_u)), 3)))
                if S.d.n_v:
                    sets.append(('v_global', np.round(g.normal(size=S.d.n_v), 3)))
            for f, v in sets if k % 2 else sets[::-1]:
                S.set(f, v)
            prev = s
            for a in s['att']:
                pl.start(k, a['plan'], a['cands'], a.get('adv'))
                r = S.solve([])
                if r.exc is not None or r.result is None:
                    sig.append('exc')
                    continue
                st = name(r.result['status'])
                sig.append(st)
                if pl.rejected:
                    raise Violation('solution_rejected', f'solve {k}: a trajectory that solves the problem as stated is not feasible '
                                    f'for the posed NLP: {pl.rejected}')
                if st == 'SUCCESS' and r.calls[-1].status in GOOD and not (pl.plan and pl.i <= len(pl.plan)):
                    if self.judge(case, S, pl, r, k):
                        nt = True
                        W.probe('judged' + ('_real' if pl.real else ''))
        return nt, (case['fam'], case['opts'], sig)

    def judge(self, case, S, pl, r, k):
        d, o = S.d, S.o
        res, w = r.result, r.calls[-1].x
        if not comp_res(d, w, r.l00) <= 10 * o['comp_tol']:
            return False
        tol = 1e-5 if not pl.real else (1e-4 if pl.adv is None else 1e-4)
        dtol = 1e-5 if not pl.real else (1e-2 if pl.adv is None else 2e-2)
        n = len(fes(d))
        try:
            t = Traj()
            t.U = [np.ravel(np.asarray(q, dtype=float)) for q in res['u_list']]
            t.v = np.ravel(np.asarray(res['v_global'], dtype=float))
            t.h = np.asarray(res['time_steps'], dtype=float)
            t.xe = [np.asarray(q, dtype=float) for q in res['x_traj'][1:]]
            x0 = np.asarray(res['x_traj'][0], dtype=float)
            grid = np.asarray(res['t_grid'], dtype=float)
            gu = np.asarray(res['t_grid_u'], dtype=float)
            if d.sot == 'SOT_NONE':
                t.sot = [1.0] * d.N
            else:
                q = [float(np.ravel(a)[0]) for a in res['sot']]
                t.sot = q * d.N if d.sot == 'SOT_GLOBAL' else q
        except (KeyError, IndexError, TypeError) as e:
            raise Violation('result_incomplete', f'solve {k}: {type(e).__name__} {e}')
        if len(t.U) != d.N or len(t.h) != n or len(t.xe) != n or len(grid) != n + 1 or len(gu) != d.N + 1:
            raise Violation('result_shape', f'solve {k}: {len(t.U)} controls, {len(t.h)} steps, {len(t.xe)} states, {len(grid)} times')
        t.X = stage_states(d, w, x0)
        s = case['solves'][k]
        if not np.allclose(x0, s['x0'], atol=1e-12):
            raise Violation('initial_state', f'solve {k}: the trajectory starts at {x0} instead of {s["x0"]}')
        if not np.allclose(np.diff(grid), t.h, atol=1e-9) or abs(grid[0]) > 1e-12:
            raise Violation('time_grid', f'solve {k}: time grid {grid} does not match the steps {t.h}')
        ends = np.concatenate(([0], np.cumsum(d.nfe)))
        if not np.allclose(gu, grid[ends], atol=1e-9):
            raise Violation('time_grid', f'solve {k}: control grid {gu} instead of {grid[ends]}')
        note = f' [kind of trajectory: {pl.accepted[0]}]' if pl.accepted else ''
        for v, what in pl.user.static(t):
            # products of path complementarities are only as small as the final relaxation
            if v > (tol if 'complementarity' not in what else max(tol, 100 * o['comp_tol'])):
                raise Violation('constraint_violated', f'solve {k} reports SUCCESS, but {what}{note}')
        dy = pl.user.dynamics(t)
        if dy is None:
            pl.W.probe('not_regular')
        elif dy[0] > dtol + dy[2]:
            raise Violation('dynamics_violated', f'solve {k} reports SUCCESS, but {dy[1]}{note}')
        else:
            pl.W.probe('dynamics_checked')
        # cost
        if pl.adv is None:
            J = pl.user.cost(t)
            got = float(res['cost_val'])
            pure = o['rho_h'] == 0.0 or not d.fesd or \
                all(abs(h - o['terminal_time'] / d.N / d.nfe[c]) < 1e-9 for h, (c, f) in zip(t.h, fes(d)))
            if o['step_equilibration'] in ('DIRECT', 'DIRECT_COMPLEMENTARITY', 'HEURISTIC_DELTA_H_COMP'):
                pure = True
            el = d.elastic and (pl.real)
            eps = 1e-6 * (1 + abs(J))
            if got < J - eps or (pure and not el and got > J + eps):
                raise Violation('cost', f'solve {k}: reported cost {got:.9g}, the objective along the trajectory is {J:.9g}')
            pl.W.probe('cost_checked' if pure and not el else 'cost_bounded')
        return True

    def shrink(self, case):
        n = len(case['solves'])
        for k in range(n - 1, 0, -1):
            c = copy.deepcopy(case)
            del c['solves'][k:]
            yield c
        for k, s in enumerate(case['solves']):
            for i in range(len(s['att']) - 1):
                c = copy.deepcopy(case)
                del c['solves'][k]['att'][i]
                yield c
            a = s['att'][-1]
            if a['plan']:
                c = copy.deepcopy(case)
                c['solves'][k]['att'][-1]['plan'] = []
                yield c
            if len(a['cands']) > 1:
                for j in range(len(a['cands'])):
                    c = copy.deepcopy(case)
                    c['solves'][k]['att'][-1]['cands'] = [a['cands'][j]]
                    yield c
            for j in range(len(a['cands'])):
                c = copy.deepcopy(case)
                del c['solves'][k]['att'][-1]['cands'][j]
                yield c
            if s['guess'] is not None:
                c = copy.deepcopy(case)
                c['solves'][k]['guess'] = None
                yield c
        for q in ('fq', 'fT', 'comp', 'gT', 'u_guess', 'v_global_guess'):
            if case['ocp'].get(q):
                c = copy.deepcopy(case)
                del c['ocp'][q]
                yield c
        if case['ocp'].get('gp'):
            c = copy.deepcopy(case)
            for q in ('gp', 'lbg', 'ubg'):
                del c['ocp'][q]
            yield c
        for q, v in (('lbx', '-inf'), ('ubx', INF)):
            if any(a != v for a in case['ocp'][q]):
                c = copy.deepcopy(case)
                c['ocp'][q] = [v] * len(case['ocp'][q])
                yield c
        for k in list(case['opts']):
            if k in ('pss_mode', 'terminal_time', 'N_finite_elements', 'Nfe_list', 'N_stages', 'n_s', 'gamma_h', 'irk_scheme',
                     'speed_of_time_variables', 'speed_of_time_min', 'speed_of_time_max', 'time_freezing', 'equidistant_control_grid',
                     'use_fesd', 'g_path_at_fe', 'g_path_at_stg'):
                continue
            c = copy.deepcopy(case)
            del c['opts'][k]
            yield c


CHECK = C08()
