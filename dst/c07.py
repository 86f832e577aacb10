"""C07: a successful FESD simulation is the Filippov trajectory, switches located."""
import copy
import numpy as np
from . import core, pwc
from .base import Check, Violation, HarnessError, classify
from .core import pick, nprng, rng_of, GOOD, BAD, InjectedError
from .spec import eff, DEFAULTS
from .hist import Session, INJECTED
from .decode import fes, comp_res, flat
from .pwc import NotRegular
import nosnoc

REJECT = 1e-6       # an honest NLP solver accepts points up to this violation
SMALL = 1.5e-7       # cheats are offered once the relaxation is this small


def gen_opts(r, real=False):
    o = {}
    o['pss_mode'] = pick(r, (1, 'STEWART'), (1, 'STEP'))
    o['irk_scheme'] = pick(r, (3, 'RADAU_IIA'), (2, 'GAUSS_LEGENDRE'))
    o['n_s'] = pick(r, (2, 1), (4, 2), (2, 3), (0 if real else 1, 4))
    o['irk_representation'] = pick(r, (2, 'INTEGRAL'), (1, 'DIFFERENTIAL'), (1, 'DIFFERENTIAL_LIFT_X'))
    o['mpcc_mode'] = pick(r, (4, 'SCHOLTES_INEQ'), (2, 'SCHOLTES_EQ'), (1, 'FISCHER_BURMEISTER'), (1, 'ELASTIC_INEQ'),
                          (1, 'ELASTIC_EQ'), (1, 'ELASTIC_TWO_SIDED'))
    o['cross_comp_mode'] = pick(r, (1, 'SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA'),
                                (1, 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'))
    eq = o['mpcc_mode'] in ('SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'ELASTIC_EQ', 'ELASTIC_TWO_SIDED')
    o['step_equilibration'] = pick(r, (3, 'HEURISTIC_DELTA'), (2, 'HEURISTIC_MEAN'), (1, 'L2_RELAXED_SCALED'),
                                   (1, 'L2_RELAXED'), (1, 'DIRECT'), (0 if eq else 1, 'DIRECT_COMPLEMENTARITY'),
                                   (0 if eq else 1, 'HEURISTIC_DELTA_H_COMP'))
    o['N_finite_elements'] = pick(r, (3, 2), (3, 3), (2, 4), (0 if real else 1, 6))
    if r.random() < 0.15:
        o['Nfe_list'] = [o['N_finite_elements'] + 1]
    if r.random() < 0.2:
        o['gamma_h'] = 0.8
    o['rho_h'] = pick(r, (2, 1.0), (1, 0.1))
    o['terminal_time'] = round(r.uniform(0.3, 1.5), 3)
    o['comp_tol'] = pick(r, (2, 1e-8), (1, 1e-7))
    o['sigma_N'] = 1e-9
    o['sigma_0'] = pick(r, (3, 1.0), (1, 0.1))
    o['homotopy_update_rule'] = pick(r, (2, 'LINEAR'), (1, 'SUPERLINEAR'))
    o['initialization_strategy'] = pick(r, (2, 'ALL_XCURRENT_W0_START'), (1, 'ALL_XCURRENT_WOPT_PREV'), (1, 'EXTERNAL'))
    o['fix_active_set_fe0'] = o['pss_mode'] == 'STEWART' and r.random() < 0.15
    o['do_polishing_step'] = r.random() < 0.2 and not o['mpcc_mode'].startswith('ELASTIC')
    o['equidistant_control_grid'] = r.random() < 0.85
    return {k: v for k, v in o.items() if DEFAULTS[k] != v}


def stage_data(case, k0=0, n=None):
    """Piecewise data of the simulation: one entry per step."""
    o = eff(case['opts'])
    return [dict(L=o['terminal_time'], u=[], v=[], pt=np.array(s['pt'], dtype=float), pg=np.array(s['pg'], dtype=float))
            for s in case['steps']]


def step_phases(case, fam):
    """Exact solution of every step, and the grid-independent checks on it."""
    ph, _ = pwc.integrate(fam, case['fam']['x0'], stage_data(case))
    return [[p for p in ph if p.stage == k] for k in range(len(case['steps']))]


class FakeDec:
    pass


def grids(case, phases):
    """Do the switches of every step fit on its grid?"""
    o = eff(case['opts'])
    n = o['Nfe_list'][0] if o['Nfe_list'] else o['N_finite_elements']
    h0 = o['terminal_time'] / n
    for ph in phases:
        if pwc.allocate([p.s1 - p.s0 for p in ph], n, (1 - o['gamma_h']) * h0, (1 + o['gamma_h']) * h0) is None:
            return False
        if o['irk_scheme'] == 'GAUSS_LEGENDRE' and len(ph) > 1:
            # a switch behind the last collocation point of the step cannot be seen
            c, _, _ = pwc.tableau('GAUSS_LEGENDRE', o['n_s'])
            if ph[-1].s1 - ph[-1].s0 < (1 - c[-1]) * 2 * h0 * 1.02:
                return False
    return True


def gen_sim(r, real=False):
    for _ in range(400):
        opts = gen_opts(r, real)
        o = eff(opts)
        dims = dict(n_u=0, n_v=0, n_t=pick(r, (2, 0), (1, 1)), n_g=pick(r, (2, 0), (1, 1), (1, 2)))
        z = r.random() < 0.12
        fam = pwc.gen_fam(r, o, dims, z=z)
        if any(t[0] >= 0 for t in fam['z']):
            opts['rootfinder_for_initial_z'] = True
        case = {'fam': fam, 'opts': opts}
        steps = []
        for k in range(pick(r, (2, 1), (3, 2), (2, 3))):
            if k == 0 or r.random() < 0.6:
                pt, pg = fam['pt'][0], fam['pg']
                if k:
                    pt = [round(a + r.uniform(-0.2, 0.2), 3) for a in pt]
                    if r.random() < 0.5:
                        pg = [round(a + r.uniform(-0.3, 0.3), 3) for a in pg]
                steps.append({'pt': pt, 'pg': pg})
            else:
                steps.append(dict(steps[-1]))
        case['steps'] = steps
        try:
            ph = step_phases(case, pwc.Fam(fam))
        except NotRegular:
            continue
        if not grids(case, ph):
            continue
        if not any(len(p) > 1 for p in ph) and r.random() < 0.8:
            continue
        cz = any(t[0] >= 0 for t in fam['z']) and o['irk_scheme'] == 'GAUSS_LEGENDRE'
        case['gl_cz'] = bool(cz)
        if cz and (real or r.random() < 0.7):
            continue        # known finding: keep it to the runs that identify it
        return case
    raise HarnessError('no regular problem found')


def gen_faults(r, n, harsh):
    plan = []
    for _ in range(n):
        k = pick(r, (3, 'garb'), (1, 'nan' if harsh else 'garb'), (1, 'stall'))
        be = {'k': k, 'seed': r.randrange(10 ** 6), 'st': r.choice(BAD if r.random() < 0.8 else GOOD)}
        if r.random() < 0.15:
            be['raise'] = r.choice(['RuntimeError', 'KeyboardInterrupt', 'MemoryError'])
        plan.append(be)
    return plan


# -- cheats: trajectories that are not the Filippov solution ------------------------
CHEATS = ['late', 'late', 'skip', 'early', 'stage', 'sumT', 'x0', 'data', 'simplex', 'stick', 'negh', 'jump', 'scale_z', 'tail']


def path(fam, d, x0, tau, fe_list, pt, pg):
    """Elements from explicit per-stage configurations: fe_list of (h, [(sgn, sl, theta override)] * n_s)."""
    c, A, b = pwc.tableau(d.o['irk_scheme'], d.n_s)
    com = fam.common(dict(u=[], v=[], pt=pt, pg=pg), tau)
    out, x, t = [], np.array(x0, dtype=float), 0.0
    for h, conf in fe_list:
        e = pwc.FE()
        e.h, e.sot, e.th, e.al = h, 1.0, [], []
        R = []
        for k in range(d.n_s):
            th = [np.array(q, dtype=float) for q in conf[k][0]]
            al = [np.array(q, dtype=float) for q in conf[k][1]]
            rate = np.array([p(t + h * c[k]) for p in com])
            for s, q in enumerate(th):
                rate = rate + fam.sys[s]['F'].T @ q
                if fam.sys[s]['Q']:
                    rate[fam.iq] += sum(a * fam.extra(s, j, com.tau0)(t + h * c[k]) for j, a in enumerate(q))
            R.append(rate)
            e.th.append(th)
            e.al.append(al)
        e.V = fam.stages(x, h, np.array(R), A)
        e.x = x
        e.X = x + h * (A @ e.V)
        e.xe = x + h * (b @ e.V)
        x = e.xe
        t += h
        out.append(e)
    return out


def cheat(kind, seed, fam, d, x0, tau, phases, grid, data):
    """-> list of FE of a wrong trajectory, or None if this kind does not apply."""
    r = rng_of('cheat', kind, seed)
    c, A, b = pwc.tableau(d.o['irk_scheme'], d.n_s)
    pt, pg = data['pt'], data['pg']
    t0 = phases[0].s0
    n = len(grid)
    hs = [L for _, _, _, L in grid]
    T = sum(hs)

    def conf_at(t, shift=0.0):
        """Configuration of the exact solution at time t (relative to the step)."""
        for p in phases:
            if t0 + t <= p.s1 or p is phases[-1]:
                q = min(max(t0 + t, p.s0), p.s1)
                return p.theta(fam, q), p.alpha(fam, q)

    def exact_conf(g):
        _, p, s, L = g
        return [(p.theta(fam, s + L * a), p.alpha(fam, s + L * a)) for a in c]
    if kind in ('late', 'tail'):
        # the grid ignores the switches; every stage takes the mode of its time
        if len(phases) < 2:
            return None
        h0 = T / n
        w = np.array([r.uniform(0.5, 1.5) for _ in range(n)]) if r.random() < 0.5 else np.ones(n)
        if kind == 'tail':
            # a switch just behind the last stage of an element, or just before the first of the next
            ev = phases[r.randrange(len(phases) - 1)].s1 - t0
            i = r.randrange(1, n) if n > 1 else 0
            w = np.concatenate((np.full(i, 1.0), np.full(n - i, 1.0)))
            c1 = c[0] if r.random() < 0.5 else None
            if i == 0:
                return None
            off = r.uniform(0.2, 0.8)
            # element i-1 ends a little behind the switch (GL) or element i starts a little before it
            if d.o['irk_scheme'] == 'GAUSS_LEGENDRE' and r.random() < 0.5:
                h_prev = ev / (i - 1 + c[-1] + (1 - c[-1]) * off)
                hh = [h_prev] * i
            else:
                q = c[0] * off
                if c[0] >= 1.0:
                    q = off * 0.9
                # i*h + q*h' = ev, i*h + (n-i)*h' = T
                hp = (T - ev) / (n - i - q)
                h = (T - (n - i) * hp) / i
                hh = [h] * i
            rest = (T - sum(hh)) / (n - i)
            hh = hh + [rest] * (n - i)
            if min(hh) <= 0 or max(hh) > (1 + d.o['gamma_h']) * h0 or min(hh) < (1 - d.o['gamma_h']) * h0:
                return None
        else:
            hh = list(w / w.sum() * T)
        out, t = [], 0.0
        for h in hh:
            out.append((h, [conf_at(t + h * a) for a in c]))
            t += h
        return path(fam, d, x0, tau, out, pt, pg)
    if kind == 'skip':
        if len(phases) < 2:
            return None
        p = phases[r.randrange(len(phases) - 1)]
        out = []
        for g in grid:
            if g[2] < p.s1 - 1e-9:
                out.append((g[3], exact_conf(g)))
            else:
                q = p.s1
                out.append((g[3], [(p.theta(fam, q), p.alpha(fam, q))] * d.n_s))
        return path(fam, d, x0, tau, out, pt, pg)
    if kind == 'early':
        if len(phases) < 2:
            return None
        i = [k for k in range(1, n) if grid[k][1] is not grid[k - 1][1]]
        if not i:
            return None
        k = r.choice(i)
        hh = list(hs)
        f = r.uniform(0.3, 0.7) * r.choice([-1, 1])
        m = f * hh[k - 1] if f < 0 else f * hh[k]
        hh[k - 1] += m
        hh[k] -= m
        return path(fam, d, x0, tau, [(h, exact_conf(g)) for h, g in zip(hh, grid)], pt, pg)
    if kind == 'stage':
        # one stage (or one element) in another mode
        k, j, s = r.randrange(n), r.randrange(d.n_s), r.randrange(len(fam.sys))
        out = [(g[3], exact_conf(g)) for g in grid]
        e = fam.sys[s]
        sg = [r.choice([-1, 1]) for _ in range(e['n_c'])]
        th = np.zeros(len(e['F']))
        th[fam.mode_of(s, sg)] = 1.0
        al = np.array([(a + 1) / 2 for a in sg], dtype=float)
        conf = [(list(a), list(q)) for a, q in out[k][1]]
        for jj in ([j] if r.random() < 0.5 else range(d.n_s)):
            conf[jj][0][s], conf[jj][1][s] = th, al
        out[k] = (out[k][0], conf)
        return path(fam, d, x0, tau, out, pt, pg)
    if kind == 'sumT':
        f = r.choice([0.85, 0.93, 1.07, 1.2])
        # the last phase lasts longer or shorter
        last = [k for k in range(n) if grid[k][1] is phases[-1]]
        hh = list(hs)
        for k in last:
            hh[k] += (f - 1) * T / len(last)
        if min(hh) <= 0:
            return None
        return path(fam, d, x0, tau, [(h, exact_conf(g)) for h, g in zip(hh, grid)], pt, pg)
    if kind == 'x0':
        dx = np.zeros(len(x0))
        dx[r.randrange(len(x0))] = r.choice([-1, 1]) * r.uniform(0.03, 0.5)
        return path(fam, d, x0 + dx, tau, [(g[3], exact_conf(g)) for g in grid], pt, pg)
    if kind == 'data':
        q = [pt, pg]
        i = [k for k in (0, 1) if len(q[k])]
        if not i:
            return None
        i = r.choice(i)
        q[i] = np.array(q[i]) + r.choice([-1, 1]) * r.uniform(0.2, 0.6)
        try:
            dd = dict(L=T, u=[], v=[], pt=q[0], pg=q[1])
            if i == 1 or len(phases) == 1:
                ph, _ = pwc.integrate(fam, x0, [dd])
            else:
                ph, _ = pwc.integrate(fam, x0, [dd], sgn0=(phases[0].sgn, phases[0].sl))
            g2 = pwc.make_grid(d, ph, [dd])
        except NotRegular:
            return None
        return pwc.elements(fam, d, x0, g2, [dd]) if g2 else None
    if kind in ('simplex', 'stick'):
        s = r.randrange(len(fam.sys))
        e = fam.sys[s]
        k = r.randrange(e['n_c'])
        if kind == 'stick':
            p = [q for q in phases[:-1] if q.event == 'cross']
            if not p:
                return None
            p = r.choice(p)
            nxt = phases[phases.index(p) + 1]
            ch = [(a, i) for a in range(len(fam.sys)) for i in range(fam.sys[a]['n_c']) if p.sgn[a][i] != nxt.sgn[a][i]]
            s, k = ch[0]
            sg = [list(q) for q in p.sgn]
            sg[s][k] = 0
            sl = list(p.sl)
            sl[s] = k
            com = [q for q in fam.common(dict(u=[], v=[], pt=pt, pg=pg), tau)]
            com = [q.convert(domain=[-1, 1]) for q in com]
            try:
                th, _ = pwc.config(fam, sg, sl, fam.common(dict(u=[], v=[], pt=pt, pg=pg), tau - t0))
            except NotRegular:
                return None
            ph = pwc.Phase()
            ph.sgn, ph.sl, ph.th = sg, sl, th
            out = []
            for g in grid:
                if g[2] < p.s1 - 1e-9:
                    out.append((g[3], exact_conf(g)))
                else:
                    out.append((g[3], [(ph.theta(fam, g[2] + g[3] * a), ph.alpha(fam, g[2] + g[3] * a)) for a in c]))
            return path(fam, d, x0, tau, out, pt, pg)
        out = [(g[3], exact_conf(g)) for g in grid]
        j = r.randrange(n)
        conf = [(list(a), list(q)) for a, q in out[j][1]]
        a = r.uniform(0.1, 0.5)
        m = r.random()
        for jj in range(d.n_s):
            th, al = np.array(conf[jj][0][s]), np.array(conf[jj][1][s])
            i = int(np.argmax(th))
            if m < 0.5:
                th[i] += a
                th[(i + 1) % len(th)] -= a
            else:
                th[i] -= a
            al[k] = al[k] + a if al[k] > 0.5 else al[k] - a
            if not d.stewart:
                # what the step representation makes of these multipliers
                th = np.array([np.prod([0.5 * (1 - S) + S * q for S, q in zip(row, al) if S]) for row in e['S']])
            conf[jj][0][s], conf[jj][1][s] = th, al
        out[j] = (out[j][0], conf)
        return path(fam, d, x0, tau, out, pt, pg)
    if kind == 'negh':
        if n < 2:
            return None
        hh = list(hs)
        k = r.randrange(n)
        hh[k] = -r.uniform(0.05, 0.3) * T
        m = [j for j in range(n) if j != k and grid[j][1] is phases[-1]] or [j for j in range(n) if j != k]
        for j in m:
            hh[j] += (T - sum(hh)) / len(m)
        return path(fam, d, x0, tau, [(h, exact_conf(g)) for h, g in zip(hh, grid)], pt, pg)
    if kind == 'jump':
        els = pwc.elements(fam, d, x0, grid, [data])
        k = r.randrange(n)
        i = r.randrange(len(x0))
        dx = np.zeros(len(x0))
        dx[i] = r.choice([-1, 1]) * r.uniform(0.03, 0.3)
        where = r.random()
        for j in range(k, n):
            if j > k or where < 0.5:
                els[j].X = els[j].X + dx
            els[j].x = els[j].x + (dx if j > k else 0)
            els[j].xe = els[j].xe + dx
            if j == k and d.radau:
                els[j].X = els[j].X.copy()
                els[j].X[-1] = els[j].xe
        return els
    if kind == 'scale_z':
        if not d.n_z:
            return None
        els = pwc.elements(fam, d, x0, grid, [data])
        return els
    raise HarnessError(kind)


class Player:
    """The sub-solver of one simulation."""
    reject = REJECT
    tol_ideal = 1e-6
    tol_real = 6e-3

    def __init__(self, S, case, W):
        self.S, self.case, self.W = S, case, W
        self.fam = S.b['fam']
        self.phases = self.phases_of(case)
        self.step = 0
        self.plan, self.i = [], 0
        self.cheats = []
        self.rejected = None
        self.real = case['sub'] == 'real'
        self.adv = None
        self.o = S.o
        eq = self.o['mpcc_mode'] in ('SCHOLTES_EQ', 'FISCHER_BURMEISTER')
        self.eq = eq
        S.user_handler = self

    def phases_of(self, case):
        return step_phases(case, self.fam)

    def start(self, step, plan, cheats, adv=None):
        self.step, self.plan, self.i, self.cheats, self.adv = step, plan, 0, cheats, adv
        self.rejected = None
        self.x0 = self.S.ref.x0.copy()
        st = self.case['steps'][step]
        self.data = dict(L=self.o['terminal_time'], u=[], v=[], pt=np.array(st['pt'], dtype=float),
                         pg=np.array(st['pg'], dtype=float))
        self.ws = None

    def exact(self):
        """Primal vectors of the exact solution and of the wrong ones."""
        if self.ws is None:
            S, fam, d = self.S, self.fam, self.S.d
            ph = self.phases[self.step]
            sub = []
            for p in ph:
                q = pwc.Phase()
                for k in p.__slots__:
                    setattr(q, k, getattr(p, k))
                q.stage = 0
                sub.append(q)
            grid = pwc.make_grid(d, sub, [self.data])
            if grid is None:
                raise HarnessError('exact solution does not fit the grid')
            els = pwc.elements(fam, d, self.x0, grid, [self.data])
            xe = pwc.at(ph, ph[-1].s1, d.n_x)
            if np.max(np.abs(els[-1].xe - xe)) > 1e-7:
                raise HarnessError(f'embedding is not exact: {els[-1].xe} {xe}')
            w = pwc.write(fam, d, S.b, els, [self.data])
            bad = []
            for kind, seed in self.cheats:
                tau = self.x0[fam.clock] if fam.clock is not None else 0.0
                e = cheat(kind, seed, fam, d, self.x0, tau, sub, grid, self.data)
                if e is None:
                    continue
                v = pwc.write(fam, d, S.b, e, [self.data])
                r = rng_of('lam', seed)
                if kind == 'scale_z':
                    v[flat(d.z)] += 0.3
                    if not any(t[0] >= 0 for t in fam.q['z']):
                        continue        # not visible in the trajectory
                if r.random() < 0.4:
                    self.fit(v)
                if not self.wrong(v, sub):
                    continue
                bad.append((kind, seed, v))
            self.ws = (w, bad)
        return self.ws

    def fit(self, w):
        """Multipliers chosen to satisfy the complementarities, whatever the switching functions say."""
        d = self.S.d
        for c, f in fes(d):
            if d.stewart:
                on = np.max([np.abs(w[flat(d.theta[c][f][k])]) for k in range(d.n_s)], axis=0) > 1e-9
                for q in d.lam[c][f]:
                    w[np.array(flat(q))[on]] = 0.0
            else:
                al = np.array([w[flat(d.alpha[c][f][k])] for k in range(d.n_s)])
                on, off = np.max(al, axis=0) > 1e-9, np.min(al, axis=0) < 1 - 1e-9
                for q in d.ln[c][f]:
                    w[np.array(flat(q))[on]] = 0.0
                for q in d.lp[c][f]:
                    w[np.array(flat(q))[off]] = 0.0

    def wrong(self, w, sub):
        """Is the trajectory in w clearly not the Filippov solution?"""
        d = self.S.d
        h = np.array([w[d.h[c][f]] for c, f in fes(d)])
        if np.min(h) < -1e-3:
            return True
        return self.compare(np.cumsum(h), [w[d.Xend[c][f]] for c, f in fes(d)], 0.02) is not None

    def compare(self, t, xs, tol):
        """First deviation from the exact solution of the current step: grid times t, states xs."""
        ph = self.phases[self.step]
        n, T = self.S.d.n_x, self.o['terminal_time']
        if abs(t[-1] - T) > tol:
            return f'step sizes add up to {t[-1]:.6g} instead of {T}'
        tol0 = tol
        # leaving a sliding mode when its multiplier reaches zero: the collocation conditions locate this only
        # up to a fraction of the element, which is an error of second order in the state
        for k, p in enumerate(ph):
            if p.event == 'leave':
                c, _, _ = pwc.tableau(self.o['irk_scheme'], self.S.d.n_s)
                n_e = len(fes(self.S.d))
                dt = max(0.6 * c[0], 1 - c[-1]) * (1 + self.o['gamma_h']) * T / n_e
                s = [i for i in range(len(p.sl)) if p.sl[i] is not None and ph[k + 1].sl[i] is None][0]
                a, b = p.modes(self.fam, s)
                F = self.fam.sys[s]['F']
                tol = tol + abs(p.th[s].deriv()(p.s1)) * dt ** 2 * float(np.max(np.abs(F[a] - F[b])))
        for a, x in zip(t, xs):
            e = pwc.at(ph, ph[0].s0 + min(max(a, 0.0), T), n)
            if not np.all(np.abs(np.asarray(x) - e) <= tol * (1 + np.abs(e))):
                return f'state {np.round(np.asarray(x), 6)} at time {a:.6g} of step {self.step}, Filippov solution is {np.round(e, 6)}'
        for p in ph[:-1]:
            if p.event == 'leave':
                continue
            te = p.s1 - ph[0].s0
            if np.min(np.abs(np.array(t) - te)) > (tol0 if tol == tol0 else 3 * tol):
                return f'switch ({p.event}) at time {te:.6g} of step {self.step} is not on the grid {np.round(t, 5)}'
        return None

    def __call__(self, S, nlp, c):
        W = self.W
        be = self.plan[self.i] if self.i < len(self.plan) else None
        self.i += 1
        sig = c.p[S.pd.sigma]
        if be is not None:
            if be.get('raise'):
                W.fault('nlp_raise_' + be['raise'])
                raise {'RuntimeError': InjectedError, 'KeyboardInterrupt': KeyboardInterrupt,
                       'MemoryError': MemoryError}[be['raise']]('injected')
            W.fault('nlp_' + be['k'])
            return self.bad_point(be, c), be['st'], 3, 0.01
        if self.real:
            f = None
            if self.adv is not None and sig <= self.adv['sigma']:
                g = nprng('adv', self.adv['seed'])
                e = 0
                d = S.d
                X = d.Xend[d.N - 1][d.nfe[d.N - 1] - 1]
                for i in X:
                    e = e + float(g.normal()) * nlp.x_sym[i]
                for i in flat(d.h):
                    if g.random() < 0.5:
                        e = e + 0.3 * float(g.normal()) * nlp.x_sym[i]
                f = e + 0.01 * sum((nlp.x_sym[i] - c.x0[i]) ** 2 for i in range(nlp.nx) if np.isfinite(c.x0[i]))
                W.fault('adversarial_objective')
            x, st, it = nlp.solve_real(c, f=f, extra={'max_iter': 300})
            return x, st, it, 0.02
        if self.eq and sig > SMALL:
            return self.bad_point({'k': 'garb', 'seed': self.i}, c), 'Maximum_Iterations_Exceeded', 3, 0.01
        w, bad = self.exact()
        slack = self.reject + (3 * (S.d.n_s + 2) * sig if self.eq else 0.0)
        if sig <= 1e-6 or not self.eq:
            for kind, seed, v in bad:
                if sig > SMALL:
                    continue
                W.probe('cheat_' + kind)
                viol, what = pwc.violation(c, v, nlp)
                if viol <= slack:
                    W.event(f'cheat {kind} {seed} accepted')
                    self.accepted = kind
                    return v, 'Solve_Succeeded', 5, 0.01
                if viol < 1e-4:
                    W.probe('cheat_close_call')
        viol, what = pwc.violation(c, w, nlp)
        if sig > SMALL and not self.eq and self.cheats:
            # let the homotopy go on until the relaxation is small
            return self.bad_point({'k': 'garb', 'seed': self.i}, c), 'Solve_Succeeded', 5, 0.01
        if viol <= slack:
            return w, 'Solve_Succeeded', 5, 0.01
        self.rejected = f'violation {viol:.3g} of {what} at relaxation {sig:.1e}'
        return w, 'Infeasible_Problem_Detected', 50, 0.05

    def bad_point(self, be, c):
        g = nprng('bad', be['seed'])
        if be['k'] == 'nan':
            return np.full(self.S.d.nw, np.nan)
        d = self.S.d
        w = np.where(np.isfinite(c.x0), c.x0, 0.0)
        if be['k'] == 'stall':
            w = w.copy()
        else:
            w = w + 0.3 * g.normal(size=d.nw)
        for cc, f in fes(d):        # products away from zero: the homotopy goes on
            for k in range(d.n_s):
                w[flat(d.theta[cc][f][k]) + flat(d.alpha[cc][f][k])] = 0.4
            for k in range(len(d.lam[cc][f])):
                w[flat(d.lam[cc][f][k]) + flat(d.ln[cc][f][k]) + flat(d.lp[cc][f][k])] = 0.9
        return w


def judge(pl, r_status, w, l00, t, xs, what):
    """A solve ended with SUCCESS: is it the Filippov solution?"""
    S, o = pl.S, pl.o
    res = comp_res(S.d, w, l00)
    if pl.real and not res <= 10 * o['comp_tol']:
        return False
    tol = pl.tol_ideal if not pl.real else (pl.tol_real if pl.adv is None else 2e-2)
    m = pl.compare(t, xs, tol)
    if m:
        k = getattr(pl, 'accepted', None)
        raise Violation('not_filippov', f'{what} reports SUCCESS (complementarity residual {res:.1e}), but {m}'
                        + (f' [feasible for the posed NLP; kind of wrong trajectory: {k}]' if k else ''))
    return True


def name(s):
    return getattr(s, 'name', str(s))


class C07(Check):
    id = 'C07'
    runs = {'quick': 2600, 'thorough': 40000}
    cap = {'quick': 330, 'thorough': 3600}
    real = ['nosnoc package (options, model, problem assembly, homotopy loop, polishing, result extraction, simulation looper)',
            'casadi symbolics, function evaluation and rootfinder', 'IPOPT/MUMPS in the runs with sub = real']
    stub = ['casadi.nlpsol in the runs with sub = ideal: returns any point the posed NLP accepts '
            '(wrong trajectories first, then the exact solution)', 'time.*: simulated clock', 'stdout: sink']
    rule = ('seeded piecewise-smooth system with an exactly known Filippov solution, options, data changes and fault plans; the '
            'sub-solver is either an honest-but-adversarial stand-in offering wrong and exact trajectories to the posed NLP, or '
            'real IPOPT (also with adversarial objectives) after injected failures; non-trivial: at least one successful step '
            'compared; distinct by (case, statuses)')
    assumptions = ['Filippov solution unique, transversal, switches at least 0.02 apart; as many finite elements as segments',
                   'Gauss-Legendre: no switch behind the last collocation point of a step',
                   'DIRECT_COMPLEMENTARITY / HEURISTIC_DELTA_H_COMP only with one-sided relaxations']

    def gen(self, r, idx, tier):
        real = r.random() < (0.25 if tier == 'quick' else 0.3)
        case = gen_sim(r, real)
        case['sub'] = 'real' if real else 'ideal'
        case['loop'] = r.random() < 0.35 and all(s['pt'] == case['steps'][0]['pt'] for s in case['steps'])
        o = eff(case['opts'])
        att = []
        for k in range(len(case['steps'])):
            a = []
            if not case['loop'] and r.random() < 0.35:
                a.append({'plan': gen_faults(r, 40, True), 'cheats': []})        # an attempt that fails for good
            plan = gen_faults(r, r.randint(0, 3) if r.random() < 0.5 else 0, False)
            for be in plan:
                be.pop('raise', None)
            ch = [] if real or case['gl_cz'] else [[r.choice(CHEATS), r.randrange(10 ** 6)] for _ in range(r.randint(0, 10))]
            q = {'plan': plan, 'cheats': ch}
            if real and r.random() < 0.4:
                q['adv'] = {'sigma': r.choice([1e-5, 1e-7]), 'seed': r.randrange(10 ** 6)}
            a.append(q)
            att.append(a)
        case['att'] = att
        case['stop'] = r.random() < 0.3
        return case

    def build(self, case, W):
        return pwc.build_pwc(case)

    player = Player

    def run(self, case, W):
        b = self.build(case, W)
        S = Session(b['spec'], W, b=b)
        pl = self.player(S, case, W)
        return self.loop(case, W, S, pl) if case['loop'] else self.direct(case, W, S, pl)

    def direct(self, case, W, S, pl):
        d = S.d
        x = np.array(case['fam']['x0'], dtype=float)
        sig, nt = [], False
        for k, st in enumerate(case['steps']):
            if k:
                S.set('x0', x)
            if d.n_ptv and st['pt'] != case['steps'][k - 1 if k else 0]['pt']:
                S.set('p_time_var', np.array([st['pt']]))
            if d.n_pg and st['pg'] != case['steps'][k - 1 if k else 0]['pg']:
                S.set('p_global', np.array(st['pg']))
            done = False
            for a in case['att'][k]:
                pl.start(k, a['plan'], a['cheats'], a.get('adv'))
                r = S.solve([])
                if r.exc is not None or r.result is None:
                    sig.append('exc')
                    continue
                s = name(r.result['status'])
                sig.append(s)
                if s == 'SUCCESS' and r.calls[-1].status in GOOD and not (pl.plan and pl.i <= len(pl.plan)):
                    w = r.calls[-1].x
                    t = np.asarray(r.result['t_grid'], dtype=float)
                    if len(t) != len(fes(d)) + 1:
                        raise Violation('grid', f'{len(t)} grid points for {len(fes(d))} finite elements')
                    if judge(pl, s, w, r.l00, t[1:], r.result['x_list'], f'step {k}'):
                        done = nt = True
                        W.probe('step_ok' + ('_real' if pl.real else ''))
                        W.probe('events', len(pl.phases[k]) - 1)
                        self.step_done(case, pl, k, r.result)
                        x = np.array(r.result['x_out'], dtype=float)
            if not done:
                self.not_done(case, pl, k)
                break
        return nt, (case['fam'], case['opts'], sig)

    def step_done(self, case, pl, k, result):
        """Further checks on a step that agrees with the exact solution."""

    def not_done(self, case, pl, k):
        if pl.rejected:
            raise Violation('well_posed_step_rejected',
                            f'step {k}: the exact solution is not feasible for the posed NLP: {pl.rejected}')
        if not pl.real:
            raise HarnessError('ideal run neither succeeded nor was rejected')
        pl.W.probe('real_not_solved')

    def loop(self, case, W, S, pl):
        d, solver = S.d, S.solver
        N = len(case['steps'])
        pv = np.array([s['pg'] for s in case['steps']], dtype=float) if d.n_pg else None
        steps = []
        inner = solver.solve

        def solve():
            k = len(steps)
            if k >= N:
                raise Violation('too_many_steps', f'step {k + 1} of {N}')
            S.ref.x0 = np.array(solver.problem.model.x0, dtype=float).copy()
            if pv is not None:
                S.ref.set('p_global', pv[k])
            a = case['att'][k][-1]
            pl.start(k, a['plan'], a['cheats'], a.get('adv'))
            steps.append(None)
            n0 = len(W.calls)
            R = inner()
            steps[k] = (R, W.calls[n0:], S.ref.l00(), pl.rejected, getattr(pl, 'accepted', None))
            if name(R['status']) != 'SUCCESS' and not pl.real and pl.rejected:
                self.not_done(case, pl, k)
            return R
        solver.solve = solve
        try:
            L = nosnoc.NosnocSimLooper(solver, np.array(case['fam']['x0'], dtype=float), N, p_values=pv)
            L.run(stop_on_failure=case['stop'])
            res = L.get_results()
        except BaseException as e:
            classify(e, 'the simulation loop')
        finally:
            del solver.solve
        X, t = np.asarray(res['X_sim'], dtype=float), np.asarray(res['t_grid'], dtype=float)
        n, nt, sig = len(fes(d)), False, []
        if X.shape[0] != len(steps) * n + 1 or t.shape[0] != X.shape[0]:
            raise Violation('grid', f'{X.shape[0]} states and {t.shape[0]} times recorded for {len(steps)} steps')
        for k, (R, calls, l00, rej, acc) in enumerate(steps):
            s = name(R['status'])
            sig.append(s)
            if s != 'SUCCESS' or calls[-1].status not in GOOD:
                break
            pl.step, pl.adv, pl.accepted = k, case['att'][k][-1].get('adv'), acc
            tt = t[k * n + 1:(k + 1) * n + 1] - k * pl.o['terminal_time']
            if not judge(pl, s, calls[-1].x, l00, tt, X[k * n + 1:(k + 1) * n + 1], f'simulation, step {k},'):
                break
            nt = True
            W.probe('step_ok' + ('_real' if pl.real else ''))
            W.probe('events', len(pl.phases[k]) - 1)
        return nt, (case['fam'], case['opts'], sig)

    def shrink(self, case):
        n = len(case['steps'])
        if n > 1:
            for k in range(n - 1, 0, -1):
                c = copy.deepcopy(case)
                del c['steps'][k:], c['att'][k:]
                yield c
        for k, a in enumerate(case['att']):
            for i in range(len(a) - 1):
                c = copy.deepcopy(case)
                del c['att'][k][i]
                yield c
            for i, q in enumerate(a):
                if q['plan'] and i == len(a) - 1:
                    c = copy.deepcopy(case)
                    c['att'][k][i]['plan'] = []
                    yield c
                for j in range(len(q['cheats'])):
                    c = copy.deepcopy(case)
                    del c['att'][k][i]['cheats'][j]
                    yield c
                if q.get('adv'):
                    c = copy.deepcopy(case)
                    del c['att'][k][i]['adv']
                    yield c
        if case['loop']:
            c = copy.deepcopy(case)
            c['loop'] = False
            yield c
        for k in list(case['opts']):
            if k in ('pss_mode', 'terminal_time', 'N_finite_elements', 'Nfe_list', 'rootfinder_for_initial_z', 'n_s', 'gamma_h',
                     'irk_scheme'):
                continue
            c = copy.deepcopy(case)
            del c['opts'][k]
            if k == 'mpcc_mode' or k == 'sigma_N':
                pass
            yield c


CHECK = C07()
