"""C14: the smoothed initialisation is a consistent guess from the data in force, and tends to the model."""
import numpy as np
from . import pwc
from .base import Violation, HarnessError
from .core import pick
from .c07 import C07, Player, CHEATS, gen_opts, gen_faults, step_phases, grids, name
from .decode import fes, flat
from .hist import Session
from .spec import eff
from .pwc import NotRegular, Fam


class P14(Player):
    first = True
    checked = 0

    def phases_of(self, case):
        return [] if case['sub'] == 'guess' else super().phases_of(case)

    def start(self, step, plan, cheats, adv=None):
        super().start(step, plan, cheats, adv)
        self.first = True

    def __call__(self, S, nlp, c):
        if self.first:
            self.first = False
            self.guess(c.x0)
            self.checked += 1
        return super().__call__(S, nlp, c)

    def guess(self, w):
        """The first initial guess of a solve."""
        S, d, o, fam, W = self.S, self.S.d, self.o, self.fam, self.W
        x0, pt, pg = self.x0, self.data['pt'], self.data['pg']
        sg = o['smoothing_parameter']
        at = f'step {self.step}, initial guess with smoothing parameter {sg:g}: '
        n = len(fes(d))
        dt = o['terminal_time'] / n
        cs, _, _ = pwc.tableau(o['irk_scheme'], d.n_s)
        mine = flat(d.Xend) + flat(d.X) + flat(d.theta) + flat(d.lam) + flat(d.mu)
        if not np.all(np.isfinite(w)):
            bad = int(np.where(~np.isfinite(w))[0][0])
            raise Violation('guess_not_finite', at + f'entry {S.nlp.x_names[bad]} is {w[bad]}')
        rest = np.ones(len(w), dtype=bool)
        rest[mine] = False
        if not np.array_equal(w[rest], S.ref.w0[rest]):
            i = np.where(rest & (w != S.ref.w0))[0][0]
            raise Violation('guess_overwrites', at + f'entry {S.nlp.x_names[i]} is {w[i]} instead of {S.ref.w0[i]}')
        tau0 = x0[fam.clock] if fam.clock is not None else 0.0
        com = fam.common(dict(u=[], v=[], pt=pt, pg=pg), tau0)
        # RK4 integrates cubic polynomials exactly, no bound for the others
        free = np.array([len(np.trim_zeros(p.convert().coef, 'b')) > 4 for p in com])
        com = [p.integ() for p in com]
        lo = sum(np.min(e['F'], axis=0) for e in fam.sys)
        hi = sum(np.max(e['F'], axis=0) for e in fam.sys)
        x, t = np.asarray(x0, dtype=float), 0.0
        steady = self.steady(x0, pt, pg, 12 * sg + 1e-6)
        for i, (c, f) in enumerate(fes(d)):
            for k in range(d.n_s):
                if d.X[c][f]:
                    y = w[d.X[c][f][k]]
                elif k == d.n_s - 1:
                    y = w[d.Xend[c][f]]
                else:
                    y = None
                tk = dt * (i + cs[k])
                th = [w[q] for q in d.theta[c][f][k]]
                for s, q in enumerate(th):
                    if np.min(q) < -1e-9 or abs(np.sum(q) - 1) > 1e-9:
                        raise Violation('guess_simplex', at + f'theta of subsystem {s} at stage {c},{f},{k} is {q}')
                if steady is not None:
                    e = np.array([p(tk) for p in steady[0]])
                    if y is not None and not np.all(np.abs(y - e) <= 1e-6 * (1 + np.abs(e))):
                        raise Violation('guess_dynamics', at + f'state {y} at stage {c},{f},{k}; the region of the initial state leads '
                                        f'to {e}, with all switching functions far away from zero')
                    W.probe('guess_steady')
                    y = e if y is None else y
                    for s, q in enumerate(th):
                        r = np.zeros(len(q))
                        r[fam.mode_of(s, steady[1][s])] = 1.0
                        if np.max(np.abs(q - r)) > 1e-6:
                            raise Violation('guess_theta', at + f'theta of subsystem {s} at stage {c},{f},{k} is {q} instead of {r}, with '
                                            'all switching functions far away from zero')
                if y is None:
                    continue
                # whatever the smoothing: a convex combination of the vector fields
                j = np.array([p(tk) - p(t) for p in com])
                a, b = x + j + (tk - t) * lo, x + j + (tk - t) * hi
                if not np.all(free | (y >= a - 1e-6) & (y <= b + 1e-6)):
                    raise Violation('guess_dynamics', at + f'state {y} at stage {c},{f},{k} is not reachable from {x} (between {a} and {b})')
                x, t = y, tk
                W.probe('guess_stage')
                for s, e in enumerate(fam.sys):
                    g = -e['S'] @ fam.c(s, y, pg)
                    lam, mu = w[d.lam[c][f][k][s]], w[d.mu[c][f][k][s]]
                    if np.max(np.abs(lam - (g - g.min()))) > 1e-6:
                        raise Violation('guess_lambda', at + f'lambda of subsystem {s} at stage {c},{f},{k} is {lam} instead of '
                                        f'{g - g.min()} (state {y})')
                    if abs(float(np.ravel(mu)[0]) + g.min()) > len(g) * sg + 1e-6:
                        raise Violation('guess_mu', at + f'mu of subsystem {s} at stage {c},{f},{k} is {mu}, further than n*smoothing from '
                                        f'{-g.min()} (state {y})')
                    cv = np.abs(fam.c(s, y, pg))
                    if np.min(cv) > 12 * sg + 1e-6:
                        r = np.zeros(len(g))
                        r[fam.mode_of(s, [1 if a > 0 else -1 for a in fam.c(s, y, pg)])] = 1.0
                        W.probe('guess_theta_exact')
                        if np.max(np.abs(th[s] - r)) > 1e-6:
                            raise Violation('guess_theta', at + f'theta of subsystem {s} at stage {c},{f},{k} is {th[s]} instead of {r} at '
                                            f'a distance {np.min(cv):.3g} from the surfaces')

    def steady(self, x0, pt, pg, margin):
        """Polynomials of the solution if it stays far away from all surfaces over the whole step, else None."""
        fam, T = self.fam, self.o['terminal_time']
        sgn = []
        for s in range(len(fam.sys)):
            cv = fam.c(s, x0, pg)
            if np.min(np.abs(cv)) < margin:
                return None
            sgn.append([1 if a > 0 else -1 for a in cv])
        com = fam.common(dict(u=[], v=[], pt=pt, pg=pg), x0[fam.clock] if fam.clock is not None else 0.0)
        _, rate = pwc.config(fam, sgn, [None] * len(sgn), com)
        if any(len(np.trim_zeros(r.convert().coef, 'b')) > 4 for r in rate):
            return None         # not exact with RK4
        xp = [r.integ() + float(a) for r, a in zip(rate, x0)]
        for t in np.linspace(0, T, 60):
            x = np.array([p(t) for p in xp])
            for s in range(len(fam.sys)):
                cv = fam.c(s, x, pg)
                if np.any(np.sign(cv) != sgn[s]) or np.min(np.abs(cv)) < margin + 0.02:
                    return None
        return xp, sgn


class C14(C07):
    id = 'C14'
    runs = {'quick': 1800, 'thorough': 25000}
    cap = {'quick': 300, 'thorough': 3000}
    player = P14
    rule = ('seeded piecewise-smooth system simulated with the RK4_SMOOTHENED initialisation, smoothing parameters 1e-4..10, data changes '
            'and fault plans (failed and interrupted solves before); the first NLP of every solve is checked against the exact '
            'solution off the surfaces and against bounds that hold for every smoothing; non-trivial: at least one successful step '
            'compared, or (models with zeros in S, where every solve fails) one guess checked; distinct by (case, statuses)')
    assumptions = ['Stewart reformulation with c and S, Radau IIA, one control stage, no algebraic variables (as documented in the code)']

    def gen(self, r, idx, tier):
        for _ in range(400):
            case = self.gen1(r, idx, tier)
            if case is not None:
                return case
        raise HarnessError('no regular problem found')

    def gen_guess(self, r):
        """Regions given by some of the switching functions only: just the guesses, every solve fails."""
        opts = gen_opts(r)
        for k in ('irk_scheme', 'pss_mode', 'fix_active_set_fe0'):
            opts.pop(k, None)
        opts['initialization_strategy'] = 'RK4_SMOOTHENED'
        opts['smoothing_parameter'] = r.choice([1e-4, 1e-3, 1e-2, 0.1, 1.0])
        fam = pwc.gen_fam(r, eff(opts), dict(n_u=0, n_v=0, n_t=pick(r, (2, 0), (1, 1)), n_g=pick(r, (1, 0), (1, 1))))
        fam['mode'], fam['z'] = 'cS', []
        fam['force'] = [[i, k, min(m, 3)] for i, k, m in fam['force']]
        if not any(s['n_c'] > 1 for s in fam['sys']):
            return None
        for s in fam['sys']:
            if s['n_c'] > 1:
                s['S'] = 'tree'
                s['F'] = s['F'][:s['n_c'] + 1]
                s['Q'] = None
        steps = []
        for k in range(r.randint(1, 4)):
            big = r.random() < 0.6
            steps.append({'pt': [round(a + r.uniform(-0.2, 0.2), 3) for a in fam['pt'][0]] if fam['pt'] else [],
                          'pg': [round(a + r.uniform(-0.3, 0.3), 3) for a in fam['pg']],
                          'x0': [round(a + (r.choice([-4, 4]) if big else r.uniform(-1, 1)), 3) for a in fam['x0']]})
        att = [[{'plan': gen_faults(r, 40, True), 'cheats': []}] for _ in steps]
        return {'fam': fam, 'opts': opts, 'steps': steps, 'gl_cz': False, 'sub': 'guess', 'loop': False, 'att': att, 'stop': False}

    def run(self, case, W):
        if case['sub'] != 'guess':
            return super().run(case, W)
        b = self.build(case, W)
        S = Session(b['spec'], W, b=b)
        pl = self.player(S, case, W)
        sig = []
        for k, st in enumerate(case['steps']):
            S.set('x0', np.array(st['x0'], dtype=float))
            if S.d.n_ptv:
                S.set('p_time_var', np.array([st['pt']]))
            if S.d.n_pg:
                S.set('p_global', np.array(st['pg']))
            a = case['att'][k][0]
            pl.start(k, a['plan'], a['cheats'])
            r = S.solve([])
            sig.append('exc' if r.exc is not None or r.result is None else name(r.result['status']))
        W.probe('guess_sparse', pl.checked)
        return pl.checked > 0, (case['fam'], case['opts'], case['steps'], sig)

    def gen1(self, r, idx, tier):
        if r.random() < 0.15:
            return self.gen_guess(r)
        real = r.random() < 0.12
        opts = gen_opts(r, real)
        opts.pop('irk_scheme', None)
        opts.pop('pss_mode', None)
        opts.pop('fix_active_set_fe0', None)    # (pins entries of the guess, see C01)
        if real:
            opts.pop('n_s', None)
        opts['initialization_strategy'] = 'RK4_SMOOTHENED'
        sg = pick(r, (2, 1e-4), (2, 1e-3), (2, 1e-2), (1, 0.1), (1, 1.0), (1, 10.0), (1, 3e-5))
        if sg != 10.0:
            opts['smoothing_parameter'] = sg
        o = eff(opts)
        fam = pwc.gen_fam(r, o, dict(n_u=0, n_v=0, n_t=pick(r, (2, 0), (1, 1)), n_g=pick(r, (1, 0), (1, 1))))
        fam['mode'] = 'cS'
        fam['z'] = []
        if r.random() < 0.5:        # far away from the surfaces
            k = r.randrange(len(fam['sys']))
            fam['sys'][k]['o'] = [a + r.choice([-3, 3]) for a in fam['sys'][k]['o']]
        if r.random() < 0.85:
            fam['force'] = [[i, k, min(m, 3)] for i, k, m in fam['force']]
        steps = []
        for k in range(pick(r, (1, 1), (3, 2), (2, 3))):
            pt, pg = fam['pt'][0], fam['pg']
            if k and r.random() < 0.6:
                pt = [round(a + r.uniform(-0.2, 0.2), 3) for a in pt]
                if r.random() < 0.5:
                    pg = [round(a + r.uniform(-0.3, 0.3), 3) for a in pg]
            steps.append({'pt': pt, 'pg': pg})
        case = {'fam': fam, 'opts': opts, 'steps': steps, 'gl_cz': False}
        try:
            ph = step_phases(case, Fam(fam))
        except NotRegular:
            return None
        if not grids(case, ph):
            return None
        case['sub'] = 'real' if real else 'ideal'
        case['loop'] = r.random() < 0.3 and all(s['pt'] == steps[0]['pt'] for s in steps)
        att = []
        for k in range(len(steps)):
            a = []
            if not case['loop'] and r.random() < 0.4:
                a.append({'plan': gen_faults(r, 40, True), 'cheats': []})
            plan = gen_faults(r, r.randint(0, 3) if r.random() < 0.5 else 0, False)
            for be in plan:
                be.pop('raise', None)
            ch = [] if real else [[r.choice(CHEATS), r.randrange(10 ** 6)] for _ in range(r.randint(0, 2))]
            a.append({'plan': plan, 'cheats': ch})
            att.append(a)
        case['att'] = att
        case['stop'] = r.random() < 0.3
        return case

    def shrink(self, case):
        for c in super().shrink(case):
            if c['opts'].get('initialization_strategy') == 'RK4_SMOOTHENED':
                yield c


CHECK = C14()
