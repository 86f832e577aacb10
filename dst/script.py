"""Scripted sub-solver: iterates, statuses, durations and failures by plan."""
import numpy as np
from . import core
from .core import rng_of, nprng, GOOD, BAD, pick
from .decode import flat, fes, lambda00_ref, comp_res, path_prods

EXC = {'RuntimeError': core.InjectedError, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def base_iterate(d, seed):
    g = nprng('it', seed)
    w = np.round(g.normal(size=d.nw), 6)
    if d.fesd:
        for c, f in fes(d):
            w[d.h[c][f]] = round(float(g.uniform(0.01, 1.0)), 6)
    for i in d.s:
        w[i] = round(float(g.uniform(1.0, 3.0)), 6)
    return w, g


def comps(d):
    """Index lists of the complementarity variables: (name, c, f, k, idx)."""
    for c, f in fes(d):
        for k in range(d.n_s):
            yield 'theta', c, f, k, flat(d.theta[c][f][k])
            yield 'alpha', c, f, k, flat(d.alpha[c][f][k])
        for k in range(len(d.lam[c][f])):
            yield 'lam', c, f, k, flat(d.lam[c][f][k])
            yield 'ln', c, f, k, flat(d.ln[c][f][k])
            yield 'lp', c, f, k, flat(d.lp[c][f][k])


def converged(d, seed, l00):
    """Iterate with zero complementarity residual, theta bounded away from 0."""
    w, g = base_iterate(d, seed)
    first = True
    tiny = 1e-12
    for c, f in fes(d):
        for k in range(d.n_s):
            th, al = flat(d.theta[c][f][k]), flat(d.alpha[c][f][k])
            w[th] = np.round(g.uniform(0.1, 0.9, len(th)), 6)
            w[al] = np.round(g.uniform(0.1, 0.9, len(al)), 6)
            if (c, f) == (0, 0):
                if d.stewart:
                    L = np.concatenate(l00)
                    w[np.array(th, dtype=int)[L > tiny]] = 0.0
                else:
                    n = np.concatenate([a for a, _ in l00])
                    p = np.concatenate([q for _, q in l00])
                    A = np.array(al, dtype=int)
                    w[A[n > tiny]] = 0.0
                    w[A[p > tiny]] = 1.0
        for k in range(len(d.lam[c][f])):
            for L in (d.lam, d.ln, d.lp):
                w[flat(L[c][f][k])] = 0.0
    return w, g


def with_residual(d, seed, l00, rho):
    """Iterate whose largest complementarity product is rho, at one pair."""
    w, g = converged(d, seed, l00)
    F = fes(d)
    pos = int(g.integers(len(F)))
    c, f = F[pos]
    j = int(g.integers(d.n_s))
    a = round(float(g.uniform(0.2, 0.8)), 3)
    # choose the multiplier: own stage, or the end of the previous element
    prev = d.fesd and g.random() < 0.5
    if prev and pos == 0:
        # initial multipliers: fixed numbers, the convex multiplier takes rho / lambda00
        if d.stewart:
            L = np.concatenate(l00)
            I = np.where(L > 1e-3)[0]
            if len(I):
                i = int(g.choice(I))
                w[flat(d.theta[c][f][j])[i]] = rho / L[i]
                return w, 'l00'
        else:
            n = np.concatenate([q for q, _ in l00])
            p = np.concatenate([q for _, q in l00])
            I = np.where(np.maximum(n, p) > 1e-3)[0]
            if len(I):
                i = int(g.choice(I))
                w[flat(d.alpha[c][f][j])[i]] = rho / n[i] if n[i] > 0 else 1.0 - rho / p[i]
                return w, 'l00'
        prev = False
    if prev:
        cp, fp = F[pos - 1]
        k = len(d.lam[cp][fp]) - 1
    else:
        cp, fp = c, f
        k = int(g.integers(d.n_s)) if d.fesd else j
    ths = d.theta if d.stewart else d.alpha
    n = len(flat(ths[c][f][j]))
    i = int(g.integers(n))
    up = (not d.stewart) and g.random() < 0.5   # pair (1 - alpha, lambda_p)
    free = True
    if d.stewart:
        Z = np.concatenate(l00)
        if (c, f) == (0, 0) and d.fesd:
            I = np.where(Z <= 1e-12)[0]
            i = int(g.choice(I))
    elif (c, f) == (0, 0) and d.fesd:
        z = np.concatenate([p - q for q, p in l00])
        if abs(z[i]) > 1e-12:
            up, free = bool(z[i] < 0), False
    if free:
        for cc, ff in F:
            for jj in range(d.n_s):
                q = flat(ths[cc][ff][jj])[i]
                if (cc, ff, jj) == (c, f, j):
                    w[q] = 1 - a if up else a
                elif (cc, ff) == (0, 0) and w[q] in (0.0, 1.0):
                    pass
                else:
                    small = a * float(g.uniform(0.05, 0.5))
                    w[q] = 1 - small if up else small
    L = d.lam if d.stewart else (d.lp if up else d.ln)
    q = flat(L[cp][fp][k])[i]
    w[q] = 1.0
    M = comp_res(d, w, l00)
    w[q] = rho / M if M > 1e-9 else 0.0
    return w, ('prev' if prev else 'own') + ('-end' if k == d.n_s else '')


def regions(d, seed, l00):
    """Iterate with clear-cut active regions per element (some change, some do not)."""
    w, g = base_iterate(d, seed)
    cur = None
    for c, f in fes(d):
        if cur is None or g.random() < 0.5:
            cur = []
            for s in range(d.n_sys):
                n = d.nf[s] if d.stewart else d.nc[s]
                v = np.zeros(n)
                if d.stewart:
                    if g.random() < 0.3 and n > 1:
                        i, j = g.choice(n, 2, replace=False)
                        v[i], v[j] = 0.4, 0.6
                    else:
                        v[int(g.integers(n))] = 1.0
                else:
                    v = g.choice([0.0, 0.5, 1.0], n)
                cur.append(v)
        for k in range(d.n_s):
            for s in range(d.n_sys):
                ix = (d.theta if d.stewart else d.alpha)[c][f][k][s]
                w[ix] = cur[s]
    for nm, c, f, k, ix in comps(d):
        if nm in ('lam', 'ln', 'lp'):
            w[ix] = np.round(g.uniform(0.5, 2.0, len(ix)), 6)
    return w


def straddle(d, seed, eps, l00=None):
    """Complementarity variables around the polishing thresholds; others too."""
    w, g = base_iterate(d, seed)
    vals = [0.0, eps * 0.999, eps * 1.001, eps * 0.1, eps * 10, 1.0, 1 - eps * 0.999, 1 - eps * 1.001, 1 + eps * 0.999,
            1 + eps * 1.001, 0.5, 0.3, eps * 1e-3]
    for nm, c, f, k, ix in comps(d):
        w[ix] = g.choice(vals, len(ix))
    # everything else also near 0 / 1: must stay free
    oth = set(range(d.nw)) - {i for _, _, _, _, ix in comps(d) for i in ix}
    for i in sorted(oth):
        if g.random() < 0.5:
            w[i] = g.choice([0.0, 1.0, eps * 0.5, 1 - eps * 0.5, -0.3, -eps])
    return w


class Script:
    """Plays the plan of one solver; each solve has its own list of behaviours."""

    def __init__(self, b, d, pd, default=None):
        self.b, self.d, self.pd = b, d, pd
        self.plan = []
        self.i = 0
        self.default = default or {'k': 'res', 'm': 100.0, 'seed': 1, 'st': 'Solve_Succeeded', 'it': 7, 'dt': 0.01}
        self.kinds = []

    def start(self, plan):
        self.plan, self.i = plan, 0

    def __call__(self, nlp, c):
        W = core.WORLD
        be = self.plan[self.i] if self.i < len(self.plan) else dict(self.default, seed=self.i)
        self.i += 1
        d = self.d
        if be.get('jump'):
            W.jump(be['jump'])
        if be.get('raise') and be.get('when') != 'after':
            W.fault('nlp_raise_' + be['raise'])
            W.event(f"fault:nlp_raise_{be['raise']}")
            raise EXC[be['raise']]('injected')
        tol = self.b['o']['comp_tol']
        k = be['k']
        p0 = c.p[self.pd.p[0]]
        l00 = lambda00_ref(self.b, d, c.p[self.pd.x0], p0)
        if d.stewart:
            l00 = [np.nan_to_num(q) for q in l00]
        else:
            l00 = [tuple(np.nan_to_num(v) for v in q) for q in l00]
        if be.get('print_fail'):
            W.stdout.fail_at = W.stdout.n + be['print_fail']
            W.stdout.exc = None
        if k == 'res':
            x, where = self.target(be['seed'], l00, be['m'] * tol, c)
            W.probe('residual_' + ('below' if be['m'] < 1 else 'above') + '_tol@' + where)
        elif k == 'garbage':
            x = np.round(nprng('g', be['seed']).normal(size=d.nw) * 10 ** be.get('sc', 0), 6)
            W.fault('garbage_iterate')
        elif k == 'nan':
            x = np.full(d.nw, np.nan)
            W.fault('nan_iterate')
        elif k == 'echo':
            x = c.x0.copy()
            W.fault('no_progress')
        elif k == 'regions':
            x = regions(d, be['seed'], l00)
        elif k == 'straddle':
            x = straddle(d, be['seed'], 10 * tol)
        else:
            raise core.HarnessError(k)
        if be['st'] not in GOOD:
            W.fault('status_' + be['st'])
        elif be['st'] != 'Solve_Succeeded':
            W.probe('status_' + be['st'])
        if be.get('stall'):
            c.tag = be['stall']
            W.fault('stall')
            W.advance(be['stall'])
        if be.get('raise'):
            W.advance(be['dt'])
            W.fault('nlp_raise_' + be['raise'])
            W.event(f"fault:nlp_raise_{be['raise']}")
            raise EXC[be['raise']]('injected')
        return x, be['st'], be['it'], be['dt']


    def target(self, seed, l00, rho, c):
        """Iterate with the given complementarity residual, at an ordinary pair or at a path complementarity."""
        b, d = self.b, self.d
        if not b.get('pathc'):
            return with_residual(d, seed, l00, rho)
        g = nprng('path', seed)
        x, where = converged(d, seed, l00), 'path'
        x = x[0]
        use = g.random() < 0.5
        if not use:
            x, where = with_residual(d, seed, l00, rho)
        ctl = [d.U[k][0] for k in range(d.N)] if d.n_u else []
        ctl += [d.v[0]] if d.n_v else []
        for i in ctl:
            x[i] = 0.0
        if use:
            i = ctl[int(g.integers(len(ctl)))]
            best = None
            for sg in (1.0, -1.0):
                y = x.copy()
                t = sg * 1e-9
                for _ in range(8):      # products are t * (affine): secant iterations on their maximum
                    y[i] = t
                    m = path_prods(b, d, self.pd, y, c.p)
                    m = np.nanmax(m) if m.size and not np.all(np.isnan(m)) else 0.0
                    if not m > 0 or not np.isfinite(m):
                        break
                    t *= rho / m
                else:
                    if best is None or abs(m - rho) < best[0]:
                        best = (abs(m - rho), y)
            if best is None:
                return with_residual(d, seed, l00, rho)[0] if not d.n_u and not d.n_v else x, 'path-none'
            x = best[1]
        return x, where


def gen_behaviour(r, conv=None, raising=False, fault_rate=0.35):
    """conv: None random, True below tolerance, False above."""
    b = {'k': 'res', 'seed': r.randrange(10 ** 6), 'it': r.randrange(0, 400), 'dt': round(r.uniform(1e-4, 2.0), 6)}
    bad = r.random() < fault_rate
    b['st'] = r.choice(BAD) if bad else pick(r, (6, GOOD[0]), (1, GOOD[1]), (1, GOOD[2]), (1, GOOD[3]))
    if conv is None:
        conv = r.random() < 0.15
    if conv:
        b['m'] = r.choice([0.999, 0.9, 0.1, 0.0])
        if r.random() < 0.5:
            b['m'] = 0.999
    else:
        b['m'] = r.choice([1.001, 1.1, 3.0, 100.0, 1e4])
        q = r.random()
        if q < 0.06:
            b['k'] = 'nan'
        elif q < 0.14:
            b['k'] = 'garbage'
            b['sc'] = r.choice([-2, 0, 2])
        elif q < 0.18:
            b['k'] = 'echo'
    if r.random() < 0.05:
        b['stall'] = round(r.uniform(1, 1e4), 2)
    return b
