"""C15: every posed NLP is the configured relaxation of the user's problem."""
import copy
import numpy as np
import casadi as ca
from .base import Check, Violation
from .core import pick, nprng
from .spec import gen_spec, build, eff
from .decode import flat, fes, steps, comp_terms, stage_states
from .hist import Session, gen_sets, gen_plan, limit, shrink_case, apply_op, REAL, STUB
from .pwc import tableau


class Ref15:
    """Objective, complementarity constraints and bounds of the posed NLP, from the documentation of the options."""

    def __init__(self, S):
        self.S, self.b, self.d, self.pd, self.o = S, S.b, S.d, S.pd, S.o
        b, names = S.b, S.nlp.p_names
        self.tau = names.index('tau') if 'tau' in names else S.pd.sigma + 1
        oc = b['ocp']
        z = ca.SX(0)
        a = [b['x'], b['u'], b['ptv'], b['pg'], b['v']]
        self.q = ca.Function('q', a, [b['user_fq'] if oc is not None else z])
        self.T = ca.Function('T', a, [b['user_fT'] if oc is not None else z])
        self.gz = ca.Function('gz', [b['x'], b['z'], b['u'], b['pg']], [b['gz']]) if S.d.n_z else None
        self.gp = ca.Function('gp', a, [b['user_gp']]) if oc is not None and b['user_gp'].shape[0] else None
        self.gT = ca.Function('gT', a, [b['user_gT']]) if oc is not None and b['user_gT'].shape[0] else None

    def l00(self, p):
        pd = self.pd
        if self.d.stewart:
            return [p[q] for q in pd.l00]
        return [(p[a], p[q]) for a, q in zip(pd.l00n, pd.l00p)]

    def par(self, p, c):
        q = p[self.pd.p[c]]
        return q[:self.d.n_ptv], q[self.d.n_ptv:]

    def sums(self, terms):
        out = []
        for Th, La, prev in terms:
            out.append((sum(Th), sum(La) + prev))
        return out

    # -- complementarities: groups (list of x, y) ------------------------------------
    def groups(self, w, p):
        d, o, b = self.d, self.o, self.b
        terms = comp_terms(d, w, self.l00(p))
        X = stage_states(d, w, p[self.pd.x0])
        v = w[d.v]
        out = []

        def path(kd, x, c):
            q, g = self.par(p, c)
            for k, f in b['pathab']:
                if k == kd:
                    ab = f(x, w[d.U[c]] if kd != 'g' else np.zeros(d.n_u), q, g, v).full().flatten()
                    out.append(('path_' + kd, [ab[:1]], ab[1:]))
        h = steps(d, w)
        S = self.sums(terms)
        eqs = []
        for k, (c, f) in enumerate(fes(d)):
            Th, La, prev = terms[k]
            for x in X[k]:
                path('s', x, c)
            if f == d.nfe[c] - 1:
                path('c', np.zeros(d.n_x), c)
            for j in range(d.n_s):
                if not d.fesd:
                    out.append(('stage', [La[j]], Th[j]))
                elif o['cross_comp_mode'].startswith('COMPLEMENT_ALL'):
                    for L in [prev] + La:
                        out.append(('cross', [Th[j]], L))
                else:
                    out.append(('cross', [prev] + La, Th[j]))
            if d.fesd and f > 0:
                dh = h[k] - h[k - 1]
                nu = float(np.prod(S[k - 1][1] * S[k][1] + S[k - 1][0] * S[k][0]))
                m = o['step_equilibration']
                if m == 'DIRECT':
                    eqs.append(('direct', nu * dh, abs(nu * dh)))
                elif m == 'DIRECT_COMPLEMENTARITY':
                    out.append(('equilibration', [np.array([nu])], np.array([dh])))
                elif m == 'HEURISTIC_DELTA_H_COMP':
                    out.append(('equilibration', [np.zeros(1)], np.array([dh])))
        path('g', np.zeros(d.n_x), 0)
        return out, eqs

    def rows(self, w, p):
        """(what, 'eq' | 'le', value, scale) with value == 0 or value <= 0."""
        o, mode = self.o, self.o['mpcc_mode']
        sig, tau = p[self.pd.sigma], p[self.tau]
        s = w[self.d.el[0]] if self.d.el else 0.0
        G, eqs = self.groups(w, p)
        out = [(a, 'eq', v, sc) for a, v, sc in eqs]
        for what, xs, y in G:
            prod = sum(x * y for x in xs)
            sc = sum(abs(x * y) for x in xs) + abs(sig) + abs(s)
            for i in range(len(y)):
                if mode == 'BOOLEAN':
                    x, M, t = sum(q[i] for q in xs), 1e5, self.bool
                    out += [(what, 'le', a - M * b, M) for a, b in ((y[i], t), (-y[i], t), (x, 1 - t), (-x, 1 - t))]
                elif mode.startswith('SCHOLTES'):
                    out.append((what, 'eq' if mode.endswith('_EQ') else 'le', prod[i] - sig, sc[i]))
                elif mode == 'ELASTIC_TWO_SIDED':
                    out += [(what, 'le', prod[i] - s, sc[i]), (what, 'le', -prod[i] - s, sc[i])]
                elif mode.startswith('ELASTIC'):
                    out.append((what, 'eq' if mode.endswith('_EQ') else 'le', prod[i] - s, sc[i]))
                else:
                    fb = sum(x[i] + y[i] - np.sqrt(x[i] ** 2 + y[i] ** 2 + sig ** 2) for x in xs)
                    fs = sum(abs(x[i]) + abs(y[i]) + sig for x in xs)
                    out.append((what, 'eq', fb, fs))
                    if mode == 'FISCHER_BURMEISTER_IP_AUG':
                        x = xs[0][i]
                        a1, a2 = o['fb_ip_aug1_weight'], o['fb_ip_aug2_weight']
                        out += [(what, 'eq', a1 * (x - sig) * np.sqrt(tau), fs), (what, 'eq', a1 * (y[i] - sig) * np.sqrt(tau), fs),
                                (what, 'eq', a2 * fb * np.sqrt(1 + (x - y[i]) ** 2), fs * (1 + abs(x - y[i])))]
        return out

    def user(self, w, p):
        """Rows of path constraints, terminal constraints and control grid."""
        d, o, P = self.d, self.o, self.b['passed']
        X = stage_states(d, w, p[self.pd.x0])
        v, out = w[d.v], []
        if self.gp is not None:
            for i, (c, f) in enumerate(fes(d)):
                q, g = self.par(p, c)
                at = []
                if f == d.nfe[c] - 1 or o['g_path_at_fe']:
                    at.append(w[d.Xend[c][f]])
                if o['g_path_at_stg']:
                    at += [X[i][k] for k in range(d.n_s - 1 if d.radau else d.n_s)]
                for x in at:
                    y = self.gp(x, w[d.U[c]], q, g, v).full().ravel()
                    for a, lo, hi in zip(y, P['lbg'], P['ubg']):
                        if lo == hi:
                            out.append((f'path constraint {c},{f}', 'eq', a - hi, abs(a) + abs(hi)))
                            continue
                        if np.isfinite(hi):
                            out.append((f'path constraint {c},{f}', 'le', a - hi, abs(a) + abs(hi)))
                        if np.isfinite(lo):
                            out.append((f'path constraint {c},{f}', 'le', lo - a, abs(a) + abs(lo)))
        if self.gT is not None:
            q, g = self.par(p, d.N - 1)
            for a in self.gT(w[d.Xend[-1][-1]], w[d.U[-1]], q, g, v).full().ravel():
                out.append(('terminal constraint', 'eq', a, abs(a)))
        T = o['terminal_time']
        if d.fesd:
            if o['equidistant_control_grid']:
                for c in range(d.N):
                    h = w[[d.h[c][f] for f in range(d.nfe[c])]]
                    out.append((f'length of control stage {c}', 'eq', sum(h) - T / d.N, sum(abs(h)) + T))
            else:
                h = w[flat(d.h)]
                out.append(('terminal time', 'eq', sum(h) - T, sum(abs(h)) + T))
        if o['time_freezing'] and o['equidistant_control_grid']:
            tol = o['time_freezing_tolerance']
            for c in range(d.N):
                t = w[d.Xend[c][-1][-1]] - p[self.pd.x0][-1] - T / d.N * (c + 1)
                out += [(f'physical time {c}', 'le', t - tol, abs(t)), (f'physical time {c}', 'le', -t - tol, abs(t))]
        return out

    def dynamics(self, w, p):
        """Rows of the collocation equations and of the switching system."""
        d, o, b = self.d, self.o, self.b
        _, A, bw = tableau(o['irk_scheme'], d.n_s)[:3]
        Ai = np.linalg.inv(A)
        X = stage_states(d, w, p[self.pd.x0])
        h, v = steps(d, w), w[d.v]
        xp = p[self.pd.x0]
        out = []

        def add(what, val, sc):
            out.extend((what, 'eq', a, s) for a, s in zip(np.ravel(val), np.ravel(sc)))

        def switch(c, f, k, x, z, q, g):
            y = b['user_sw'](x, z, g).full().ravel()
            i = 0
            for s in range(d.n_sys):
                n = d.nf[s] if d.stewart else d.nc[s]
                ys, i = y[i:i + n], i + n
                if d.stewart:
                    l, mu = w[d.lam[c][f][k][s]], w[d.mu[c][f][k][s]]
                    add(f'switching {c},{f},{k}', ys - l + mu, abs(ys) + abs(l) + abs(mu))
                else:
                    ln, lp = w[d.ln[c][f][k][s]], w[d.lp[c][f][k][s]]
                    add(f'switching {c},{f},{k}', ys - lp + ln, abs(ys) + abs(lp) + abs(ln))
        for i, (c, f) in enumerate(fes(d)):
            q, g = self.par(p, c)
            u = w[d.U[c]]
            sot = w[d.s[0]] if d.sot == 'SOT_GLOBAL' else w[d.s[c]] if d.sot == 'SOT_LOCAL' else 1.0
            F = []
            for k in range(d.n_s):
                m = w[flat((d.theta if d.stewart else d.alpha)[c][f][k])]
                z = w[d.z[c][f][k]] if d.n_z else np.zeros(0)
                F.append(sot * b['user_f'](X[i][k], z, u, q, g, v, m).full().ravel())
                switch(c, f, k, X[i][k], z, q, g)
                if d.stewart:
                    for s in range(d.n_sys):
                        t = w[d.theta[c][f][k][s]]
                        add(f'convexity {c},{f},{k}', sum(t) - 1, 1 + sum(abs(t)))
                if d.n_z:
                    y = self.gz(X[i][k], z, u, g).full().ravel()
                    add(f'algebraic {c},{f},{k}', y, 1 + abs(y))
            F, Xs = np.array(F), np.array(X[i])
            xe = w[d.Xend[c][f]]
            size = 10 * (1 + np.max(np.abs(Xs)) + np.max(np.abs(F)) * abs(h[i]))
            if d.rep == 'INTEGRAL':
                add(f'dynamics {c},{f}', h[i] * F - Ai @ (Xs - xp), np.full(F.shape, size * np.max(np.abs(Ai))))
                if not d.radau:
                    e = xp + (bw @ Ai) @ (Xs - xp) - xe
                    add(f'continuity {c},{f}', e, np.full(e.shape, size * np.max(np.abs(bw @ Ai))))
            else:
                V = np.array([w[q_] for q_ in d.V[c][f]])
                add(f'dynamics {c},{f}', F - V, abs(F) + abs(V))
                if d.rep == 'DIFFERENTIAL_LIFT_X':
                    add(f'lifting {c},{f}', Xs - xp - h[i] * (A @ V), np.full(F.shape, size + 10 * np.max(np.abs(V))))
                if not (d.radau and d.rep == 'DIFFERENTIAL_LIFT_X'):
                    e = xp + h[i] * (bw @ V) - xe
                    add(f'continuity {c},{f}', e, np.full(e.shape, size + 10 * np.max(np.abs(V))))
            if d.fesd and not d.radau and f < d.nfe[c] - 1:
                switch(c, f, -1, xe, w[d.z[c][f][-1]] if d.n_z else np.zeros(0), q, g)
            xp = xe
        return out

    def booleans(self, w, p, c):
        """w with the same value in all binary variables, which are those that are not otherwise known."""
        d = self.d
        known = set(flat([d.v, d.s, d.el, d.U, d.X, d.Xend, d.V, d.z, d.theta, d.lam, d.mu, d.alpha, d.ln, d.lp]) + (flat(d.h) if d.fesd else []))
        rest = [i for i in range(len(w)) if i not in known]
        n = sum(len(y) for _, _, y in self.groups(w, p)[0])
        if len(rest) != n:
            raise Violation('binaries', f'{len(rest)} binary variables for {n} complementarities')
        if any(c.lbx[i] != 0 or c.ubx[i] != 1 for i in rest):
            raise Violation('binaries', 'a binary variable is not bounded by 0 and 1')
        self.bool = round(0.1 + 0.8 * (abs(w[0]) % 1), 2)
        w = w.copy()
        w[rest] = self.bool
        return w

    def consistent(self, w, p):
        """w with the explicit end of every element moved to where the collocation puts it."""
        d = self.d
        if not (d.radau and d.rep == 'DIFFERENTIAL'):
            return w
        w = w.copy()
        bw = tableau(self.o['irk_scheme'], d.n_s)[2]
        x = p[self.pd.x0]
        for (c, f), h in zip(fes(d), steps(d, w)):
            x = x + h * (bw @ np.array([w[q] for q in d.V[c][f]]))
            w[d.Xend[c][f]] = x
        return w

    # -- objective ---------------------------------------------------------------------
    def cost(self, w, p):
        """(value, sum of absolute values of the terms) without least squares."""
        d, o = self.d, self.o
        bw = tableau(o['irk_scheme'], d.n_s)[2]
        X = stage_states(d, w, p[self.pd.x0])
        h = steps(d, w)
        v = w[d.v]
        t = []
        for k, (c, f) in enumerate(fes(d)):
            q, g = self.par(p, c)
            sot = w[d.s[0]] if d.sot == 'SOT_GLOBAL' else w[d.s[c]] if d.sot == 'SOT_LOCAL' else 1.0
            t += [bw[j] * h[k] * sot * float(self.q(X[k][j], w[d.U[c]], q, g, v)) for j in range(d.n_s)]
        q, g = self.par(p, d.N - 1)
        t.append(float(self.T(w[d.Xend[-1][-1]], np.zeros(d.n_u), q, g, v)))
        if d.fesd:
            S = self.sums(comp_terms(d, w, self.l00(p)))
            m, rho = o['step_equilibration'], o['rho_h']
            for k, (c, f) in enumerate(fes(d)):
                if m == 'HEURISTIC_MEAN':
                    t.append(rho * (h[k] - o['terminal_time'] / d.N / d.nfe[c]) ** 2)
                if f == 0:
                    continue
                dh = h[k] - h[k - 1]
                nu = float(np.prod(S[k - 1][1] * S[k][1] + S[k - 1][0] * S[k][0]))
                if m == 'HEURISTIC_DELTA':
                    t.append(rho * dh ** 2)
                elif m == 'L2_RELAXED':
                    t.append(rho * nu * dh ** 2)
                elif m == 'L2_RELAXED_SCALED':
                    t.append(rho * np.tanh(nu / o['step_equilibration_sigma']) * dh ** 2)
        f, a = sum(t), sum(abs(q) for q in t)
        if d.el:
            s, sig = w[d.el[0]], p[self.pd.sigma]
            if o['objective_scaling_direct']:
                if sig == 0:
                    return None, None
                return f + s / sig, a + abs(s / sig)
            return sig * f + s, sig * a + abs(s)
        return f, a

    # -- bounds and default guesses ----------------------------------------------------------
    def bounds(self):
        """Index -> (lower, upper, guess); None where nothing is claimed."""
        d, o, b = self.d, self.o, self.b
        inf = np.inf
        out = {}

        def put(ix, lo, hi, g=None):
            for i, q in enumerate(ix):
                out[q] = tuple(None if a is None else float(np.ravel(a)[i]) if np.ndim(a) else a for a in (lo, hi, g))
        ocp, P = b['ocp'], b['passed']

        def bd(k, n, dflt):
            return P[k] if k in P else dflt * np.ones(n)
        lx, ux = bd('lbx', d.n_x, -inf), bd('ubx', d.n_x, inf)
        put(d.v, bd('lbv_global', d.n_v, -inf), bd('ubv_global', d.n_v, inf), bd('v_global_guess', d.n_v, 0.0))
        for q in d.s:
            put([q], o['speed_of_time_min'], o['speed_of_time_max'], 1.0)
        if d.el:
            put(d.el, o['s_elastic_min'], o['s_elastic_max'], o['s_elastic_0'])
        fb = o['mpcc_mode'].startswith('FISCHER')
        lo = None if fb else 0.0
        for c in range(d.N):
            put(d.U[c], bd('lbu', d.n_u, -inf), bd('ubu', d.n_u, inf), bd('u_guess', d.n_u, 0.0))
            for f in range(d.nfe[c]):
                if d.fesd:
                    h0 = o['terminal_time'] / d.N / d.nfe[c]
                    put([d.h[c][f]], (1 - o['gamma_h']) * h0, (1 + o['gamma_h']) * h0, h0)
                for x in d.X[c][f] + [d.Xend[c][f]]:
                    put(x, lx, ux)
                for q in d.V[c][f]:
                    put(q, -inf, inf)
                for q in d.z[c][f]:
                    put(q, bd('lbz', d.n_z, -inf), bd('ubz', d.n_z, inf), bd('z0', d.n_z, 0.0))
                put(flat(d.mu[c][f]), -inf, inf)
                put(flat(d.lam[c][f]) + flat(d.ln[c][f]) + flat(d.lp[c][f]), lo, inf)
                put(flat(d.theta[c][f]), lo, None)
                put(flat(d.alpha[c][f]), lo, 1.0)
        return out


def missing(rows, g, lb, ub):
    """First reference row that is not among the posed constraints, or posed constraint that is not in the reference."""
    eq = lb == ub
    pool = {'eq': np.abs(g - lb)[eq], 'le': np.concatenate(((g - ub)[~eq & np.isfinite(ub)], (lb - g)[~eq & np.isfinite(lb)]))}
    pool = {k: np.sort(v) for k, v in pool.items()}
    used = {k: np.zeros(len(v), dtype=bool) for k, v in pool.items()}
    for what, kind, val, sc in sorted(rows, key=lambda q: abs(q[2]) if q[1] == 'eq' else q[2]):
        v = abs(val) if kind == 'eq' else val
        tol = 1e-9 * (1 + sc)
        i = int(np.searchsorted(pool[kind], v - tol))
        while i < len(pool[kind]) and used[kind][i]:
            i += 1
        if i >= len(pool[kind]) or pool[kind][i] > v + tol:
            near = pool[kind][np.argmin(np.abs(pool[kind] - v))] if len(pool[kind]) else None
            return what, kind, val, near
        used[kind][i] = True
    for kind in pool:
        rest = pool[kind][~used[kind]]
        if len(rest):
            return None, kind, float(rest[0]), None
    return None


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


class C15(Check):
    id = 'C15'
    runs = {'quick': 3000, 'thorough': 60000}
    cap = {'quick': 300, 'thorough': 3600}
    real, stub = REAL, STUB
    rule = ('seeded problem + options + history of set/solve under a scripted sub-solver; the objective, all constraints and '
            'the bounds of every posed NLP are compared with a reference at the iterates and at random points; non-trivial: at '
            'least one NLP compared; distinct by (spec, ops)')
    assumptions = ['constraints may be posed in any order and with either sign']

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=r.random() < 0.7)
        o = spec['opts']
        if r.random() < 0.4:
            o['step_equilibration_sigma'] = pick(r, (1, 1.0), (1, 0.03))
        if r.random() < 0.4:
            o['rho_h'] = round(r.uniform(0.01, 20), 3)
        if r.random() < 0.3:
            o['gamma_h'] = round(r.uniform(0.1, 1), 2)
        if o['mpcc_mode'].startswith('ELASTIC') and r.random() < 0.5:
            o['s_elastic_min'], o['s_elastic_max'] = round(r.uniform(0, 0.2), 3), round(r.uniform(2, 30), 2)
        if o['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG' and r.random() < 0.6:
            o['fb_ip_aug1_weight'], o['fb_ip_aug2_weight'] = round(r.uniform(0.1, 3), 2), round(r.uniform(0.01, 2), 3)
        if o.get('speed_of_time_variables', 'SOT_NONE') != 'SOT_NONE' and r.random() < 0.5:
            o['speed_of_time_min'] = round(r.uniform(0.1, 0.9), 2)
        if r.random() < 0.06 and o.get('constraint_handling') != 'LEAST_SQUARES':
            o['mpcc_mode'] = 'BOOLEAN'
        if spec.get('ocp') and r.random() < 0.6:
            spec['ocp']['rich'] = r.randint(1, 2)
        o['max_iter_homotopy'] = r.randint(1, 3)
        ops = []
        for _ in range(r.randint(1, 2)):
            gen_sets(r, spec, ops, r.randint(0, 2))
            ops.append({'op': 'solve', 'plan': gen_plan(r, r.randint(1, 3))})
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        spec = case['spec']
        S = Session(spec, W)
        R = Ref15(S)
        twin = None
        if S.o['constraint_handling'] == 'LEAST_SQUARES':
            s2 = copy.deepcopy(spec)
            s2['opts']['constraint_handling'] = 'EXACT'
            old = W.sessions[S.who]
            twin = Session(s2, W).nlp
            W.sessions[S.who] = old
            W.handler = lambda nlp, c: W.sessions[c.who]._handler(nlp, c)
        self.guess(S, R)
        n = 0
        for i, op in enumerate(case['ops']):
            r = apply_op(S, op)
            if r is None:
                continue
            for c in r.calls:
                self.bounds(S, R, r, c)
                if c.k - r.calls[0].k < 2 or c.p[S.pd.sigma] == 0.0:
                    g = nprng('c15', spec['cs'], i, c.k)
                    for w in (np.round(g.normal(0.4, 0.8, S.d.nw), 3), c.x):
                        if w is not None and np.all(np.isfinite(w)) and np.max(np.abs(w), initial=0) < 1e3:
                            self.nlp(S, R, c, np.array(w, dtype=float), twin)
                            n += 1
        for k in ('mpcc_mode', 'step_equilibration', 'cross_comp_mode'):
            W.probe(S.o[k])
        return n > 0, (spec, case['ops'])

    def nlp(self, S, R, c, w, twin):
        p, o = np.array(c.p, dtype=float), S.o
        if not np.all(np.isfinite(p)):
            return
        f, g = S.nlp.fun(w, p)
        lb, ub = np.ravel(c.lbg), np.ravel(c.ubg)
        want, sc = R.cost(w, p)
        if twin is not None:
            f2, g = twin.fun(w, p)
            extra = float(np.sum(g ** 2))
            lb = ub = np.zeros(len(g))
            if want is not None:
                want, sc = want + extra, sc + extra
        if want is not None and np.isfinite(want) and not abs(f - want) <= 1e-9 * (1 + sc):
            raise Violation('objective', f'NLP {c.k} (sigma={p[S.pd.sigma]:g}): the objective is {f!r}, the configured one is {want!r} '
                            f'({o["step_equilibration"]}, {o["mpcc_mode"]}, {o["constraint_handling"]})')
        w = R.consistent(w, p)
        if o['mpcc_mode'] == 'BOOLEAN':
            w = R.booleans(w, p, c)
        g = (twin or S.nlp).fun(w, p)[1]
        miss = missing(R.rows(w, p) + R.user(w, p) + R.dynamics(w, p), g, lb, ub)
        if miss is not None:
            what, kind, val, near = miss
            if what is None:
                raise Violation('extra_constraint', f'NLP {c.k} (sigma={p[S.pd.sigma]:g}, {o["mpcc_mode"]}, {o["cross_comp_mode"]}): a constraint '
                                f'{"==" if kind == "eq" else "<="} 0 with value {val!r} is posed that the problem does not have')
            raise Violation('relaxation', f'NLP {c.k} (sigma={p[S.pd.sigma]:g}, {o["mpcc_mode"]}, {o["cross_comp_mode"]}): no constraint '
                            f'{"==" if kind == "eq" else "<="} 0 with value {val!r} for a {what} row (nearest: {near!r})')

    def bounds(self, S, R, r, c):
        skip = set(r.pin[0]) | set(r.pin[1])
        d = S.d
        if c.p[S.pd.sigma] == 0.0:
            skip |= set(flat(d.theta) + flat(d.lam) + flat(d.alpha) + flat(d.ln) + flat(d.lp))
        elif not all(c.lbx[i] == 0.0 == c.ubx[i] for i in r.pin[0]):
            i = [q for q in r.pin[0] if not c.lbx[q] == 0.0 == c.ubx[q]][0]
            raise Violation('not_fixed', f'NLP {c.k}: fix_active_set_fe0 is on and the initial multiplier positive, but {c.nlp.x_names[i]} is '
                            f'bounded by [{c.lbx[i]!r}, {c.ubx[i]!r}]')
        for i, (lo, hi, g) in R.table.items():
            if i in skip:
                continue
            if lo is not None and not close(c.lbx[i], lo) or hi is not None and not close(c.ubx[i], hi):
                raise Violation('bounds', f'NLP {c.k}: {c.nlp.x_names[i]} is bounded by [{c.lbx[i]!r}, {c.ubx[i]!r}] instead of '
                                f'[{lo!r}, {hi!r}]')

    def guess(self, S, R):
        R.table = R.bounds()
        w0 = np.array(S.solver.problem.w0, dtype=float)
        for i, (lo, hi, g) in R.table.items():
            if g is not None and not close(w0[i], g):
                raise Violation('guess', f'the default guess of {S.nlp.x_names[i]} is {w0[i]!r} instead of {g!r}')

    shrink = staticmethod(shrink_case)


CHECK = C15()
