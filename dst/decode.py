"""Independent decoding of the primal and parameter vectors by symbol names.

Falls back to the index lists of the problem when the names are not the ones
expected (a renaming is not a defect).
"""
import numpy as np
import casadi as ca


def nm(base, n):
    return [base] if n == 1 else [f'{base}_{i}' for i in range(n)]


class Dec:
    pass


def dims_of(b):
    sp, o = b['spec'], b['o']
    d = Dec()
    d.o = o
    d.n_x, d.n_u, d.n_z, d.n_v = sp['n_x'], sp['n_u'], sp['n_z'], sp['n_v']
    d.n_ptv, d.n_pg = sp['n_ptv'], sp['n_pg']
    d.N = o['N_stages']
    d.nfe = list(o['Nfe_list']) if o['Nfe_list'] else [o['N_finite_elements']] * d.N
    d.n_s = o['n_s']
    d.fesd = o['use_fesd']
    d.stewart = o['pss_mode'] == 'STEWART'
    d.radau = o['irk_scheme'] == 'RADAU_IIA'
    # Gauss-Legendre never includes the right boundary point, Radau IIA always does
    d.rbp = d.radau
    d.rep = o['irk_representation']
    if sp['mode'] == 'alpha':
        d.n_sys = 1
        d.nc = [sum(s['n_c'] for s in sp['sys'])]
        d.nf = [0]
    else:
        d.n_sys = len(sp['sys'])
        d.nc = [s['n_c'] for s in sp['sys']]
        d.nf = [(s['n_c'] + 1 if s['S'] == 'tree' else 2 ** s['n_c']) for s in sp['sys']]
    d.sot = o['speed_of_time_variables']
    d.elastic = o['mpcc_mode'].startswith('ELASTIC')
    return d


def has_end(d, c, f):
    return d.fesd and not d.rbp and f < d.nfe[c] - 1


def decode(b, x_names, prob=None, v_names=None):
    """-> Dec with index arrays into w, or None if neither scheme works."""
    d = dims_of(b)
    pos = {}
    for i, n in enumerate(x_names):
        pos.setdefault(n, i)
    try:
        _by_names(d, b, pos)
        d.how = 'names'
    except KeyError:
        if prob is None:
            return None
        _by_ind(d, b, prob)
        d.how = 'ind'
    d.nw = len(x_names)
    return d


def _by_names(d, b, pos):
    def g(base, n):
        return [pos[k] for k in nm(base, n)] if n else []
    d.h, d.X, d.Xend, d.V = [], [], [], []
    d.theta, d.lam, d.mu, d.alpha, d.ln, d.lp, d.z = [], [], [], [], [], [], []
    d.U, d.s = [], []
    d.el = [pos['s_elastic']] if d.elastic else []
    d.v = [pos[b['v'][i].name()] for i in range(d.n_v)]
    if d.sot == 'SOT_GLOBAL':
        d.s = [pos['sot']]
    for c in range(d.N):
        d.U.append(g(f'U_{c}', d.n_u))
        if d.sot == 'SOT_LOCAL':
            d.s.append(pos[f's_sot_{c}'])
        rows = {k: [] for k in ('h', 'X', 'Xend', 'V', 'theta', 'lam', 'mu', 'alpha', 'ln', 'lp', 'z')}
        for f in range(d.nfe[c]):
            rows['h'].append(pos[f'h_{c}_{f}'] if d.fesd else None)
            ks = range(1, d.n_s + 1)
            rows['V'].append([g(f'V_{c}_{f}_{k}', d.n_x) for k in ks] if d.rep != 'INTEGRAL' else [])
            X = [g(f'X_{c}_{f}_{k}', d.n_x) for k in ks] if d.rep != 'DIFFERENTIAL' else []
            rows['X'].append(X)
            if not d.rbp or d.rep == 'DIFFERENTIAL':
                rows['Xend'].append(g(f'X_end_{c}_{f + 1}', d.n_x))
            else:
                rows['Xend'].append(X[-1])
            lst = [str(k) for k in ks]
            ext = lst + (['end'] if has_end(d, c, f) else [])
            S = range(d.n_sys)
            if d.stewart:
                rows['theta'].append([[g(f'theta_{c}_{f}_{k}_{s + 1}', d.nf[s]) for s in S] for k in lst])
                rows['lam'].append([[g(f'lambda_{c}_{f}_{k}_{s + 1}', d.nf[s]) for s in S] for k in ext])
                rows['mu'].append([[g(f'mu_{c}_{f}_{k}_{s + 1}', 1) for s in S] for k in ext])
                for q in ('alpha', 'ln', 'lp'):
                    rows[q].append([[[] for s in S] for k in (lst if q == 'alpha' else ext)])
            else:
                rows['alpha'].append([[g(f'alpha_{c}_{f}_{k}_{s + 1}', d.nc[s]) for s in S] for k in lst])
                rows['ln'].append([[g(f'lambda_n_{c}_{f}_{k}_{s + 1}', d.nc[s]) for s in S] for k in ext])
                rows['lp'].append([[g(f'lambda_p_{c}_{f}_{k}_{s + 1}', d.nc[s]) for s in S] for k in ext])
                for q in ('theta', 'lam', 'mu'):
                    rows[q].append([[[] for s in S] for k in (lst if q == 'theta' else ext)])
            rows['z'].append([g(f'z_{c}_{f}_{k}', d.n_z) for k in ks])
        for k, v in rows.items():
            getattr(d, k).append(v)


def _flat(L):
    return [a for i in L for a in _flat(i)] if isinstance(L, list) else [L]


def _by_ind(d, b, prob):
    d.h, d.X, d.Xend = [], [], []
    d.el = _flat(prob.ind_elastic)
    d.v = _flat(prob.ind_v_global)
    d.s = _flat(prob.ind_sot)
    d.U = [list(u) for u in prob.ind_u]
    d.V, d.theta, d.lam, d.mu, d.alpha, d.ln, d.lp, d.z = [], [], [], [], [], [], [], []
    hs = _flat(prob.ind_h)
    j = 0
    for c in range(d.N):
        h, X, Xe, V = [], [], [], []
        for f in range(d.nfe[c]):
            if d.fesd:
                h.append(hs[j])
                j += 1
            else:
                h.append(None)
            ix = prob.ind_x[c][f]
            Xe.append(list(ix[-1]))
            X.append([list(q) for q in ix[:d.n_s]] if d.rep != 'DIFFERENTIAL' else [])
            V.append([list(q) for q in prob.ind_v[c][f]] if d.rep != 'INTEGRAL' else [])
        d.h.append(h)
        d.X.append(X)
        d.Xend.append(Xe)
        d.V.append(V)
        for k, src in (('theta', prob.ind_theta), ('lam', prob.ind_lam), ('mu', prob.ind_mu),
                       ('alpha', prob.ind_alpha), ('ln', prob.ind_lambda_n), ('lp', prob.ind_lambda_p),
                       ('z', prob.ind_z)):
            getattr(d, k).append(src[c])


def fes(d):
    return [(c, f) for c in range(d.N) for f in range(d.nfe[c])]


def flat(L):
    return [a for i in L for a in flat(i)] if isinstance(L, (list, tuple)) else [L]


def steps(d, w):
    """Step lengths, in order."""
    if d.fesd:
        return np.array([w[d.h[c][f]] for c, f in fes(d)])
    return np.array([d.o['terminal_time'] / d.N / d.nfe[c] for c, f in fes(d)])


# -- parameters -----------------------------------------------------------
class PDec:
    pass


def decode_p(b, d, p_names):
    q = PDec()
    pos = {n: i for i, n in enumerate(p_names)}
    n_p = d.n_ptv + d.n_pg
    try:
        q.p = [[pos[k] for k in nm(f'p_stage{c}', n_p)] if n_p else [] for c in range(d.N)]
        q.sigma = pos['sigma_p']
        q.x0 = [pos[k] for k in nm('X0', d.n_x)]
        if d.stewart:
            q.l00 = [[pos[k] for k in nm(f'lambda00_{s + 1}', d.nf[s])] for s in range(d.n_sys)]
            q.l00n = q.l00p = None
        else:
            q.l00 = None
            q.l00n = [[pos[k] for k in nm(f'lambda00_n_{s + 1}', d.nc[s])] for s in range(d.n_sys)]
            q.l00p = [[pos[k] for k in nm(f'lambda00_p_{s + 1}', d.nc[s])] for s in range(d.n_sys)]
        q.how = 'names'
    except KeyError:
        # documented layout: stage parameters, sigma, tau, lambda00, x0
        q.p = [list(range(c * n_p, (c + 1) * n_p)) for c in range(d.N)]
        q.sigma = d.N * n_p
        k = q.sigma + 2
        if d.stewart:
            q.l00 = []
            for s in range(d.n_sys):
                q.l00.append(list(range(k, k + d.nf[s])))
                k += d.nf[s]
            q.l00n = q.l00p = None
        else:
            q.l00 = None
            q.l00n, q.l00p = [], []
            for lst in (q.l00n, q.l00p):
                for s in range(d.n_sys):
                    lst.append(list(range(k, k + d.nc[s])))
                    k += d.nc[s]
        q.x0 = list(range(k, k + d.n_x))
        q.how = 'layout'
    return q


def lambda00_ref(b, d, x0, p0, z0_hint=None):
    """Independent initial multipliers at x0: list per subsystem."""
    ptv, pg = p0[:d.n_ptv], p0[d.n_ptv:]
    z0 = np.array(b['z0'], dtype=float)
    if d.n_z and b['o']['rootfinder_for_initial_z']:
        # g_z = z - affine(x, pg): solve exactly
        gz = ca.Function('gz', [b['z'], b['x'], b['pg']], [b['gz']])
        z0 = -gz(np.zeros(d.n_z), x0, pg).full().flatten()
    key = '_l00'
    if key not in b:
        exprs = b['g'] if b['g'] else b['c']
        b[key] = ca.Function('ev', [b['x'], b['z'], b['pg']], [ca.vertcat(*exprs)])
        b['_sz'] = [int(e.shape[0]) for e in exprs]
    val = b[key](x0, z0, pg).full().flatten()
    parts, k = [], 0
    for n in b['_sz']:
        parts.append(val[k:k + n])
        k += n
    if d.stewart:
        out = []
        for s in range(d.n_sys):
            g = parts[s] if b['g'] else -b['S'][s] @ parts[s]
            out.append(g - g.min())
        return out
    if b['spec']['mode'] == 'alpha':
        parts = [np.concatenate(parts)]
    return [(np.maximum(-c, 0), np.maximum(c, 0)) for c in parts]


def comp_terms(d, w, l00):
    """Per finite element: (Theta[j], Lambda[jj], Lambda_prev_end) as flat vectors."""
    if d.stewart:
        prev = np.concatenate(l00)
    else:
        prev = np.concatenate([a for a, _ in l00] + [p for _, p in l00])
    out = []
    for c, f in fes(d):
        Th, La = [], []
        for k in range(d.n_s):
            if d.stewart:
                Th.append(w[flat(d.theta[c][f][k])])
            else:
                a = w[flat(d.alpha[c][f][k])]
                Th.append(np.concatenate((a, 1 - a)))
        for k in range(len(d.lam[c][f])):
            if d.stewart:
                La.append(w[flat(d.lam[c][f][k])])
            else:
                La.append(np.concatenate((w[flat(d.ln[c][f][k])], w[flat(d.lp[c][f][k])])))
        out.append((Th, La, prev))
        prev = La[-1]
    return out


def stage_states(d, w, x0):
    """States at the Runge-Kutta stages, per finite element."""
    out, x = [], np.asarray(x0, dtype=float)
    for (c, f), h in zip(fes(d), steps(d, w)):
        if d.X[c][f]:
            out.append([w[q] for q in d.X[c][f][:d.n_s]])
        else:
            from .pwc import tableau
            A = tableau(d.o['irk_scheme'], d.n_s)[1]
            V = np.array([w[q] for q in d.V[c][f]])
            out.append(list(x + h * (A @ V)))
        x = w[d.Xend[c][f]]
    return out


def path_prods(b, d, pd, w, p):
    """Products of the path complementarities at the primal vector w with parameters p."""
    if not b.get('pathc'):
        return np.zeros(0)
    out = []
    v = w[d.v]
    for kd, fun in b['pathc']:
        if kd == 'g':
            q = p[pd.p[0]]
            out.append(fun(np.zeros(d.n_x), np.zeros(d.n_u), q[:d.n_ptv], q[d.n_ptv:], v))
        for c in range(d.N):
            q = p[pd.p[c]]
            if kd == 'c':
                out.append(fun(np.zeros(d.n_x), w[d.U[c]], q[:d.n_ptv], q[d.n_ptv:], v))
        if kd == 's':
            for (c, f), X in zip(fes(d), stage_states(d, w, p[pd.x0])):
                q = p[pd.p[c]]
                for x in X:
                    out.append(fun(x, w[d.U[c]], q[:d.n_ptv], q[d.n_ptv:], v))
    return np.array([float(q) for q in out])


def comp_res(d, w, l00, path=()):
    """Largest complementarity product of the formulation."""
    m = -np.inf
    allnan = True
    for q in path:
        if not np.isnan(q):
            m = max(m, float(q))
            allnan = False
    for Th, La, prev in comp_terms(d, w, l00):
        for j in range(d.n_s):
            if d.fesd:
                prods = [Th[j] * prev] + [Th[j] * L for L in La]
            else:
                prods = [Th[j] * La[j]]
            for p in prods:
                q = p[~np.isnan(p)]
                if q.size:
                    m = max(m, q.max())
                    allnan = False
    return np.nan if allnan else m
