"""Reference model of the data a solver holds (initial guess, state, parameters)."""
import numpy as np
from .decode import flat, fes, lambda00_ref
from .core import nprng


class Ref:
    """What the next solve must pose, given the set()/solve() history."""

    def __init__(self, b, d, w0, x0=None):
        self.b, self.d = b, d
        self.w0 = np.array(w0, dtype=float).copy()
        self.x0 = np.array(b['x0'] if x0 is None else x0, dtype=float).copy()
        self.p = np.zeros((d.N, d.n_ptv + d.n_pg))
        self.p[:, :d.n_ptv] = b['ptv_val']
        self.p[:, d.n_ptv:] = b['pg_val']
        self.strategy = b['o']['initialization_strategy']

    def xrows(self, c, f):
        d = self.d
        rows = [list(r) for r in d.X[c][f]]
        if d.Xend[c][f] not in rows:
            rows.append(list(d.Xend[c][f]))
        return rows

    def set(self, field, v):
        d = self.d
        v = np.array(v, dtype=float)
        if field == 'x0':
            self.x0 = v.copy()
        elif field == 'x':
            k = 0
            for c, f in fes(d):
                row = v[c] if v.shape[0] == d.N else v[k]
                for ix in self.xrows(c, f):
                    self.w0[ix] = row
                k += 1
        elif field == 'u':
            for c in range(d.N):
                self.w0[d.U[c]] = v[c]
        elif field == 'theta':
            for k, (c, f) in enumerate(fes(d)):
                for j in range(d.n_s):
                    self.w0[d.theta[c][f][j][0]] = v[k]
        elif field == 'v_global':
            self.w0[d.v] = v
        elif field == 'w':
            self.w0 = v.copy()
        elif field == 'p_global':
            self.p[:, d.n_ptv:] = v
        elif field == 'p_time_var':
            self.p[:, :d.n_ptv] = v

    def begin(self):
        """Initial guess of the next solve (None: derived numerically, not modelled)."""
        if self.strategy in ('ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV'):
            for c, f in fes(self.d):
                for ix in self.xrows(c, f):
                    self.w0[ix] = self.x0
        elif self.strategy == 'RK4_SMOOTHENED':
            return None
        return self.w0.copy()

    def end(self, w_opt):
        if self.strategy == 'ALL_XCURRENT_WOPT_PREV':
            self.w0 = np.array(w_opt, dtype=float).copy()

    def l00(self):
        return lambda00_ref(self.b, self.d, self.x0, self.p[0])

    def pinned(self):
        """Entries pinned to zero by fix_active_set_fe0 (documented option)."""
        o = self.b['o']
        if not (o['fix_active_set_fe0'] and self.d.stewart):
            return [], []
        L = np.concatenate(self.l00())
        sure = np.where(L > 10 * o['comp_tol'] * 1.001)[0]
        maybe = np.where((L > 10 * o['comp_tol'] * 0.999) & ~(L > 10 * o['comp_tol'] * 1.001))[0]
        s, m = [], []
        for j in range(self.d.n_s):
            t = flat(self.d.theta[0][0][j])
            s += [t[i] for i in sure]
            m += [t[i] for i in maybe]
        return s, m


FIELDS = ('x0', 'x', 'u', 'theta', 'v_global', 'w', 'p_global', 'p_time_var')


def gen_value(b, d, field, seed, variant=0):
    g = nprng('val', field, seed)

    def n(*sh):
        return np.round(g.normal(size=sh), 4)
    if field == 'x0':
        return n(d.n_x)
    if field == 'x':
        return n(sum(d.nfe) if variant else d.N, d.n_x)
    if field == 'u':
        return n(d.N, d.n_u) if d.n_u else None
    if field == 'theta':
        return n(sum(d.nfe), d.nf[0]) if d.stewart and d.n_sys == 1 else None
    if field == 'v_global':
        return n(d.n_v) if d.n_v else None
    if field == 'w':
        return n(d.nw)
    if field == 'p_global':
        return n(d.n_pg) if d.n_pg else None
    if field == 'p_time_var':
        return n(d.N, d.n_ptv) if d.n_ptv else None


def same(a, b, tol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if tol == 0.0:
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
