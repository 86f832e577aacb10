"""Problems with exactly known solutions.

States are piecewise polynomial in the (scaled) time: constant rates per mode
plus rates common to all modes (controls, parameters, powers of a clock state);
the switching functions are affine.  The Filippov solution is computed by an
event-driven integrator on polynomials, and can be written into the primal
vector of the discretised problem by collocation with tableaus computed here.
"""
import numpy as np
import casadi as ca
from numpy.polynomial import Polynomial as P, legendre
from . import core
from .spec import eff, make_opts, make_S
from .decode import fes, flat
import nosnoc

SIGN = {}


class NotRegular(Exception):
    """The generated data has no clear-cut unique solution: not used."""


# -- tableaus ------------------------------------------------------------------
def tableau(scheme, s):
    """Nodes, A, b of the collocation method, from first principles."""
    key = (scheme, s)
    if key not in SIGN:
        cs = np.zeros(s + 1)
        cs[s] = 1.0
        if scheme == 'RADAU_IIA':
            cs[s - 1] = -1.0
        nodes = np.sort(np.real(legendre.legroots(cs))) if s > 0 else None
        nodes = (nodes + 1) / 2
        if scheme == 'RADAU_IIA':
            nodes[-1] = 1.0
        A, b = np.zeros((s, s)), np.zeros(s)
        for j in range(s):
            L = P([1.0])
            for m in range(s):
                if m != j:
                    L = L * P([-nodes[m], 1.0]) / (nodes[j] - nodes[m])
            I = L.integ()
            A[:, j] = I(nodes)
            b[j] = I(1.0)
        SIGN[key] = (nodes, A, b)
    return SIGN[key]


# -- family --------------------------------------------------------------------
class Com(list):
    """Common rates; tau0: value of the clock state at scaled time 0."""
    tau0 = 0.0


class Fam:
    """Numbers of one problem (from the case), with the data currently in force."""

    def __init__(self, q):
        self.q = q
        self.n_x = q['n_x']
        self.sys = []
        for s in q['sys']:
            e = {'n_c': s['n_c'], 'S': make_S(s['S'], s['n_c']), 'C': np.array(s['C'], dtype=float),
                 'o': np.array(s['o'], dtype=float), 'F': np.array(s['F'], dtype=float),
                 'Og': np.array(s['Og'], dtype=float).reshape(s['n_c'], -1), 'Q': s.get('Q')}
            self.sys.append(e)
        for k in ('Bu', 'Bt', 'Bg', 'Bv'):
            setattr(self, k, np.array(q[k], dtype=float).reshape(self.n_x, -1))
        self.clock = q['clock']
        self.force = q['force']
        self.iq = q.get('iq')
        self.chain = q.get('chain') or []       # [i, k, js, m]: rate of i += k * prod(x[js]) * clock^m, js before i
        self.occ = None         # auto-modelling: what the switching functions of the model are

    def extra(self, s, j, tau0):
        """Clock-dependent part of the rate of state iq in mode j of subsystem s."""
        Q = self.sys[s]['Q']
        return P(Q[j])(P([tau0, 1.0])) if Q else 0.0

    def mode_of(self, s, sgn):
        """Index of the mode of subsystem s for a full sign vector."""
        S = self.sys[s]['S']
        ok = [r for r in range(len(S)) if all(S[r, k] == 0 or S[r, k] == sgn[k] for k in range(len(sgn)))]
        if len(ok) != 1:
            raise core.HarnessError('mode')
        return ok[0]

    def c(self, s, x, pg):
        e = self.sys[s]
        return e['C'] @ x + e['o'] + (e['Og'] @ pg if e['Og'].size else 0.0)

    def common(self, d, tau0, x=None, s0=0.0):
        """Common rates as polynomials of the scaled time since the beginning; with the chain if the state x at s0 is given."""
        r = np.zeros(self.n_x)
        for B, v in ((self.Bu, d['u']), (self.Bt, d['pt']), (self.Bg, d['pg']), (self.Bv, d['v'])):
            if B.size:
                r = r + B @ np.asarray(v, dtype=float)
        out = Com(P([a]) for a in r)
        out.tau0 = tau0
        for i, k, m in self.force:
            out[i] = out[i] + k * P([tau0, 1.0]) ** m
        if x is not None and self.chain:
            pol = {}
            for i, k, js, m in self.chain:
                t = k * P([tau0, 1.0]) ** m
                for j in js:
                    if j not in pol:
                        pol[j] = out[j].integ(lbnd=s0) + float(x[j])
                    t = t * pol[j]
                out[i] = out[i] + t
        return out

    def stages(self, x, h, R, A, ph=None, s=None):
        """Collocation of the chain: rows of R (rates at the stages) that depend on other states.

        With ph, R holds the exact rates at the scaled times s, otherwise the rates without the chain."""
        for i, k, js, m in self.chain:
            v = k * (x[self.clock] + h * (A @ R[:, self.clock])) ** m
            for j in js:
                v = v * (x[j] + h * (A @ R[:, j]))
            if ph is not None:
                w = k * ph.x[self.clock](s) ** m
                for j in js:
                    w = w * ph.x[j](s)
                v = v - w
            R[:, i] = R[:, i] + v
        return R


def sym(n, k):
    return ca.SX.sym(n, k)


def aff(row, v):
    e = ca.SX(0)
    for a, i in zip(row, range(v.shape[0])):
        if a != 0:
            e = e + float(a) * v[i]
    return e


def build_pwc(case):
    """-> the dict of nosnoc objects the other modules expect, plus 'fam'."""
    q = case['fam']
    fam = Fam(q)
    o = eff(case['opts'])
    n_x = q['n_x']
    nu, nt, ng, nv = fam.Bu.shape[1], fam.Bt.shape[1], fam.Bg.shape[1], fam.Bv.shape[1]
    x, u, pt, pg, v = sym('x', n_x), sym('u', nu), sym('ptv', nt), sym('pg', ng), sym('v', nv)
    nz = len(q['z'])
    z = sym('z', nz)
    sp = dict(mode=q['mode'], n_x=n_x, n_u=nu, n_z=nz, n_v=nv, n_ptv=nt, n_pg=ng,
              sys=[dict(n_c=s['n_c'], S=s['S']) for s in q['sys']], opts=case['opts'], ocp=case.get('ocp'), cs=0)
    com = [aff(fam.Bu[i], u) + aff(fam.Bt[i], pt) + aff(fam.Bg[i], pg) + aff(fam.Bv[i], v) for i in range(n_x)]
    for i, k, m in fam.force:
        com[i] = com[i] + (k * x[fam.clock] ** m if m else k)
    for i, k, js, m in fam.chain:
        t = k * x[fam.clock] ** m if m else ca.SX(k)
        for j in js:
            t = t * x[j]
        com[i] = com[i] + t
    com = ca.vertcat(*com)
    cexp, Fm, S_l, g_l, a_l = [], [], [], [], []
    kz = 0
    zdef = []
    fx = com
    for s, e in enumerate(fam.sys):
        rows = []
        for k in range(e['n_c']):
            ck = aff(e['C'][k], x) + float(e['o'][k]) + aff(e['Og'][k], pg)
            if [s, k] in [t[:2] for t in q['z']]:
                # the switching function is an algebraic variable
                zdef.append(ck)
                ck = z[kz] + 0
                kz += 1
            rows.append(ck)
        cs = ca.vertcat(*rows)
        cexp.append(cs)
        S_l.append(e['S'])
        Fs = [ca.SX(ca.DM(f)) for f in e['F']]
        for j, f in enumerate(Fs if e['Q'] else []):
            for m, a in enumerate(e['Q'][j]):
                f[fam.iq] += a * x[fam.clock] ** m if m else a
        F = ca.horzcat(*[f + (com if s == 0 else ca.SX.zeros(n_x, 1)) for f in Fs])
        Fm.append(F)
        if q['mode'] == 'g':
            g_l.append(-ca.DM(e['S']) @ cs + q.get('goff', 0.0))
        if q['mode'] == 'alpha':
            a = sym('alpha', e['n_c'])
            a_l.append(a)
            for j in range(len(e['S'])):
                ups = 1
                for k in range(e['n_c']):
                    if e['S'][j, k] != 0:
                        ups = ups * (0.5 * (1 - e['S'][j, k]) + e['S'][j, k] * a[k])
                fx = fx + Fs[j] * ups
    for t in q['z']:
        if t[0] < 0:         # a free algebraic variable, not used in c
            zdef.append(aff(t[2], x))
    kw = {}
    if nu:
        kw['u'] = u
    if nz:
        kw['z'] = z
        kw['g_z'] = ca.vertcat(*[z[i] - zdef[i] for i in range(nz)])
        kw['z0'] = np.zeros(nz)
    if nt:
        kw['p_time_var'] = pt
        kw['p_time_var_val'] = np.array(q['pt'], dtype=float)
    if ng:
        kw['p_global'] = pg
        kw['p_global_val'] = np.array(q['pg'], dtype=float)
    if nv:
        kw['v_global'] = v
    if o['time_freezing']:
        kw['t_var'] = x[q['tphys']]
    x0 = np.array(q['x0'], dtype=float)
    if q['mode'] == 'cS':
        model = nosnoc.NosnocModel(x=x, x0=x0, F=Fm, c=cexp, S=S_l, **kw)
    elif q['mode'] == 'g':
        model = nosnoc.NosnocModel(x=x, x0=x0, F=Fm, g_Stewart=g_l, **kw)
    else:
        model = nosnoc.NosnocModel(x=x, x0=x0, f_x=[fx], c=[ca.vertcat(*cexp)], alpha=[ca.vertcat(*a_l)], **kw)
    ocp = None
    ex = {}
    oc = case.get('ocp')
    if oc is not None:
        k2 = {}
        for k in ('lbu', 'ubu', 'lbx', 'ubx', 'lbg', 'ubg', 'lbv_global', 'ubv_global', 'u_guess', 'v_global_guess'):
            if oc.get(k) is not None:
                k2[k] = np.array([np.inf if a == 'inf' else -np.inf if a == '-inf' else a for a in oc[k]], dtype=float)
        vs = dict(x=x, u=u, pt=pt, pg=pg, v=v)

        def expr(t):
            """Affine (+ squares) expression from its description."""
            e = ca.SX(float(t.get('k', 0.0)))
            for n, vec in vs.items():
                if n in t:
                    e = e + aff(t[n], vec)
            for n, i, a in t.get('sq', []):
                e = e + a * vs[n][i] ** 2
            for a, fs in t.get('mono', []):
                q = ca.SX(a)
                for i, m in fs:
                    q = q * (x[i] ** m if m > 1 else x[i])
                e = e + q
            return e
        if oc.get('gp'):
            k2['g_path'] = ca.vertcat(*[expr(t) for t in oc['gp']])
        if oc.get('gT'):
            k2['g_terminal'] = ca.vertcat(*[expr(t) for t in oc['gT']])
        if oc.get('comp'):
            k2['g_path_comp'] = ca.vertcat(*[ca.horzcat(expr(a), expr(b)) for a, b in oc['comp']])
        if oc.get('fq'):
            k2['f_q'] = expr(oc['fq'])
        if oc.get('fT'):
            k2['f_terminal'] = expr(oc['fT'])
        ocp = nosnoc.NosnocOcp(**k2)
    opts = make_opts(case['opts'])
    return dict(passed={}, model=model, opts=opts, ocp=ocp, spec=sp, o=o, c=cexp, g=g_l, S=S_l, x=x, z=z, pg=pg, ptv=pt, u=u,
                v=v, gz=kw.get('g_z'), x0=x0.copy(), z0=np.zeros(nz), fam=fam,
                pg_val=np.array(kw.get('p_global_val', np.zeros(0))),
                ptv_val=np.array(kw.get('p_time_var_val', np.zeros((o['N_stages'], nt)))))


def val(t, d):
    """Value of an expression description; d: x, u, pt, pg, v."""
    e = float(t.get('k', 0.0))
    for n in ('x', 'u', 'pt', 'pg', 'v'):
        if n in t:
            e += float(np.dot(t[n], d[n]))
    for n, i, a in t.get('sq', []):
        e += a * d[n][i] ** 2
    return e


# -- exact Filippov solution ----------------------------------------------------
class Phase:
    """Constant active set on [s0, s1] (scaled time)."""
    __slots__ = ('stage', 's0', 's1', 'sgn', 'sl', 'th', 'x', 'rate', 'event')

    def theta(self, fam, t):
        """Convex multipliers per subsystem at scaled time t."""
        out = []
        for s in range(len(fam.sys)):
            v = np.zeros(len(fam.sys[s]['F']))
            a, b = self.modes(fam, s)
            if self.sl[s] is None:
                v[a] = 1.0
            else:
                w = float(self.th[s](t))
                v[a] += w
                v[b] += 1 - w
            out.append(v)
        return out

    def alpha(self, fam, t):
        """Step multipliers per subsystem."""
        out = []
        for s in range(len(fam.sys)):
            a = np.array([(q + 1) / 2 for q in self.sgn[s]], dtype=float)
            if self.sl[s] is not None:
                a[self.sl[s]] = float(self.th[s](t))
            out.append(a)
        return out

    def modes(self, fam, s):
        if self.sl[s] is None:
            r = fam.mode_of(s, self.sgn[s])
            return r, r
        hi, lo = list(self.sgn[s]), list(self.sgn[s])
        hi[self.sl[s]], lo[self.sl[s]] = 1, -1
        return fam.mode_of(s, hi), fam.mode_of(s, lo)


def config(fam, sgn, sl, com):
    """Rates of a configuration: (theta polynomials, rate polynomials)."""
    n = len(fam.sys)
    base = [p for p in com]
    D, N, idx = [], [], []
    for s in range(n):
        if sl[s] is None:
            f = fam.sys[s]['F'][fam.mode_of(s, sgn[s])]
            base = [b + float(a) for b, a in zip(base, f)]
            if fam.sys[s]['Q']:
                base[fam.iq] = base[fam.iq] + fam.extra(s, fam.mode_of(s, sgn[s]), com.tau0)
        else:
            hi, lo = list(sgn[s]), list(sgn[s])
            hi[sl[s]], lo[sl[s]] = 1, -1
            fh, fl = fam.sys[s]['F'][fam.mode_of(s, hi)], fam.sys[s]['F'][fam.mode_of(s, lo)]
            base = [b + float(a) for b, a in zip(base, fl)]
            D.append(fh - fl)
            N.append(fam.sys[s]['C'][sl[s]])
            idx.append(s)
    th = {}
    if idx:
        A = np.array([[np.dot(N[i], D[j]) for j in range(len(idx))] for i in range(len(idx))])
        if abs(np.linalg.det(A)) < 1e-6:
            raise NotRegular('singular sliding')
        if any(fam.sys[s]['Q'] for s in idx) and 'groups' in fam.q:
            raise NotRegular('sliding with clock-dependent modes')
        Ai = np.linalg.inv(A)
        rhs = [-sum((float(N[i][k]) * base[k] for k in range(fam.n_x)), P([0.0])) for i in range(len(idx))]
        for i, s in enumerate(idx):
            th[s] = sum((float(Ai[i, j]) * rhs[j] for j in range(len(idx))), P([0.0]))
        for s, dv in zip(idx, D):
            base = [b + th[s] * float(a) for b, a in zip(base, dv)]
            if fam.sys[s]['Q']:
                hi, lo = list(sgn[s]), list(sgn[s])
                hi[sl[s]], lo[sl[s]] = 1, -1
                qh, ql = (fam.extra(s, fam.mode_of(s, q), com.tau0) for q in (hi, lo))
                base[fam.iq] = base[fam.iq] + ql + th[s] * (qh - ql)
    return th, base


def roots(p, a, b):
    p = p.trim(1e-14)
    if p.degree() < 1:
        return []
    r = p.roots()
    r = r[np.abs(r.imag) < 1e-9].real
    return [float(t) for t in r if a < t <= b + 1e-12]


def integrate(fam, x0, data, vmin=0.12, gap=0.02, cmin=0.04, sgn0=None, edge=None):
    """data: per stage dict(L scaled length, u, pt, pg, v).  -> list of phases.

    Raises NotRegular whenever the solution is not clear-cut."""
    n = len(fam.sys)
    x0 = np.array(x0, dtype=float)
    tau0 = x0[fam.clock] if fam.clock is not None else 0.0
    pg = data[0]['pg']
    if sgn0 is None:
        sgn = []
        for s in range(n):
            cv = fam.c(s, x0, pg)
            if np.min(np.abs(cv)) < cmin:
                raise NotRegular('starts on a surface')
            sgn.append([1 if a > 0 else -1 for a in cv])
        sl = [None] * n
    else:
        sgn, sl = [list(a) for a in sgn0[0]], list(sgn0[1])
    out, s0, x = [], 0.0, x0
    last_event = -1.0
    for st, dt in enumerate(data):
        if not np.array_equal(dt['pg'], pg):
            pg = dt['pg']
            for s in range(n):
                cv = fam.c(s, x, pg)
                if np.min(np.abs(cv)) < cmin:
                    raise NotRegular('parameter change on a surface')
                sgn[s], sl[s] = [1 if a > 0 else -1 for a in cv], None
        send = s0 + dt['L']
        com = fam.common(dt, tau0, x, s0)
        if st > 0 or sgn0 is not None:
            # a change of the common rates must not change the active set at once
            th, rate = config(fam, sgn, sl, com)
            for s in range(n):
                if any(abs(a) < 1e-3 and k != sl[s] for k, a in enumerate(fam.c(s, x, pg))):
                    raise NotRegular('on a surface at a stage boundary')
            for s, p in th.items():
                if not 0.08 < p(s0) < 0.92:
                    raise NotRegular('active set changes at a stage boundary')
        while s0 < send - 1e-12:
            th, rate = config(fam, sgn, sl, com)
            xp = [r.integ(lbnd=s0) + float(a) for r, a in zip(rate, x)]
            ev = []
            for s in range(n):
                e = fam.sys[s]
                off = e['o'] + (e['Og'] @ pg if e['Og'].size else 0.0)
                for k in range(e['n_c']):
                    if k == sl[s]:
                        continue
                    cp = sum((float(e['C'][k][i]) * xp[i] for i in range(fam.n_x)), P([float(off[k])]))
                    for t in roots(cp, s0 + 1e-6, send):
                        ev.append((t, 'c', s, k, cp))
                        break
                if sl[s] is not None:
                    for q, lv in ((th[s], -1), (1 - th[s], 1)):
                        rr = roots(q, s0 + 1e-6, send)
                        if rr:
                            ev.append((min(rr), 'exit', s, lv, q))
                    for t in np.linspace(s0, min([send] + [q[0] for q in ev]), 5):
                        if not -1e-9 <= th[s](t) <= 1 + 1e-9:
                            raise NotRegular('sliding multiplier outside')
            for i, q in enumerate(ev):      # earliest root of each switching function
                if q[1] == 'c':
                    ev[i] = (min(roots(q[4], s0 + 1e-6, send)),) + q[1:]
            ev.sort(key=lambda q: q[0])
            s1 = ev[0][0] if ev else send
            if ev:
                if len(ev) > 1 and ev[1][0] - ev[0][0] < gap:
                    raise NotRegular('two events at once')
                if s1 - last_event < gap or send - s1 < gap or s1 - (send - dt['L']) < gap:
                    raise NotRegular('event too close')
            ph = Phase()
            ph.stage, ph.s0, ph.s1, ph.sgn, ph.sl, ph.th, ph.x, ph.rate = \
                st, s0, s1, [list(a) for a in sgn], list(sl), th, xp, rate
            ph.event = None
            out.append(ph)
            x = np.array([p(s1) for p in xp])
            if ev:
                _, kind, s, k, p = ev[0]
                last_event = s1
                if kind == 'exit':
                    if abs(p.deriv()(s1)) < 0.25:
                        raise NotRegular('tangential exit')
                    sgn[s][sl[s]] = k
                    # the mode entered must move away
                    ns = list(sl)
                    ns[s] = None
                    ph.event = 'leave'
                    sl = ns
                else:
                    ph.event = switch(fam, sgn, sl, com, s, k, s1, vmin)
                th, _ = config(fam, sgn, sl, com)
                for q in th:
                    if not 0.08 < th[q](s1) < 0.92:
                        raise NotRegular('a switch breaks another sliding mode')
            s0 = s1
        s0 = send
    return out, (sgn, sl)


def vel(fam, sgn, sl, com, s, k, t):
    _, rate = config(fam, sgn, sl, com)
    return float(np.dot(fam.sys[s]['C'][k], [r(t) for r in rate]))


def switch(fam, sgn, sl, com, s, k, t, vmin):
    """c_k of subsystem s reaches zero at t: updates sgn, sl in place."""
    old = sgn[s][k]
    v_old = vel(fam, sgn, sl, com, s, k, t)
    if v_old * old > -vmin:
        raise NotRegular('tangential')
    new = [list(a) for a in sgn]
    new[s][k] = -old
    if sl[s] is None:
        v_new = vel(fam, new, sl, com, s, k, t)
        if v_new * old < -vmin:
            sgn[s][k] = -old
            return 'cross'
        if v_new * old > vmin:
            sl[s] = k
            sgn[s][k] = 0
            th, _ = config(fam, sgn, sl, com)
            if not 0.1 < th[s](t) < 0.9:
                raise NotRegular('sliding multiplier at the border')
            return 'slide'
        raise NotRegular('tangential on the other side')
    # already sliding on another function of the same subsystem
    j = sl[s]
    no = list(sl)
    no[s] = None
    vj, vk = {}, {}
    for a in (1, -1):
        for b, base in ((0, sgn), (1, new)):
            q = [list(w) for w in base]
            q[s][j] = a
            vj[a, b] = vel(fam, q, no, com, s, j, t)
            vk[a, b] = vel(fam, q, no, com, s, k, t)
    if any(v * old > -vmin for v in vk.values()):
        raise NotRegular('codimension two')
    if vj[1, 1] < -vmin and vj[-1, 1] > vmin:
        sgn[s][k] = -old
        th, _ = config(fam, sgn, sl, com)
        if not 0.1 < th[s](t) < 0.9:
            raise NotRegular('sliding multiplier at the border')
        return 'cross_sliding'
    if vj[1, 1] * vj[-1, 1] > 0 and min(abs(vj[1, 1]), abs(vj[-1, 1])) > vmin:
        sgn[s][k] = -old
        sgn[s][j] = 1 if vj[1, 1] > 0 else -1
        sl[s] = None
        return 'leave_by_jump'
    raise NotRegular('leaves an unstable surface')


def at(phases, t, n_x):
    """Exact state at scaled time t."""
    for ph in phases:
        if t <= ph.s1 + 1e-12:
            return np.array([p(t) for p in ph.x])
    ph = phases[-1]
    return np.array([p(ph.s1) for p in ph.x])


# -- grid ------------------------------------------------------------------------
def allocate(lens, n, lo, hi):
    """Numbers of finite elements per segment, or None."""
    m = [max(1, int(np.ceil(a / hi - 1e-9))) for a in lens]
    M = [int(np.floor(a / lo + 1e-9)) if lo > 1e-9 else n for a in lens]
    if sum(m) > n or any(a > b for a, b in zip(m, M)):
        return None
    while sum(m) < n:
        c = [(a / k, i) for i, (a, k) in enumerate(zip(lens, m)) if k < M[i]]
        if not c:
            return None
        m[max(c)[1]] += 1
    return m


class FE:
    """One finite element of a trajectory to be written into the primal vector."""
    __slots__ = ('h', 'sot', 'th', 'al', 'V', 'X', 'xe', 'u', 'x')


def make_grid(d, phases, data, h_of=None):
    """(stage, fe) -> (phase, scaled start, scaled length); None if it does not fit."""
    o = d.o
    T = o['terminal_time'] / d.N
    grid = []
    for st in range(d.N):
        ph = [p for p in phases if p.stage == st]
        sot = data[st].get('sot', 1.0)
        h0 = T / d.nfe[st]
        if d.fesd:
            cnt = allocate([(p.s1 - p.s0) / sot for p in ph], d.nfe[st], (1 - o['gamma_h']) * h0, (1 + o['gamma_h']) * h0)
            if cnt is None:
                return None
        else:
            if len(ph) > 1:
                return None
            cnt = [d.nfe[st]]
        for p, k in zip(ph, cnt):
            L = (p.s1 - p.s0) / k
            for i in range(k):
                grid.append((st, p, p.s0 + i * L, L))
    return grid


def elements(fam, d, x0, grid, data):
    """Collocation of the exact active sets on the grid."""
    c, A, b = tableau(d.o['irk_scheme'], d.n_s)
    out, x = [], np.array(x0, dtype=float)
    for st, ph, s, L in grid:
        e = FE()
        e.sot = data[st].get('sot', 1.0)
        e.h = L / e.sot
        e.th = [ph.theta(fam, s + L * a) for a in c]
        e.al = [ph.alpha(fam, s + L * a) for a in c]
        R = np.array([[p(s + L * a) for p in ph.rate] for a in c])
        if fam.chain:
            R = fam.stages(x, L, R, A, ph, s + L * c)
        e.V = e.sot * R
        e.x = x
        e.X = x + e.h * (A @ e.V)
        e.xe = x + e.h * (b @ e.V)
        x = e.xe
        out.append(e)
    return out


def write(fam, d, b, els, data, el=0.0):
    """Primal vector of a trajectory; multipliers consistent with the switching functions."""
    w = np.zeros(d.nw)
    for i in d.el:
        w[i] = el
    if d.n_v:
        w[d.v] = data[0]['v']
    for st in range(d.N):
        if d.n_u:
            w[d.U[st]] = data[st]['u']
        if d.sot == 'SOT_LOCAL':
            w[d.s[st]] = data[st].get('sot', 1.0)
    if d.sot == 'SOT_GLOBAL':
        w[d.s[0]] = data[0].get('sot', 1.0)
    for (st, f), e in zip(fes(d), els):
        pg = data[st]['pg']
        if d.fesd:
            w[d.h[st][f]] = e.h
        for k in range(d.n_s):
            if d.V[st][f]:
                w[d.V[st][f][k]] = e.V[k]
            if d.X[st][f]:
                w[d.X[st][f][k]] = e.X[k]
            if d.n_z:
                w[d.z[st][f][k]] = zvals(fam, e.X[k], pg)
            put_theta(fam, d, w, st, f, k, e)
        w[d.Xend[st][f]] = e.xe
        for k in range(len(d.lam[st][f])):
            X = e.X[k] if k < d.n_s else e.xe
            put_lambda(fam, d, b, w, st, f, k, X, pg)
    return w


def zvals(fam, x, pg):
    out = []
    for t in fam.q['z']:
        out.append(fam.c(t[0], x, pg)[t[1]] if t[0] >= 0 else float(np.dot(t[2], x)))
    return np.array(out)


def put_theta(fam, d, w, st, f, k, e):
    if fam.occ is not None:
        for i, comp in enumerate(fam.occ):
            if d.stewart:
                (a, q, fac), = comp
                w[d.theta[st][f][k][i]] = [e.th[k][a][fam.mode_of(a, [int(np.sign(row[0] * fac))])] for row in fam.mS[i]]
            else:
                w[d.alpha[st][f][k][i]] = [e.al[k][a][q] if fac > 0 else 1 - e.al[k][a][q] for a, q, fac in comp]
        return
    src = e.th[k] if d.stewart else e.al[k]
    if not d.stewart and fam.q['mode'] == 'alpha':
        src = [np.concatenate(src)]
    for s in range(d.n_sys):
        w[(d.theta if d.stewart else d.alpha)[st][f][k][s]] = src[s]


def put_lambda(fam, d, b, w, st, f, k, X, pg):
    # rounding errors on the surface would be magnified by the products of step equilibration
    cs = [np.where(np.abs(v) < 1e-12, 0.0, v) for v in (fam.c(s, X, pg) for s in range(len(fam.sys)))]
    Ss = [e['S'] for e in fam.sys]
    if fam.occ is not None:
        cs = [np.array([fac * cs[a][q] for a, q, fac in comp]) for comp in fam.occ]
        Ss = fam.mS
    if d.stewart:
        for s in range(d.n_sys):
            g = -Ss[s] @ cs[s] + (fam.q.get('goff', 0.0) if fam.q['mode'] == 'g' else 0.0)
            w[d.lam[st][f][k][s]] = g - g.min()
            w[d.mu[st][f][k][s]] = -g.min()
        return
    if fam.q['mode'] == 'alpha' and fam.occ is None:
        cs = [np.concatenate(cs)]
    for s in range(d.n_sys):
        w[d.ln[st][f][k][s]] = np.maximum(-cs[s], 0)
        w[d.lp[st][f][k][s]] = np.maximum(cs[s], 0)


def violation(c, w, nlp):
    """Largest violation of the NLP posed in call c at w: (value, what)."""
    f, g = nlp.fun(w, c.p)
    best, what = 0.0, ''
    for nm, v, lo, hi in (('bound of', w, c.lbx, c.ubx), ('constraint', g, c.lbg, c.ubg)):
        if v.size:
            e = np.maximum(lo - v, v - hi)
            e[np.isnan(e)] = np.inf
            i = int(np.argmax(e))
            if e[i] > best:
                best = float(e[i])
                what = f'{nm} {nlp.x_names[i] if nm == "bound of" else i}'
                if nm == 'constraint':
                    what += f' ({str(nlp.g_sym[i])[:160]} = {v[i]:.4g} not in [{lo[i]:.3g}, {hi[i]:.3g}])'
    return best, what


# -- generation --------------------------------------------------------------------
def u2(r, lo=0.4, hi=2.0):
    return round(r.uniform(lo, hi) * r.choice([-1, 1]), 3)


def gen_fam(r, o, dims, z=False):
    """Random member; o: effective options, dims: n_u, n_t, n_g, n_v."""
    stew = o['pss_mode'] == 'STEWART'
    mode = 'cS'
    if stew and r.random() < 0.2:
        mode = 'g'
    if not stew and r.random() < 0.3:
        mode = 'alpha'
    ns = o['n_s']
    subs = []
    for s in range(core.pick(r, (5, 1), (3, 2), (1, 3))):
        n_c = core.pick(r, (3, 1), (2, 2))
        S = 'full' if n_c == 1 else core.pick(r, (2, 'full'), (2, 'tree') if not stew else (1, 'full'))
        if r.random() < 0.2:
            S = 'fullrev'
        subs.append((n_c, S))
    if sum(a for a, _ in subs) > 3:
        subs = subs[:1]
    n_y = sum(a for a, _ in subs)
    clock = r.random() < 0.5
    n_x = n_y + 1 + (1 if clock else 0)
    iq, ic = n_y, n_y + 1
    q = dict(n_x=n_x, mode=mode, clock=ic if clock else None, force=[], z=[], sys=[], goff=core.pick(r, (2, 0.0), (1, 2.0)))
    k0 = 0
    for s, (n_c, S) in enumerate(subs):
        nf = n_c + 1 if S == 'tree' else 2 ** n_c
        C = np.zeros((n_c, n_x))
        for k in range(n_c):
            C[k, k0 + k] = r.choice([1.0, 1.0, -1.0, 1.5, -0.5])
        if n_c == 2 and r.random() < 0.3:
            C[1, k0] = r.choice([0.3, -0.4])
        F = np.zeros((nf, n_x))
        for j in range(nf):
            for k in range(n_c):
                F[j, k0 + k] = u2(r)
            F[j, iq] = u2(r, 0.3, 1.5)
            if r.random() < 0.3:      # later subsystems feel the mode of this one
                for k in range(k0 + n_c, n_y):
                    F[j, k] = round(r.uniform(-0.3, 0.3), 3)
        if n_c == 1 and r.random() < 0.4:   # attractive surface
            pos = 0 if S == 'full' else 1
            sg = np.sign(C[0, k0])
            F[pos, k0] = -sg * abs(F[pos, k0])
            F[1 - pos, k0] = sg * abs(F[1 - pos, k0])
        off = [round(r.uniform(-0.8, 0.8), 3) for _ in range(n_c)]
        Og = np.zeros((n_c, dims['n_g']))
        if dims['n_g'] and r.random() < 0.5:
            Og[r.randrange(n_c), r.randrange(dims['n_g'])] = u2(r, 0.2, 0.6)
        q['sys'].append(dict(n_c=n_c, S=S, C=C.tolist(), o=off, F=F.tolist(), Og=Og.tolist()))
        if z:
            for k in range(n_c):
                if r.random() < 0.6:
                    q['z'].append([s, k])
        k0 += n_c
    if z and not q['z'] or (not z and r.random() < 0.12):
        q['z'].append([-1, 0, [u2(r) for _ in range(n_x)]])
    if clock:
        q['force'].append([ic, 1.0, 0])
        top = 2 * ns - 2 if o['irk_scheme'] == 'RADAU_IIA' else 2 * ns - 1
        if r.random() < 0.8:
            q['force'].append([iq, u2(r, 0.5, 2.0), r.randint(0, min(top, 5))])
        if ns >= 2 and r.random() < 0.6:
            q['force'].append([r.randrange(n_y), u2(r, 0.5, 2.5), r.randint(1, min(ns - 1, 3))])
    for nm, n in (('Bu', dims['n_u']), ('Bt', dims['n_t']), ('Bg', dims['n_g']), ('Bv', dims['n_v'])):
        B = np.zeros((n_x, n))
        for j in range(n):
            B[iq, j] = u2(r, 0.3, 1.0)
            if r.random() < 0.6:
                B[r.randrange(n_y), j] = u2(r, 0.2, 0.8)
        q[nm] = B.tolist()
    q['x0'] = [round(r.uniform(-1, 1), 3) for _ in range(n_x)]
    if clock:
        q['x0'][ic] = core.pick(r, (2, 0.0), (1, 0.5))
    q['pt'] = [[round(r.uniform(-1, 1), 3) for _ in range(dims['n_t'])] for _ in range(o['N_stages'])]
    q['pg'] = [round(r.uniform(-1, 1), 3) for _ in range(dims['n_g'])]
    return q
