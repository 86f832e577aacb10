"""C12: automatically modelled nonsmooth ODEs keep their dynamics."""
import copy
import numpy as np
import casadi as ca
from numpy.polynomial import Polynomial as P
from . import pwc
from .base import Violation, HarnessError, must
from .core import pick, nprng
from .spec import eff, make_opts, full_S
from .pwc import Fam, NotRegular, aff
from .c07 import C07, Player, gen_opts, grids, step_phases, gen_faults, CHEATS
import nosnoc

# forms of a nonsmooth term; q: the numbers of the term, s: the signs of its surfaces, t: the clock
ADD = ['lin', 'lin2', 'neg', 'pure', 'clk', 'max', 'min']                      # a product with one nonsmooth factor
GEN = ['div', 'exp', 'cos', 'sq', 'inv', 'sqrt', 'clkexp', 'maxsq', 'expmin']  # any function of one nonsmooth term
CPL = ['prod', 'expsum', 'self', 'selfsq', 'maxsign', 'ratio']                 # several nonsmooth terms
CLOCK = {'clk', 'clkexp', 'max', 'min', 'maxsq', 'expmin', 'maxsign'}          # rate depends on the clock
AFF = {'lin', 'lin2', 'neg', 'pure', 'div'}


def g1(q, tc):
    """(slope, offset) of the first argument and value of the second one, equal at the clock value tc."""
    return q['k'], q['d'] - q['k'] * tc, q['d']


def value(t, s, tc, clk):
    """Value of a term: s signs of its surfaces, clk: clock (Polynomial or float)."""
    f, a, k = t['f'], t['a'], t['k']
    if f in ('lin', 'lin2'):
        return a * s[0]
    if f == 'neg':
        return -(a * s[0])
    if f == 'pure':
        return float(s[0])
    if f == 'clk':
        return a * clk * s[0]
    if f == 'div':
        return s[0] / k
    if f == 'exp':
        return a * np.exp(k * s[0])
    if f == 'cos':
        return a * np.cos(s[0] + k)
    if f == 'sq':
        return a * (s[0] + k) ** 2
    if f == 'inv':
        return a / (2.5 + s[0])
    if f == 'sqrt':
        return a * np.sqrt(2.0 + s[0])
    if f == 'clkexp':
        return clk * (a * np.exp(0.5 * s[0]))
    if f in ('max', 'min', 'maxsq', 'expmin', 'maxsign'):
        sl, of, cst = g1(t, tc[0])
        first = (s[0] * sl > 0) == (f in ('max', 'maxsq', 'maxsign'))     # s[0]: clock before (-1) or after (+1) tc
        v = sl * clk + of if first else cst
        if f == 'maxsq':
            return a * v * v
        if f == 'expmin':
            return a * (v + v / 2)
        if f == 'maxsign':
            return v * s[1]
        return a * v
    if f == 'prod':
        return a * s[0] * s[1]
    if f == 'expsum':
        return a * np.exp(0.4 * s[0] + 0.3 * s[1])
    if f == 'self':
        return a * np.exp(0.3 * (s[0] + s[0]))
    if f == 'selfsq':
        return a * s[0] * (s[0] + k)
    if f == 'ratio':
        return a * s[0] / (2.5 + s[1])
    raise HarnessError(f)


def expr(t, c, tc, clk):
    """casadi expression of a term; c(i): a node of its i-th switching function."""
    f, a, k = t['f'], t['a'], t['k']

    def s(i):
        return ca.sign(c(i))
    if f == 'lin':
        return a * s(0)
    if f == 'lin2':
        return s(0) * a
    if f == 'neg':
        return -(a * s(0))
    if f == 'pure':
        return s(0)
    if f == 'clk':
        return (a * clk) * s(0) if t['o'] else s(0) * (a * clk)
    if f == 'div':
        return s(0) / k
    if f == 'exp':
        return a * ca.exp(k * s(0))
    if f == 'cos':
        return a * ca.cos(s(0) + k)
    if f == 'sq':
        return a * (s(0) + k) ** 2
    if f == 'inv':
        return a / (2.5 + s(0))
    if f == 'sqrt':
        return a * ca.sqrt(2.0 + s(0))
    if f == 'clkexp':
        return clk * (a * ca.exp(0.5 * s(0)))
    if f in ('max', 'min', 'maxsq', 'expmin', 'maxsign'):
        sl, of, cst = g1(t, tc[0])
        op = ca.fmax if f in ('max', 'maxsq', 'maxsign') else ca.fmin
        args = [sl * clk + of, ca.SX(cst)]
        if t['o']:
            args.reverse()
        v = op(*args)
        if f == 'maxsq':
            return a * v ** 2
        if f == 'expmin':
            return a * (v + op(*args) / 2) if t['o'] else a * (v * 1.5)
        if f == 'maxsign':
            return v * s(1) if t['o'] else s(1) * v
        return a * v if t['o'] else v * a
    if f == 'prod':
        return a * s(0) * s(1) if t['o'] else s(0) * s(1) * a
    if f == 'expsum':
        return a * ca.exp(0.4 * s(0) + 0.3 * s(1))
    if f == 'self':
        return a * ca.exp(0.3 * (s(0) + s(0)))
    if f == 'selfsq':
        return a * s(0) * (s(0) + k)
    if f == 'ratio':
        return a * s(0) / (2.5 + s(1))
    raise HarnessError(f)


def gen_auto(r, o, linear):
    """A system given by an expression; linear: only functions of one nonsmooth term, no plain products."""
    ns = o['n_s']
    top = 2 * ns - 2 if o['irk_scheme'] == 'RADAU_IIA' else 2 * ns - 1
    n_y = pick(r, (3, 1), (3, 2), (1, 3))
    clock = top >= 1 and r.random() < 0.6
    n_x = n_y + 1 + clock
    iq, ic = n_y, n_y + 1
    # surfaces: one per y, one or none on the clock
    surf = []
    for k in range(n_y):
        if r.random() < 0.85 or k == 0:
            C = [0.0] * n_x
            C[k] = pick(r, (2, 1.0), (1, -1.0), (1, 1.5), (1, -0.5))
            surf.append({'C': C, 'o': round(r.uniform(-0.8, 0.8), 3), 'tc': None, 'y': k})
            if r.random() < 0.25:       # a parallel one (dead zone)
                C = [a * r.choice([1.0, 1.0, 1.0, -1.0, 0.5]) for a in C]
                y0 = -surf[-1]['o'] / surf[-1]['C'][k]
                surf.append({'C': C, 'o': round(-(y0 + r.choice([-1, 1]) * r.uniform(0.15, 0.6)) * C[k], 3), 'tc': None, 'y': k})
    if clock and r.random() < 0.8:
        C = [0.0] * n_x
        C[ic] = 1.0
        tc = round(r.uniform(0.1, 1.2), 3)
        surf.append({'C': C, 'o': -tc, 'tc': tc, 'y': None})
    terms = []

    def term(f, row, ss):
        a = round(r.uniform(0.3, 1.5) * r.choice([-1, 1]), 3) + 0.0001      # (not 1: casadi would simplify)
        terms.append({'f': f, 'row': row, 's': ss, 'a': a, 'k': round(r.uniform(0.4, 1.6) * r.choice([-1, 1]), 3) + 0.0001,
                      'd': round(r.uniform(-1, 1), 3), 'o': 0 if linear and f == 'expmin' else r.randint(0, 1), 'sg': r.choice([1, 1, -1]), 'new': r.random() < 0.4})

    rows = list(range(n_y)) + [iq]
    groups = []
    free = list(range(len(surf)))
    r.shuffle(free)
    if len(free) >= 2 and r.random() < 0.35 and not linear:
        groups.append([free.pop(), free.pop()])
        ck = [i for i in groups[0] if surf[i]['tc'] is not None]
        if ck and groups[0][0] != ck[0]:
            groups[0].reverse()
    groups += [[i] for i in free]
    for g in groups:
        ck = surf[g[0]]['tc'] is not None
        if len(g) == 2:
            fs = ['prod', 'expsum', 'ratio'] + (['maxsign'] * 2 if ck else [])
            for _ in range(r.randint(1, 2)):
                f = r.choice(fs)
                term(f, iq if f in CLOCK else r.choice(rows), g)
        for i in g:
            y, ck = surf[i]['y'], surf[i]['tc'] is not None
            al = list(GEN if linear else ADD + GEN + ['self', 'selfsq'])
            al = [f for f in al if f not in CLOCK or top >= (2 if f == 'maxsq' else 1) and clock and
                  (ck or f in ('clk', 'clkexp'))]
            n = pick(r, (3, 1), (2, 2), (1, 3))
            for m in range(n):
                f = r.choice(al)
                if f == 'pure':
                    al.remove(f)        # (two of them might cancel)
                row = iq if f in CLOCK else r.choice(rows) if r.random() < 0.6 or y is None else y
                term(f, row, [i])
    smooth = []      # (row, constant, clock power)
    for i in rows:
        if r.random() < 0.75:
            smooth.append([i, round(r.uniform(0.4, 2.0) * r.choice([-1, 1]), 3), 0])
    force = []
    if clock:
        force.append([ic, 1.0, 0])
        if r.random() < 0.5:
            force.append([iq, pwc.u2(r, 0.5, 2.0), r.randint(1, min(top, 3))])
    order = [r.random() for _ in range(len(terms) + len(smooth) + len(force))]
    q = dict(n_x=n_x, mode='auto', clock=ic if clock else None, iq=iq, force=force + smooth, z=[], goff=0.0,
             Bu=[[] for _ in range(n_x)], Bt=[[] for _ in range(n_x)], Bg=[[] for _ in range(n_x)], Bv=[[] for _ in range(n_x)],
             pt=[[]], pg=[], surf=surf, terms=terms, groups=groups, order=order, linear=linear)
    q['x0'] = [round(r.uniform(-1, 1), 3) for _ in range(n_x)]
    if clock:
        q['x0'][ic] = 0.0
    # constants of the right-hand side written as multiples of controls (fixed by their bounds) and parameters
    q['uv'], q['pv'], q['use'] = [], [], []
    q['again'] = pick(r, (6, 0), (1, 1), (1, 2))
    if r.random() < 0.3:
        q['uv'] = [pwc.u2(r) for _ in range(r.randint(1, 2))]
    if r.random() < 0.35:
        q['pv'] = [pwc.u2(r) for _ in range(r.randint(1, 2))]
    for what, n in (('force', len(q['force'])), ('terms', len(terms)), ('surf', len(surf))):
        for i in range(n):
            if r.random() < 0.5 or what == 'force' and clock and i == 0 or what == 'surf' and surf[i]['y'] is None:
                continue
            if what != 'surf' and q['uv'] and r.random() < 0.6:
                q['use'].append([what, i, 'u', r.randrange(len(q['uv']))])
            elif q['pv']:
                q['use'].append([what, i, 'p', r.randrange(len(q['pv']))])
    return exact_rhs(q)


def exact_rhs(q):
    """The right-hand side mode by mode."""
    surf, n_x = q['surf'], q['n_x']
    sys = []
    for g in q['groups']:
        S = full_S(len(g))
        F, Q = np.zeros((len(S), n_x)), [[0.0] for _ in S]
        for t in q['terms']:
            if not set(t['s']) <= set(g):
                continue
            for j, sg in enumerate(S):
                v = value(t, [sg[g.index(i)] for i in t['s']], [surf[i]['tc'] for i in t['s']], P([0.0, 1.0]))
                if t['f'] in CLOCK:
                    v = v if isinstance(v, P) else P([v])
                    Q[j] = (P(Q[j]) + t['sg'] * v).coef.tolist()
                else:
                    F[j, t['row']] += t['sg'] * v
        has = any(len(v) > 1 or v[0] for v in Q)
        sys.append({'n_c': len(g), 'S': 'full', 'C': [surf[i]['C'] for i in g], 'o': [surf[i]['o'] for i in g],
                    'F': F.tolist(), 'Og': [[] for _ in g], 'Q': Q if has else None})
    q['sys'] = sys
    return q


def slidable(q):
    """Surfaces on which every representation of the ODE has the same Filippov solution."""
    out = set()
    for i in range(len(q['surf'])):
        u = [t for t in q['terms'] if i in t['s']]
        if len(u) == 1 and u[0]['f'] in AFF:
            out.add(i)
    return out


GRID = [-1.0, -0.5, 0.0, 0.5, 1.0]


def hull(q, i, sgn):
    """Velocities of surface i if every occurrence of its sign may take any value in [-1, 1]; sgn: other surfaces."""
    s = q['surf'][i]
    y = s['y']
    lo = hi = sum(k for r, k, m in q['force'] if r == y)      # (rows of y have no clock-dependent terms)
    for t in q['terms']:
        if t['row'] != y:
            continue
        if i not in t['s']:
            v = [value(t, [sgn[j] for j in t['s']], [q['surf'][j]['tc'] for j in t['s']], 0.0)]
        elif t['f'] == 'selfsq':
            v = [t['a'] * a * (b + t['k']) for a in GRID for b in GRID]
        else:
            v = [value(t, [a if j == i else sgn[j] for j in t['s']], [q['surf'][j]['tc'] for j in t['s']], 0.0) for a in GRID]
        v = [t['sg'] * a for a in v]
        lo, hi = lo + min(v), hi + max(v)
    return sorted([s['C'][y] * lo, s['C'][y] * hi])


def build_auto(case):
    q = case['fam']
    fam = Fam(q)
    o = eff(case['opts'])
    n_x = q['n_x']
    x = ca.SX.sym('x', n_x)
    clk = x[fam.clock] if fam.clock is not None else None
    surf = q['surf']
    nodes = {}
    nu, npar = len(q.get('uv', [])), len(q.get('pv', []))
    u, pg = ca.SX.sym('u', nu), ca.SX.sym('p', npar)
    pbar = np.array(q.get('pv', []), dtype=float)
    use = {(w, i): (u[j] / q['uv'][j] if k == 'u' else pg[j] / q['pv'][j]) for w, i, k, j in q.get('use', [])}

    def node(i, new):
        """A node of switching function i: shared or built anew."""
        if new or i not in nodes:
            nodes[i] = aff(surf[i]['C'], x) + surf[i]['o'] * use.get(('surf', i), 1)
        return nodes[i]
    parts = [(t['row'], t['sg'], expr(dict(t, a=t['a'] * use.get(('terms', n), 1)), lambda j, t=t: node(t['s'][j], t['new']),
                                      [surf[i]['tc'] for i in t['s']], clk)) for n, t in enumerate(q['terms'])]
    parts += [(i, 1 if k > 0 else -1, abs(k) * use.get(('force', n), 1) * (clk ** m if m else 1))
              for n, (i, k, m) in enumerate(q['force'])]
    f = [None] * n_x
    for _, (i, sg, e) in sorted(zip(q['order'] + [2.0] * 50, parts), key=lambda p: p[0]):
        if f[i] is None:
            f[i] = e if sg > 0 else -e
        else:
            f[i] = f[i] + e if sg > 0 else f[i] - e
    f = ca.vertcat(*[ca.SX(0) if e is None else e for e in f])
    x0 = np.array(q['x0'], dtype=float)
    am = nosnoc.NosnocAutoModel(x=x, x0=x0, u=u, f_nonsmooth_ode=f, **(dict(p=pg) if npar else {}))
    model = must(f'reformulating x_dot = {f}', am.reformulate)
    if q.get('again'):      # 1: the second model is used, 2: the first one
        m2 = must(f'reformulating x_dot = {f} again', am.reformulate)
        if q['again'] == 1:
            model = m2
    if npar:
        model.p_global_val = pbar.copy()
    ocp = None
    if nu:
        ocp = nosnoc.NosnocOcp(lbu=np.array(q['uv'], dtype=float), ubu=np.array(q['uv'], dtype=float))
    lin = model.F is not None
    if not lin and o['pss_mode'] == 'STEWART':      # documented: a complex model needs STEP
        case['opts'] = dict(case['opts'], pss_mode='STEP')
        case['opts'].pop('fix_active_set_fe0', None)
        o = eff(case['opts'])
    # what the switching functions of the model are
    fam.occ, fam.mS, cexp, pos = [], [], [], 0
    g = nprng('auto', 1)
    pts = [g.normal(size=n_x) for _ in range(3)]
    where = {i: (a, b) for a, gr in enumerate(q['groups']) for b, i in enumerate(gr)}
    for c in model.c:
        try:
            fun = ca.Function('c', [x, pg], [c])
        except RuntimeError as e:
            raise Violation('switching_function', f'the model of x_dot = {f} switches at {c}: {e}')
        vals = np.array([fun(p, pbar).full().flatten() for p in pts])
        comp = []
        for j in range(vals.shape[1]):
            hit = None
            for i, s in enumerate(surf):
                m = np.array([np.dot(s['C'], p) + s['o'] for p in pts])
                fac = vals[:, j] / m
                if np.ptp(fac) < 1e-9 * np.max(np.abs(fac)):
                    hit = where[i] + (float(fac[0]),)
            if hit is None:
                raise Violation('switching_function', f'the model of x_dot = {f} switches at {c}')
            comp.append(hit)
        fam.occ.append(comp)
        cexp.append(c)
    S_l = []
    if lin:
        S_l = [np.array(s, dtype=float) for s in model.S]
        if any(s.shape != (2, 1) for s in S_l):
            raise HarnessError(f'unexpected S {S_l}')
        for c, s in zip(model.c, S_l):
            if sorted(s[:, 0]) != [-1.0, 1.0]:
                raise Violation('regions', f'the model of x_dot = {f} has the regions S = {s.tolist()} for {c}')
        fam.mS = S_l
        sysd = [dict(n_c=len(c), S='full') for c in fam.occ]
    else:
        fam.occ = [sum(fam.occ, [])]
        cexp = [ca.vertcat(*cexp)]
        sysd = [dict(n_c=len(fam.occ[0]), S='full')]
    sp = dict(mode='cS' if lin else 'alpha', n_x=n_x, n_u=nu, n_z=0, n_v=0, n_ptv=0, n_pg=npar, sys=sysd, opts=case['opts'],
              ocp=None, cs=0)
    e = ca.SX.sym('e', 0)
    opts = make_opts(case['opts'])
    return dict(passed={}, model=model, opts=opts, ocp=ocp, spec=sp, o=o, c=cexp, g=[], S=S_l, x=x, z=e, pg=pg, ptv=e, u=u,
                v=e, gz=None, x0=x0.copy(), z0=np.zeros(0), fam=fam, pg_val=pbar, ptv_val=np.zeros((o['N_stages'], 0)),
                ode=str(f), path='F' if lin else 'alpha')


class AutoPlayer(Player):
    def start(self, *a, **k):
        super().start(*a, **k)
        self.data['u'] = np.array(self.case['fam'].get('uv', []), dtype=float)


class C12(C07):
    player = AutoPlayer
    id = 'C12'
    runs = {'quick': 1800, 'thorough': 30000}
    cap = {'quick': 300, 'thorough': 3000}
    rule = ('seeded nonsmooth ODE written with sign/max/min (sums, products, compositions; shared or repeated switching functions) '
            'with an exactly known solution, reformulated by the real NosnocAutoModel and simulated under fault plans with the '
            'sub-solvers of C07; non-trivial: at least one successful step compared; distinct by (case, statuses)')
    assumptions = ['sliding modes only where all representations agree (a switching function that occurs once, affinely)',
                   'nonsmooth functions of smooth arguments (no nesting), as documented',
                   'solution unique, transversal, switches at least 0.02 apart']

    def gen(self, r, idx, tier):
        real = r.random() < 0.2
        for _ in range(600):
            opts = gen_opts(r, real)
            linear = r.random() < 0.4
            if not linear:
                opts['pss_mode'] = 'STEP'
                opts.pop('fix_active_set_fe0', None)
            o = eff(opts)
            fam = gen_auto(r, o, linear)
            n_al = len(fam['surf']) if linear else sum(2 if t['f'] in ('self', 'selfsq') else len(t['s']) for t in fam['terms'])
            if real and (n_al * o['n_s'] * o['N_finite_elements'] > 36 or o['step_equilibration'] == 'DIRECT_COMPLEMENTARITY'):
                continue
            case = {'fam': fam, 'opts': opts, 'steps': [{'pt': [], 'pg': fam['pv']}] * pick(r, (2, 1), (2, 2)), 'gl_cz': False}
            try:
                ph = step_phases(case, Fam(fam))
            except NotRegular:
                continue
            if not self.ok(case, ph):
                continue
            if not grids(case, ph):
                continue
            if not any(len(p) > 1 for p in ph) and r.random() < 0.8:
                continue
            break
        else:
            raise HarnessError('no regular problem found')
        case['sub'] = 'real' if real else 'ideal'
        case['loop'] = r.random() < 0.35 and not case['fam']['uv']
        att = []
        for k in range(len(case['steps'])):
            a = []
            if not case['loop'] and r.random() < 0.3:
                a.append({'plan': gen_faults(r, 40, True), 'cheats': []})
            plan = gen_faults(r, r.randint(0, 3) if r.random() < 0.5 else 0, False)
            for be in plan:
                be.pop('raise', None)
            ch = [] if real else [[r.choice(CHEATS), r.randrange(10 ** 6)] for _ in range(r.randint(0, 8))]
            a.append({'plan': plan, 'cheats': ch})
            att.append(a)
        case['att'] = att
        case['stop'] = r.random() < 0.3
        return case

    def ok(self, case, ph):
        q = case['fam']
        ok = slidable(q)
        allp = [p for k in ph for p in k]
        if any(p.sl[s] is not None and q['groups'][s][p.sl[s]] not in ok for p in allp for s in range(len(p.sl))):
            return False
        # crossings: no representation of the ODE may rest on the surface
        for a, b in zip(allp, allp[1:]):
            for s, g in enumerate(q['groups']):
                for k, i in enumerate(g):
                    if a.sgn[s][k] * b.sgn[s][k] < 0 and q['surf'][i]['y'] is not None and i not in ok:
                        sg = {j: a.sgn[u][m] for u, h in enumerate(q['groups']) for m, j in enumerate(h)}
                        lo, hi = hull(q, i, sg)
                        if lo < 0.1 and hi > -0.1:
                            return False
        return True

    def build(self, case, W):
        b = build_auto(case)
        W.probe('path_' + b['path'])
        for k in ('uv', 'pv'):
            if case['fam'].get(k):
                W.probe('with_' + k[0])
        W.event('ode ' + b['ode'])
        return b

    def shrink(self, case):
        yield from super().shrink(case)
        if case['fam'].get('again'):
            c = copy.deepcopy(case)
            c['fam']['again'] = 0
            yield c
        for k in ('uv', 'pv'):
            if case['fam'].get(k):
                c = copy.deepcopy(case)
                c['fam'][k] = []
                c['fam']['use'] = [q for q in c['fam']['use'] if q[2] != k[0]]
                if k == 'pv':
                    for q in c['steps']:
                        q['pg'] = []
                yield c
        for k in ('terms', 'force'):
            for i in range(len(case['fam'][k])):
                c = copy.deepcopy(case)
                del c['fam'][k][i]
                c['fam']['use'] = [[w, j - (w == k and j > i), a, b] for w, j, a, b in c['fam'].get('use', []) if (w, j) != (k, i)]
                if k == 'force' and case['fam'][k][i][0] == case['fam']['clock']:
                    continue
                if k == 'terms' and not all(any(q in t['s'] for t in c['fam']['terms']) for q in range(len(c['fam']['surf']))):
                    continue
                exact_rhs(c['fam'])
                try:
                    ph = step_phases(c, Fam(c['fam']))
                except NotRegular:
                    continue
                if grids(c, ph) and self.ok(c, ph):
                    yield c


CHECK = C12()
