"""Generated problems: a JSON spec -> real nosnoc model / options / OCP objects."""
import itertools
import numpy as np
import casadi as ca
from . import core
from .core import rng_of, pick
import nosnoc

E = {}
for _e in ('MpccMode', 'IrkSchemes', 'InitializationStrategy', 'StepEquilibrationMode', 'CrossComplementarityMode',
           'IrkRepresentation', 'HomotopyUpdateRule', 'ConstraintHandling', 'SpeedOfTimeVariableMode', 'PssMode'):
    for _m in getattr(nosnoc.nosnoc_types, _e):
        E[_m.name if _e != 'SpeedOfTimeVariableMode' else 'SOT_' + _m.name] = _m

DEFAULTS = dict(terminal_time=1.0, use_fesd=True, print_level=0, max_iter_homotopy=0,
                initialization_strategy='ALL_XCURRENT_W0_START', irk_representation='INTEGRAL', n_s=2,
                irk_scheme='RADAU_IIA', cross_comp_mode='SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA',
                mpcc_mode='SCHOLTES_INEQ', constraint_handling='EXACT', pss_mode='STEWART', gamma_h=1.0,
                fix_active_set_fe0=False, N_finite_elements=2, Nfe_list=[], comp_tol=1e-8, sigma_0=1.0, sigma_N=1e-8,
                homotopy_update_slope=0.1, homotopy_update_exponent=1.5, homotopy_update_rule='LINEAR',
                step_equilibration='HEURISTIC_DELTA', step_equilibration_sigma=0.1, rho_h=1.0,
                do_polishing_step=False, N_stages=1, equidistant_control_grid=True, g_path_at_fe=False,
                g_path_at_stg=False, s_elastic_0=1.0, s_elastic_max=10.0, s_elastic_min=0.0,
                objective_scaling_direct=True, time_freezing=False, time_freezing_tolerance=1e-3,
                speed_of_time_variables='SOT_NONE', speed_of_time_min=1.0, speed_of_time_max=25.0,
                rootfinder_for_initial_z=False, smoothing_parameter=10.0, fb_ip_aug1_weight=1.0,
                fb_ip_aug2_weight=0.1)


def eff(o):
    d = dict(DEFAULTS)
    d.update(o)
    return d


def make_opts(o):
    """Set every option through the public attributes (properties included); half of the problems rely on the defaults."""
    opts = nosnoc.NosnocOpts()
    rely = int(round(1000 * o.get('terminal_time', 1.0))) % 2
    for k, v in o.items():
        if rely and k in DEFAULTS and type(v) is type(DEFAULTS[k]) and v == DEFAULTS[k]:
            continue
        setattr(opts, k, E[v] if isinstance(v, str) else (list(v) if isinstance(v, list) else v))
    return opts


def full_S(n_c):
    return np.array([[1 - 2 * b for b in bits] for bits in itertools.product((0, 1), repeat=n_c)], dtype=float)


def make_S(kind, n_c):
    if kind == 'full':
        return full_S(n_c)
    if kind == 'fullrev':
        return full_S(n_c)[::-1].copy()
    if kind == 'tree':   # regions c1>0 | c1<0,c2>0 | c1<0,c2<0 ...
        rows = []
        for k in range(n_c):
            rows.append([-1.0] * k + [1.0] + [0.0] * (n_c - k - 1))
        rows.append([-1.0] * n_c)
        return np.array(rows)
    raise core.HarnessError(kind)


def n_modes(s):
    k = s['S']
    return s['n_c'] + 1 if k == 'tree' else 2 ** s['n_c']


def sym(name, n):
    return ca.SX.sym(name, n)


def lin(r, vecs, sc=1.0):
    """Random affine scalar expression in the entries of the given vectors."""
    e = ca.SX(round(r.uniform(-1, 1), 3) * sc)
    for v in vecs:
        for i in range(v.shape[0]):
            e = e + round(r.uniform(-1, 1), 3) * sc * v[i]
    return e


def build(spec):
    """-> dict(model, opts, ocp); all objects fresh."""
    r = rng_of('coef', spec['cs'])
    o = eff(spec['opts'])
    n_x = spec['n_x']
    x = sym('x', n_x)
    u = sym('u', spec['n_u'])
    z = sym('z', spec['n_z'])
    ptv = sym('ptv', spec['n_ptv'])
    pg = sym('pg', spec['n_pg'])
    v = sym('v', spec['n_v'])
    kw = {}
    if spec['n_u']:
        kw['u'] = u
    if spec['n_z']:
        kw['z'] = z
        kw['g_z'] = ca.vertcat(*[z[i] - lin(r, [x, pg], 0.5) for i in range(spec['n_z'])])
        kw['z0'] = np.round(np.array([r.uniform(-1, 1) for _ in range(spec['n_z'])]), 3)
        if spec.get('zb'):
            kw['lbz'] = -5.0 * np.ones(spec['n_z'])
            kw['ubz'] = 5.0 * np.ones(spec['n_z'])
    if spec['n_ptv']:
        kw['p_time_var'] = ptv
        if spec.get('ptv_val', True):
            kw['p_time_var_val'] = np.round(
                np.array([[r.uniform(-1, 1) for _ in range(spec['n_ptv'])] for _ in range(o['N_stages'])]), 3)
    if spec['n_pg']:
        kw['p_global'] = pg
        kw['p_global_val'] = np.round(np.array([r.uniform(-1, 1) for _ in range(spec['n_pg'])]), 3)
    if spec['n_v']:
        kw['v_global'] = v
    if o['time_freezing']:
        kw['t_var'] = x[n_x - 1]
    dep = [x, u, ptv, pg, v]
    if spec['n_z']:
        dep = dep + [z]
    x0 = np.round(np.array([r.uniform(-1, 1) for _ in range(n_x)]), 3)
    c_l, S_l, F_l, g_l, a_l, fx = [], [], [], [], [], ca.SX.zeros(n_x, 1)
    m_l, rhs = [], ca.SX.zeros(n_x, 1)
    for s, sd in enumerate(spec['sys']):
        cdep = [x, pg] if spec.get('cp') else [x]
        if spec.get('cz') and spec['n_z']:
            cdep = cdep + [z]
        c = ca.vertcat(*[lin(r, cdep) for _ in range(sd['n_c'])])
        nf = n_modes(sd)
        F = ca.horzcat(*[ca.vertcat(*[lin(r, dep) for _ in range(n_x)]) for _ in range(nf)])
        S = make_S(sd['S'], sd['n_c'])
        c_l.append(c)
        S_l.append(S)
        F_l.append(F)
        if spec['mode'] == 'g':
            g_l.append(ca.vertcat(*[lin(r, cdep) + spec.get('goff', 0.0) for _ in range(nf)]))
        m = sym('m', nf if o['pss_mode'] == 'STEWART' else sd['n_c'])
        m_l.append(m)
        for j in range(nf):
            wt = m[j] if o['pss_mode'] == 'STEWART' else 1
            if o['pss_mode'] != 'STEWART':
                for k in range(sd['n_c']):
                    wt = wt * {1: m[k], -1: 1 - m[k], 0: 1}[int(S[j, k])]
            rhs = rhs + F[:, j] * wt
        if spec['mode'] == 'alpha':
            a = sym('alpha', sd['n_c'])
            a_l.append(a)
            for j in range(nf):
                ups = 1
                for k in range(sd['n_c']):
                    if S[j, k] != 0:
                        ups = ups * (0.5 * (1 - S[j, k]) + S[j, k] * a[k])
                fx = fx + F[:, j] * ups
    name = spec.get('name', 'nosnoc')
    if spec['mode'] == 'cS':
        model = nosnoc.NosnocModel(x=x, x0=x0, F=F_l, c=c_l, S=S_l, name=name, **kw)
    elif spec['mode'] == 'g':
        model = nosnoc.NosnocModel(x=x, x0=x0, F=F_l, g_Stewart=g_l, name=name, **kw)
    else:
        model = nosnoc.NosnocModel(x=x, x0=x0, f_x=[fx], c=[ca.vertcat(*c_l)], alpha=[ca.vertcat(*a_l)], name=name,
                                   **kw)
    opts = make_opts(spec['opts'])
    ocp = None
    k2 = {}
    pathc, pathab = [], []
    oc = spec.get('ocp')
    if oc is not None:
        if oc.get('ub') and spec['n_u']:
            k2.update(lbu=-2.0 * np.ones(spec['n_u']), ubu=3.0 * np.ones(spec['n_u']),
                      u_guess=np.round(np.array([r.uniform(-1, 1) for _ in range(spec['n_u'])]), 3))
            if oc.get('odd_u') == 'guess':
                k2['u_guess'] = k2['u_guess'] * 7
            elif oc.get('odd_u') == 'bounds':
                k2['ubu'][0] = -3.0
        if oc.get('xb'):
            k2.update(lbx=-50.0 * np.ones(n_x), ubx=np.inf * np.ones(n_x))
        if oc.get('vb') and spec['n_v']:
            k2.update(lbv_global=-4.0 * np.ones(spec['n_v']), ubv_global=4.0 * np.ones(spec['n_v']),
                      v_global_guess=np.round(np.array([r.uniform(-1, 1) for _ in range(spec['n_v'])]), 3))
        if oc.get('fq'):
            k2['f_q'] = lin(r, [x, u, ptv, pg, v]) + 0.5 * ca.sumsqr(x) + ca.sumsqr(u)
        if oc.get('fT'):
            k2['f_terminal'] = lin(r, [x, v, pg])
        if oc.get('gp'):
            k2['g_path'] = ca.vertcat(lin(r, [x, u, pg]), lin(r, [x, v]))
            k2['lbg'] = np.array([-20.0, -np.inf])
            k2['ubg'] = np.array([20.0, 30.0])
        if oc.get('gT'):
            k2['g_terminal'] = lin(r, [x, pg])
        if oc.get('rich'):
            r2 = rng_of('rich', spec['cs'])
            if 'f_terminal' in k2:
                k2['f_terminal'] += lin(r2, [ptv, x * x])
            if 'g_terminal' in k2:
                k2['g_terminal'] = ca.vertcat(k2['g_terminal'] + lin(r2, [ptv, v]), lin(r2, [x * x, ptv]))[:oc['rich']]
            if 'g_path' in k2:
                k2['g_path'] = ca.vertcat(k2['g_path'] + lin(r2, [ptv, u * u]), lin(r2, [x, u, ptv, v]))
                k2['lbg'], k2['ubg'] = np.append(k2['lbg'], 0.25), np.append(k2['ubg'], 0.25 if oc['rich'] == 1 else np.inf)
        if oc.get('comp'):
            # second factors are single variables, so that a script can choose the products
            rows, kinds = [], ''
            if 's' in oc['comp'] and spec['n_u']:
                rows.append(ca.horzcat(lin(r, [x]), lin(r, []) * u[0]))
                kinds += 's'
            if 'c' in oc['comp'] and spec['n_u']:
                rows.append(ca.horzcat(lin(r, [u]), lin(r, []) * u[0]))
                kinds += 'c'
            if 'g' in oc['comp'] and spec['n_v']:
                rows.append(ca.horzcat(lin(r, [v]), lin(r, []) * v[0]))
                kinds += 'g'
            for i, kd in enumerate(kinds if oc.get('rich') else ''):
                rows[i] = ca.horzcat(rows[i][0] + lin(r2, [pg, v] if kd == 'g' else [pg, ptv, v]), rows[i][1])
            for kd, row in zip(kinds, rows):
                pathc.append((kd, ca.Function('pc', [x, u, ptv, pg, v], [row[0] * row[1]])))
                pathab.append((kd, ca.Function('ab', [x, u, ptv, pg, v], [ca.vertcat(row[0], row[1])])))
            if rows:
                k2['g_path_comp'] = ca.vertcat(*rows)
        ocp = nosnoc.NosnocOcp(**k2)
    passed = {k: q for k, q in list(kw.items()) + list(k2.items()) + [('x0', x0)] if isinstance(q, np.ndarray)}
    passed.update({f'S{i}': q for i, q in enumerate(S_l)})
    return dict(passed=passed, model=model, opts=opts, ocp=ocp, spec=spec, o=o, c=c_l, g=g_l, S=S_l, x=x, z=z, pg=pg, ptv=ptv, u=u,
                v=v, pathc=pathc, pathab=pathab, user_fq=k2.get('f_q', ca.SX(0)), user_fT=k2.get('f_terminal', ca.SX(0)),
                user_f=ca.Function('user_f', [x, z, u, ptv, pg, v, ca.vertcat(*m_l)], [rhs]),
                user_sw=ca.Function('user_sw', [x, z, pg], [ca.vertcat(*(g_l if spec['mode'] == 'g' else
                                    [-ca.SX(q) @ e for q, e in zip(S_l, c_l)] if o['pss_mode'] == 'STEWART' else c_l))]),
                user_gp=k2.get('g_path', ca.SX(0, 1)), user_gT=k2.get('g_terminal', ca.SX(0, 1)), gz=kw.get('g_z'), x0=x0.copy(), z0=np.array(kw.get('z0', np.zeros(0))),
                pg_val=np.array(kw.get('p_global_val', np.zeros(0))),
                ptv_val=np.array(kw.get('p_time_var_val', np.zeros((o['N_stages'], spec['n_ptv'])))))


def construct(b):
    return nosnoc.NosnocSolver(b['opts'], b['model'], b['ocp'])


# ---------------------------------------------------------------------------
def gen_spec(r, sim=None, small=False, sched=True):
    """Random member of the generic family (never solved numerically)."""
    o = {}
    if sim is None:
        sim = r.random() < 0.4
    mode = pick(r, (6, 'cS'), (2, 'g'), (1, 'alpha'))
    pss = 'STEP' if mode == 'alpha' else 'STEWART' if mode == 'g' else pick(r, (1, 'STEP'), (1, 'STEWART'))
    n_sys = 1 if (mode in ('alpha',)) else pick(r, (5, 1), (3, 2), (1, 3))
    if mode == 'g' and n_sys > 1 and r.random() < 0.5:
        n_sys = 1
    sysl = []
    same = r.random() < 0.6
    for s in range(n_sys):
        n_c = pick(r, (4, 1), (2, 2))
        S = 'full' if n_c == 1 else pick(r, (2, 'full'), (1, 'tree'))
        if r.random() < 0.2:
            S = 'fullrev'
        sd = dict(n_c=n_c, S=S)
        if same and sysl:
            sd = dict(sysl[0])
        sysl.append(sd)
    spec = dict(cs=r.randrange(10 ** 6), mode=mode, n_x=pick(r, (2, 1), (4, 2), (2, 3)),
                n_u=0 if sim else pick(r, (1, 0), (4, 1), (2, 2)), n_z=pick(r, (5, 0), (1, 1), (1, 2)),
                n_ptv=pick(r, (3, 0), (2, 1), (1, 2)), n_pg=pick(r, (2, 0), (2, 1), (1, 2)),
                n_v=0 if sim else pick(r, (2, 0), (1, 1), (1, 2)), sys=sysl, cp=r.random() < 0.5,
                goff=pick(r, (2, 0.0), (1, 3.0)), zb=r.random() < 0.3, cz=r.random() < 0.5,
                ptv_val=r.random() < 0.8)
    o['pss_mode'] = pss
    o['terminal_time'] = round(r.uniform(0.2, 3.0), 3)
    o['use_fesd'] = r.random() < 0.8
    o['n_s'] = pick(r, (2, 1), (4, 2), (2, 3), (1, 4)) if not small else pick(r, (1, 1), (1, 2))
    o['irk_scheme'] = pick(r, (3, 'RADAU_IIA'), (2, 'GAUSS_LEGENDRE'))
    o['irk_representation'] = pick(r, (2, 'INTEGRAL'), (1, 'DIFFERENTIAL'), (1, 'DIFFERENTIAL_LIFT_X'))
    o['mpcc_mode'] = pick(r, (4, 'SCHOLTES_INEQ'), (2, 'SCHOLTES_EQ'), (1, 'FISCHER_BURMEISTER'), (1, 'ELASTIC_INEQ'),
                          (1, 'ELASTIC_EQ'), (1, 'ELASTIC_TWO_SIDED'), (1, 'FISCHER_BURMEISTER_IP_AUG'))
    o['cross_comp_mode'] = pick(r, (1, 'SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA'),
                                (1, 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'))
    if o['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG':
        o['cross_comp_mode'] = 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'
    o['gamma_h'] = pick(r, (2, 1.0), (1, 0.7))
    o['N_finite_elements'] = pick(r, (1, 1), (3, 2), (2, 3), (1, 4)) if not small else pick(r, (1, 1), (2, 2), (1, 3))
    o['N_stages'] = 1 if sim else pick(r, (1, 1), (3, 2), (2, 3))
    if r.random() < 0.4:
        o['Nfe_list'] = [r.randint(1, 3) for _ in range(o['N_stages'])]
    o['step_equilibration'] = pick(r, (3, 'HEURISTIC_DELTA'), (2, 'HEURISTIC_MEAN'), (1, 'L2_RELAXED_SCALED'),
                                   (1, 'L2_RELAXED'), (1, 'DIRECT'), (1, 'DIRECT_COMPLEMENTARITY'),
                                   (1, 'HEURISTIC_DELTA_H_COMP'))
    o['rho_h'] = pick(r, (2, 1.0), (1, 0.1))
    if r.random() < 0.3:
        o['fix_active_set_fe0'] = True
    o['initialization_strategy'] = pick(r, (4, 'ALL_XCURRENT_W0_START'), (3, 'ALL_XCURRENT_WOPT_PREV'),
                                        (3, 'EXTERNAL'))
    if r.random() < 0.25:
        o['equidistant_control_grid'] = False
    o['g_path_at_fe'] = r.random() < 0.3
    o['g_path_at_stg'] = r.random() < 0.3
    if o['mpcc_mode'].startswith('ELASTIC'):
        o['s_elastic_0'] = pick(r, (1, 1.0), (1, 0.25))
        o['objective_scaling_direct'] = r.random() < 0.5
    if not sim and r.random() < 0.2 or sim and r.random() < 0.12:
        o['speed_of_time_variables'] = pick(r, (2, 'SOT_LOCAL'), (1, 'SOT_GLOBAL'))
        o['speed_of_time_max'] = pick(r, (2, 8.0), (1, 25.0))
    if r.random() < 0.15:
        o['time_freezing'] = True
    if spec['n_z'] and r.random() < 0.4:
        o['rootfinder_for_initial_z'] = True
    if r.random() < 0.3:
        o['print_level'] = r.randint(1, 2)
    if sched:
        gen_schedule(r, o)
    if not sim:
        spec['ocp'] = dict(ub=r.random() < 0.7, xb=r.random() < 0.4, vb=r.random() < 0.6, fq=r.random() < 0.7,
                           fT=r.random() < 0.5, gp=r.random() < 0.4, gT=r.random() < 0.4,
                           comp=''.join(ch for ch in 'scg' if r.random() < 0.2))
    # documented restriction: least squares needs equality constraints only
    if o['mpcc_mode'] in ('SCHOLTES_EQ', 'FISCHER_BURMEISTER') and r.random() < 0.25:
        o['constraint_handling'] = 'LEAST_SQUARES'
        o['time_freezing'] = False
        if spec.get('ocp'):
            spec['ocp']['gp'] = False
    if (o['initialization_strategy'] == 'EXTERNAL' and r.random() < 0.25 and sim and mode == 'cS' and pss == 'STEWART'
            and spec['n_z'] == 0 and o['irk_scheme'] == 'RADAU_IIA'
            and o['speed_of_time_variables' if 'speed_of_time_variables' in o else 'n_s'] != 'SOT_LOCAL'):
        o['initialization_strategy'] = 'RK4_SMOOTHENED'
    spec['opts'] = o
    return spec


def gen_schedule(r, o):
    o['sigma_0'] = pick(r, (2, 1.0), (1, 0.1), (1, 10.0), (1, round(r.uniform(0.01, 5), 4)))
    o['comp_tol'] = pick(r, (3, 1e-8), (2, 1e-6), (1, 1e-4), (1, 3e-7))
    o['sigma_N'] = pick(r, (3, 1e-8), (1, 1e-6), (1, 3e-9), (1, 1e-3), (1, o['comp_tol']), (1, o['comp_tol'] / 10))
    o['homotopy_update_slope'] = pick(r, (3, 0.1), (1, 0.2), (1, 0.5), (1, 0.03))
    o['homotopy_update_rule'] = pick(r, (1, 'LINEAR'), (1, 'SUPERLINEAR'))
    o['homotopy_update_exponent'] = pick(r, (2, 1.5), (1, 1.2), (1, 2.0))
    if r.random() < 0.5:
        o['max_iter_homotopy'] = pick(r, (1, 1), (1, 2), (1, 3), (2, 6), (1, 30))
    if r.random() < 0.35:
        o['do_polishing_step'] = True


def shrink_spec(spec):
    """Simpler specs, one change at a time."""
    import copy
    for k, v in list(spec['opts'].items()):
        if DEFAULTS.get(k) != v:
            s = copy.deepcopy(spec)
            del s['opts'][k]
            if k == 'pss_mode' and spec['mode'] == 'alpha':
                continue
            yield s
    for k in ('n_u', 'n_z', 'n_ptv', 'n_pg', 'n_v'):
        if spec.get(k, 0) > 0:
            s = copy.deepcopy(spec)
            s[k] -= 1
            yield s
    if spec['n_x'] > 1:
        s = copy.deepcopy(spec)
        s['n_x'] -= 1
        yield s
    if len(spec['sys']) > 1:
        s = copy.deepcopy(spec)
        s['sys'] = s['sys'][:-1]
        yield s
    for i, sd in enumerate(spec['sys']):
        if sd['n_c'] > 1:
            s = copy.deepcopy(spec)
            s['sys'][i] = dict(n_c=1, S='full')
            if not (spec['mode'] == 'cS' and spec['opts'].get('pss_mode') == 'STEP' and len(spec['sys']) > 1):
                yield s
    if spec.get('ocp'):
        for k, v in spec['ocp'].items():
            if v:
                s = copy.deepcopy(spec)
                s['ocp'][k] = '' if k == 'comp' else False
                yield s
    if spec['mode'] != 'cS':
        s = copy.deepcopy(spec)
        s['mode'] = 'cS'
        yield s
