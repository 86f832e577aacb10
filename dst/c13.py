"""C13: inconsistent data is rejected, and a rejection leaves nothing behind."""
import copy
import dataclasses
import numpy as np
import casadi as ca
from . import core
from .base import Check, Violation, HarnessError, classify
from .core import pick, rng_of
from .spec import gen_spec, eff, build, make_opts, shrink_spec, DEFAULTS, E
from .hist import Session, gen_plan, gen_sets, apply_op, shrink_ops, limit, REAL, STUB
from .ref import gen_value
from .c04 import digest, opts_view
from .core import h
import nosnoc

BAD = {}


def bad(f):
    BAD[f.__name__] = f
    return f


def put(o, k, v):
    """Set an attribute; the client restores it afterwards."""
    old = getattr(o, k)
    setattr(o, k, v)
    return lambda: setattr(o, k, old)


def put_opt(b, k, v):
    """Set an option; corrected with the value the client meant in the first place."""
    old = getattr(make_opts(b['spec']['opts']), k)
    setattr(b['opts'], k, v)
    return lambda: setattr(b['opts'], k, old)


def item(o, k, i, v):
    """Replace an item of a list attribute."""
    new = list(getattr(o, k))
    new[i] = v
    return put(o, k, new)


def wrong_len(r, n, lo=0):
    k = r.choice([q for q in (n - 1, n + 1, n + 2, 2 * n + 1) if q >= lo and q != n])
    return np.round(np.array([r.uniform(-1, 1) for _ in range(k)]), 3)


NUM = ('terminal_time', 'n_s', 'gamma_h', 'N_finite_elements', 'comp_tol', 'sigma_0', 'sigma_N', 'homotopy_update_slope', 'N_stages',
       'rho_h', 'max_iter_homotopy', 'print_level', 's_elastic_0', 'speed_of_time_max', 'time_freezing_tolerance',
       'smoothing_parameter', 'homotopy_update_exponent', 'fb_ip_aug1_weight')
ENUM = {'initialization_strategy': 'InitializationStrategy', 'irk_representation': 'IrkRepresentation', 'irk_scheme': 'IrkSchemes',
        'cross_comp_mode': 'CrossComplementarityMode', 'mpcc_mode': 'MpccMode', 'constraint_handling': 'ConstraintHandling',
        'pss_mode': 'PssMode', 'homotopy_update_rule': 'HomotopyUpdateRule', 'step_equilibration': 'StepEquilibrationMode',
        'speed_of_time_variables': 'SpeedOfTimeVariableMode'}


# -- options ---------------------------------------------------------------------
@bad
def opt_type(b, r):
    return put_opt(b, r.choice(NUM), r.choice(['two', None, [1.0], {}, 1j]))


@bad
def opt_enum(b, r):
    k = r.choice(sorted(ENUM))
    other = [m for n, m in sorted(E.items()) if type(m).__name__ != ENUM[k]]
    return put_opt(b, k, r.choice(['RADAU_IIA', None, 1, r.choice(other), r.choice(other)]))


@bad
def opt_flag(b, r):
    return put_opt(b, r.choice(['use_fesd', 'do_polishing_step', 'equidistant_control_grid', 'g_path_at_fe', 'time_freezing']),
               r.choice([None, 'yes', 2, 0.5]))


@bad
def nfe_list(b, r):
    N = b['o']['N_stages']
    n = r.choice([q for q in (N - 1, N + 1, N + 2) if q > 0])
    return put_opt(b, 'Nfe_list', [r.randint(1, 3) for _ in range(n)])


@bad
def stages(b, r):
    o = b['o']
    if not (o['Nfe_list'] or (b['spec']['n_ptv'] and b['spec'].get('ptv_val', True))):
        return None
    return put_opt(b, 'N_stages', r.choice([q for q in (1, 2, 3, 4) if q != o['N_stages']]))


@bad
def n_s(b, r):
    return put_opt(b, 'n_s', r.choice([10, 11, 40]))


@bad
def stewart_inclusion(b, r):
    if b['spec']['mode'] == 'alpha':
        return put_opt(b, 'pss_mode', E['STEWART'])
    if b['spec']['mode'] == 'g':
        return put_opt(b, 'pss_mode', E['STEP'])
    return None


@bad
def no_clock(b, r):
    if b['model'].t_var is not None:
        return put(b['model'], 't_var', None)
    return put_opt(b, 'time_freezing', True)


@bad
def lsq_inequalities(b, r):
    o = b['o']
    if o['constraint_handling'] == 'LEAST_SQUARES':
        return put_opt(b, 'mpcc_mode', r.choice([E['SCHOLTES_INEQ'], E['ELASTIC_INEQ']]))
    gp = bool(b['spec'].get('ocp') and b['spec']['ocp'].get('gp'))
    if gp or o['mpcc_mode'].endswith('_INEQ') or o['mpcc_mode'] == 'ELASTIC_TWO_SIDED':
        return put_opt(b, 'constraint_handling', E['LEAST_SQUARES'])
    return None


@bad
def lsq_upper(b, r):
    """Only the upper bound tells that it is an inequality."""
    if b['o']['constraint_handling'] != 'LEAST_SQUARES' or b['ocp'] is None:
        return None
    oc = b['ocp']
    us = [put(oc, 'g_path', b['x'][0] + 1), put(oc, 'lbg', np.zeros(1)), put(oc, 'ubg', np.array([5.0]))]
    return lambda: [u() for u in us]


@bad
def ip_aug_sums(b, r):
    if b['o']['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG':
        return put_opt(b, 'cross_comp_mode', E['SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA']) if b['o']['use_fesd'] else None
    if b['o']['cross_comp_mode'].startswith('SUM') and b['o']['use_fesd'] and b['o']['constraint_handling'] == 'EXACT':
        return put_opt(b, 'mpcc_mode', E['FISCHER_BURMEISTER_IP_AUG'])
    return None


@bad
def smoothing(b, r):
    if b['o']['initialization_strategy'] != 'RK4_SMOOTHENED':
        return None
    return put_opt(b, 'smoothing_parameter', r.choice([0.0, -1.0]))


# -- model -----------------------------------------------------------------------
@bad
def x0_len(b, r):
    return put(b['model'], 'x0', wrong_len(r, b['spec']['n_x'], 1))


@bad
def z_len(b, r):
    k = r.choice(['z0', 'lbz', 'ubz'])
    return put(b['model'], k, wrong_len(r, b['spec']['n_z']))


@bad
def p_len(b, r):
    return put(b['model'], 'p_global_val', wrong_len(r, b['spec']['n_pg']))


@bad
def ptv_shape(b, r):
    n, N = b['spec']['n_ptv'], b['o']['N_stages']
    sh = r.choice([q for q in ((N + 1, n), (N - 1, n), (N, n + 1), (n, N), (N * n,)) if q != (N, n) and min(q) >= 0])
    return put(b['model'], 'p_time_var_val', np.round(np.array([r.uniform(-1, 1) for _ in range(int(np.prod(sh)))]), 3).reshape(sh))


@bad
def not_a_list(b, r):
    m = b['model']
    ks = [k for k in ('F', 'c', 'S', 'g_Stewart') if getattr(m, k) is not None]
    if not ks or len(b['spec']['sys']) > 1:
        return None
    k = r.choice(ks)
    return put(m, k, getattr(m, k)[0])


@bad
def list_len(b, r):
    """One list is longer or shorter than the others."""
    m = b['model']
    ks = [k for k in ('F', 'c', 'S', 'g_Stewart') if getattr(m, k) is not None]
    if m.F is None:
        return None
    k = r.choice(ks)
    L = getattr(m, k)
    return put(m, k, L[:-1] if r.random() < 0.5 else L + [L[0]])


@bad
def extra_regions(b, r):
    """A subsystem whose vector fields are missing."""
    m = b['model']
    if m.F is None or m.c is None:
        return None
    us = [put(m, 'c', m.c + [m.c[0]]), put(m, 'S', m.S + [m.S[0]])]
    return lambda: [u() for u in us]


@bad
def f_cols(b, r):
    m = b['model']
    if m.F is None:
        return None
    i = r.randrange(len(m.F))
    F = m.F[i]
    return item(m, 'F', i, F[:, :-1] if r.random() < 0.5 else ca.horzcat(F, F[:, 0]))


@bad
def f_single(b, r):
    """One vector field only: not a switching system."""
    m = b['model']
    if m.F is None:
        return None
    i = r.randrange(len(m.F))
    us = [item(m, 'F', i, m.F[i][:, 0])]
    if m.S is not None:
        us.append(item(m, 'S', i, m.S[i][:1, :]))
    else:
        us.append(item(m, 'g_Stewart', i, m.g_Stewart[i][0]))
    return lambda: [u() for u in us]


@bad
def alpha_lists(b, r):
    """More switching functions and multipliers than subsystems."""
    m = b['model']
    if m.alpha is None:
        return None
    us = [put(m, 'c', m.c + [b['x'][0] + 1]), put(m, 'alpha', m.alpha + [ca.SX.sym('more', 1)])]
    return lambda: [u() for u in us]


@bad
def f_rows(b, r):
    m = b['model']
    if m.F is None:
        k = 'f_x'
    else:
        k = 'F'
    i = r.randrange(len(getattr(m, k)))
    F = getattr(m, k)[i]
    return item(m, k, i, F[:-1, :] if r.random() < 0.5 and F.shape[0] > 1 else ca.vertcat(F, F[0, :]))


@bad
def f_one_row(b, r):
    m = b['model']
    k = 'f_x' if m.F is None else 'F'
    if b['spec']['n_x'] == 1:
        return None
    i = r.randrange(len(getattr(m, k)))
    return item(m, k, i, getattr(m, k)[i][0, :])


@bad
def s_cols(b, r):
    m = b['model']
    if m.S is None:
        return None
    i = r.randrange(len(m.S))
    S = m.S[i]
    return item(m, 'S', i, S[:, :-1] if r.random() < 0.5 and S.shape[1] > 1 else np.hstack((S, S[:, :1])))


@bad
def s_rows(b, r):
    m = b['model']
    if m.S is None:
        return None
    i = r.randrange(len(m.S))
    S = m.S[i]
    return item(m, 'S', i, S[:-1, :] if r.random() < 0.5 else np.vstack((S, S[:1, :])))


@bad
def c_len(b, r):
    m = b['model']
    if m.c is None:
        return None
    i = r.randrange(len(m.c))
    c = m.c[i]
    return item(m, 'c', i, c[:-1] if r.random() < 0.5 and c.shape[0] > 1 else ca.vertcat(c, c[0] + 1))


@bad
def g_len(b, r):
    m = b['model']
    if m.g_Stewart is None:
        return None
    i = r.randrange(len(m.g_Stewart))
    g = m.g_Stewart[i]
    return item(m, 'g_Stewart', i, g[:-1] if r.random() < 0.5 else ca.vertcat(g, g[0]))


@bad
def alpha_len(b, r):
    m = b['model']
    if m.alpha is None:
        return None
    a = m.alpha[0]
    return item(m, 'alpha', 0, ca.vertcat(a, ca.SX.sym('more', 1)))


@bad
def unknown_symbol(b, r):
    m, s = b['model'], ca.SX.sym('unknown')
    k = r.choice([q for q in ('F', 'c', 'g_Stewart', 'f_x') if getattr(m, q) is not None])
    return item(m, k, 0, getattr(m, k)[0] + s)


@bad
def undeclared_parameter(b, r):
    m = b['model']
    if not b['spec']['n_pg'] or m.F is None:
        return None
    us = [put(m, 'p_global', ca.SX.sym('p_global_dummy', 0, 1)), put(m, 'p_global_val', np.array([]))]
    return lambda: [u() for u in us]


# -- OCP -------------------------------------------------------------------------
def ocp_len(names, n):
    def f(b, r):
        if b['ocp'] is None:
            return None
        return put(b['ocp'], r.choice(names), wrong_len(r, n(b)))
    return f


BAD['u_len'] = ocp_len(['lbu', 'ubu', 'u_guess'], lambda b: b['spec']['n_u'])
BAD['xb_len'] = ocp_len(['lbx', 'ubx'], lambda b: b['spec']['n_x'])
BAD['v_len'] = ocp_len(['lbv_global', 'ubv_global', 'v_global_guess'], lambda b: b['spec']['n_v'])
BAD['g_path_len'] = ocp_len(['lbg', 'ubg'], lambda b: b['ocp'].g_path.shape[0])


@bad
def comp_width(b, r):
    if b['ocp'] is None:
        return None
    e = b['x'][0]
    return put(b['ocp'], 'g_path_comp', r.choice([ca.vertcat(e), ca.horzcat(e, e, e)]))


@bad
def vector_cost(b, r):
    if b['ocp'] is None:
        return None
    e = b['x'][0]
    return put(b['ocp'], r.choice(['f_q', 'f_terminal']), ca.vertcat(e, 2 * e))


@bad
def ocp_unknown(b, r):
    if b['ocp'] is None:
        return None
    k = r.choice(['f_q', 'f_terminal', 'g_terminal'])
    return put(b['ocp'], k, ca.SX.sym('unknown') + b['x'][0])


# -- constructor of the model ----------------------------------------------------------
def ctor(b, r):
    """Contradictory constructor arguments."""
    x = ca.SX.sym('x', 1)
    F, c, S, a = [ca.horzcat(x, -x)], [x], [np.array([[1], [-1]])], [ca.SX.sym('a', 1)]
    g = [ca.vertcat(x, -x)]
    k = r.choice([dict(F=F, c=c, S=S, f_x=[x * a[0]], alpha=a), dict(c=c, S=S), dict(F=F, c=c, S=S, g_Stewart=g), dict(F=F), dict(F=F, c=c),
                  dict(F=F, S=S), dict(f_x=[x * a[0]], c=c)])
    return lambda: nosnoc.NosnocModel(x=x, x0=np.zeros(1), **k)


# -- changes of consistent options between two solvers built from the same objects -------
def gen_change(r, spec):
    o = eff(spec['opts'])
    new = {}
    for k, vals in (('N_finite_elements', [1, 2, 3, 4]), ('comp_tol', [1e-3, 1e-5, 1e-7, 1e-9]), ('sigma_0', [0.5, 1.0, 10.0]),
                    ('homotopy_update_slope', [0.1, 0.3]), ('n_s', [1, 2, 3]), ('irk_scheme', ['RADAU_IIA', 'GAUSS_LEGENDRE']),
                    ('irk_representation', ['INTEGRAL', 'DIFFERENTIAL', 'DIFFERENTIAL_LIFT_X']), ('terminal_time', [0.5, 2.0]),
                    ('use_fesd', [True, False]), ('N_stages', [1, 2, 3]), ('gamma_h', [1.0, 0.5]),
                    ('cross_comp_mode', ['SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA', 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER']),
                    ('pss_mode', ['STEWART', 'STEP'])):
        if r.random() < 0.3:
            v = r.choice([q for q in vals if q != o[k]])
            if k == 'N_stages' and (o['Nfe_list'] or spec['n_ptv'] and spec.get('ptv_val', True) or not spec.get('ocp')):
                continue
            if k == 'pss_mode' and (spec['mode'] != 'cS' or o['initialization_strategy'] == 'RK4_SMOOTHENED'):
                continue
            if k == 'irk_scheme' and o['initialization_strategy'] == 'RK4_SMOOTHENED':
                continue
            if k == 'cross_comp_mode' and o['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG':
                continue
            new[k] = v
    return new


def looper(S, r):
    """Simulation loop with parameters of the wrong shape, or for an optimal control problem."""
    d, n = S.d, r.randint(1, 3)
    if S.b['ocp'] is not None or d.N > 1 or d.n_u:
        return nosnoc.NosnocSimLooper(S.solver, S.b['x0'], n)
    sh = r.choice([(n + 1, d.n_pg), (n, d.n_pg + 1), (d.n_pg,)] + ([(n - 1, d.n_pg)] if n > 1 else []))
    return nosnoc.NosnocSimLooper(S.solver, S.b['x0'], n, p_values=np.zeros(sh))


def lsq(spec):
    o = spec['opts']
    if o.get('mpcc_mode', '').startswith('ELASTIC') or spec.get('ocp') is None:
        return
    o.update(constraint_handling='LEAST_SQUARES', time_freezing=False)
    if o.get('mpcc_mode') not in ('SCHOLTES_EQ', 'FISCHER_BURMEISTER'):
        o['mpcc_mode'] = 'SCHOLTES_EQ'
    spec['ocp']['gp'] = False


class Log:
    def __init__(self, W):
        self.W, self.log = W, []

    def note(self, *a):
        self.log.append(' '.join(str(x) for x in a))

    def use(self, spec, b, ops):
        """Build the solver from these objects and use it; everything observable goes into the log."""
        W = self.W
        m0 = len(W.nlps)
        S = Session(spec, W, b=b)
        names = {f.name for f in dataclasses.fields(b['opts']) if f.name[0] != '_'}
        self.note('options', {k: q for k, q in opts_view(b['opts']).items() if k in names})
        p = S.solver.problem
        self.note('w0', h(p.w0), h(S.lbw0), h(S.ubw0), h(np.array(p.lbg, dtype=float)), h(np.array(p.ubg, dtype=float)))
        for n in W.nlps[m0:]:
            self.note('nlpsol', n.plugin, n.nx, n.ng, n.np_, n.opts, ','.join(n.x_names))
        for op in ops:
            n0 = len(W.calls)
            if op['op'] == 'badset':
                self.badset(S, op)
                continue
            r = apply_op(S, op)
            if r is not None:
                self.note('solve', type(r.exc).__name__)
                if r.result is not None:
                    self.log += digest(r.result)
            for c in W.calls[n0:]:
                self.note('nlp', c.k, h(c.x0), h(c.p), h(c.lbx), h(c.ubx), h(c.lbg), h(c.ubg), c.status,
                          None if c.x is None else (h(c.x), repr(c.f), h(c.g)))
        return S

    def badset(self, S, op):
        """set() with data of the wrong shape: rejected and without effect."""
        d, r = S.d, rng_of('badset', op['seed'])
        f = op['field']
        v = gen_value(S.b, d, f, op['seed'], op.get('var', 0))
        if v is None:
            return
        v = np.asarray(v, dtype=float)
        if r.random() < 0.1:
            f = r.choice(['X0', 'lam', 'x_0', 'h', 'p', ''])
        elif f in ('x', 'theta'):
            n = max(d.N, sum(d.nfe)) + r.randint(1, 3)
            v = np.vstack([v[:1]] * n) if r.random() < 0.5 else np.hstack((v, v))
        elif f in ('p_time_var', 'u'):
            # NOTE: one row of controls for all stages is a shorthand, hence at least two
            v = v[:-1] if len(v) > 2 and r.random() < 0.5 else np.vstack((v, v[:1])) if r.random() < 0.5 else np.hstack((v, v))
        else:
            v = np.concatenate((v, v[:2]))
        W = self.W
        try:
            S.solver.set(f, v)
        except Exception as e:
            if isinstance(e, Warning):
                raise Violation('bad_set_accepted', f'set({f!r}) with shape {v.shape} was applied')
            W.fault('rejected_set')
            W.event(f'bad set {f} rejected')
            return
        raise Violation('bad_set_accepted', f'set({f!r}) with shape {v.shape} was accepted (n_x={d.n_x}, n_u={d.n_u}, stages {d.N}, '
                        f'finite elements {d.nfe}, {d.nw} variables)')


class C13(Check):
    id = 'C13'
    runs = {'quick': 2500, 'thorough': 40000}
    cap = {'quick': 300, 'thorough': 3600}
    real = REAL
    stub = STUB
    rule = ('seeded problem; client faults: data that are inconsistent in one place (options, model, OCP, set()), before, between and '
            'after correct ones; each must be rejected, and the objects, once corrected or changed, must yield the solver that fresh '
            'objects yield (all NLP arguments and results compared); non-trivial: at least one solve; distinct by (case)')
    assumptions = ['one fault at a time; the client corrects exactly the inconsistent data']

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=True)
        spec['opts']['max_iter_homotopy'] = 0 if r.random() < 0.5 else r.randint(1, 3)
        att = []
        for _ in range(pick(r, (1, 0), (4, 1), (2, 2))):
            att.append([r.choice(sorted(BAD)), r.randrange(10 ** 6)])
            if att[-1][0] == 'lsq_upper':
                lsq(spec)
        case = {'spec': spec, 'att': att, 'ctor': r.randrange(10 ** 6) if r.random() < 0.1 else None}
        if r.random() < 0.3 or not att:
            case['change'] = gen_change(r, spec)
            case['first'] = r.random() < 0.6      # the first solver is also used
        ops = []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.5:
                gen_sets(r, spec, ops, 1)
            if r.random() < 0.3:
                gen_sets(r, spec, ops, 1)
                ops[-1]['op'] = 'badset'
            ops.append({'op': 'solve', 'plan': gen_plan(r, r.randint(1, 3))})
        case['ops'] = ops
        if r.random() < 0.2:
            case['looper'] = r.randrange(1, 10 ** 6)
        return case

    def run(self, case, W):
        spec = case['spec']
        b = build(spec)
        if case.get('ctor') is not None:
            f = ctor(b, rng_of('ctor', case['ctor']))
            self.rejected('ctor', f, W)
        if case.get('change') is not None and case.get('first'):
            Log(W).use(spec, b, [{'op': 'solve', 'plan': []}])
        for kind, seed in case['att']:
            self.attempt(kind, seed, b, W)
        s2 = spec
        if case.get('change'):
            s2 = copy.deepcopy(spec)
            o = eff(spec['opts'])
            if not case.get('first'):
                from .spec import construct
                try:
                    construct(b)
                except BaseException as e:
                    classify(e, 'building the first solver')
            for k, v in case['change'].items():
                setattr(b['opts'], k, E[v] if isinstance(v, str) else v)
                s2['opts'][k] = v
            b.update(spec=s2, o=eff(s2['opts']))
            if b['ptv_val'].shape[0] != b['o']['N_stages']:
                b['ptv_val'] = np.zeros((b['o']['N_stages'], s2['n_ptv']))
        ops = case['ops']
        A, F = Log(W), Log(W)
        S = A.use(s2, b, ops)
        if case.get('looper'):
            self.rejected('looper', lambda: looper(S, rng_of('looper', case['looper'])), W)
        F.use(s2, build(s2), [q for q in ops if q['op'] != 'badset'])
        if A.log != F.log:
            j = next((k for k, (p, q) in enumerate(zip(A.log, F.log)) if p != q), min(len(A.log), len(F.log)))
            raise Violation('trace_left', f'after {case["att"]} and {case.get("change")}: '
                            f'"{diff(A.log[j] if j < len(A.log) else "missing", F.log[j] if j < len(F.log) else "missing")}"')
        nt = any(q['op'] == 'solve' for q in ops)
        return nt, (spec, case['att'], case.get('change'), ops)

    def attempt(self, kind, seed, b, W):
        from .spec import construct
        undo = BAD[kind](b, rng_of('bad', seed))
        if undo is None:
            return
        W.probe('bad_' + kind)
        self.rejected(kind, lambda: construct(b), W)
        undo()

    def rejected(self, kind, f, W):
        try:
            f()
        except (Violation, HarnessError, core.Livelock, AssertionError):
            raise
        except Exception as e:
            W.fault('rejected_data')
            W.event(f'{kind} rejected {type(e).__name__}')
            return
        raise Violation('accepted:' + kind, f'inconsistent data ({kind}) were accepted')

    def shrink(self, case):
        for i in range(len(case['att'])):
            c = copy.deepcopy(case)
            del c['att'][i]
            yield c
        for k in ('ctor', 'change', 'looper'):
            if case.get(k) is not None:
                c = copy.deepcopy(case)
                c[k] = None
                yield c
        for k in list(case.get('change') or ()):
            c = copy.deepcopy(case)
            del c['change'][k]
            yield c
        yield from shrink_ops(case)
        for s in shrink_spec(case['spec']):
            c = copy.deepcopy(case)
            c['spec'] = s
            yield c


def diff(a, b):
    i = next((k for k, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    i = max(0, i - 80)
    return f'...{a[i:i + 200]}" instead of "...{b[i:i + 200]}'


CHECK = C13()
