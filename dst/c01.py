"""C01: the homotopy follows its configured schedule whatever the NLP solver does."""
import numpy as np
from .base import Check, Violation
from .core import pick
from .spec import gen_spec, eff
from .decode import comp_res, path_prods
from .hist import Session, gen_sets, gen_plan, limit, shrink_case, apply_op, check_data, REAL, STUB
from .ref import same

K = 1e-9


def next_sigma(o, s):
    if o['homotopy_update_rule'] == 'LINEAR':
        return o['homotopy_update_slope'] * s
    return max(o['sigma_N'], min(o['homotopy_update_slope'] * s, s ** o['homotopy_update_exponent']))


def close(a, b):
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def check_schedule(S, r):
    """Judge the NLP calls of one solve; returns (number of homotopy calls, outcome string)."""
    o, d, pd = S.o, S.d, S.pd
    n = limit(o)
    sig = o['sigma_0']
    sol = []
    prev = None
    check_data(S, r)
    stop = None       # True: the schedule must have ended, None: may have ended, False: must go on
    nhom = 0
    for i, c in enumerate(r.calls):
        s = c.p[pd.sigma]
        pol = o['do_polishing_step'] and i > 0 and s == 0.0 and stop is not False
        if pol:
            break
        if stop is True:
            raise Violation('schedule_prolonged', f'NLP #{i} (sigma={s:g}) posed although the schedule had ended '
                            f'after {i} NLPs: {r.why}')
        if i > 0:
            sig = next_sigma(o, sig)
        if not close(s, sig):
            raise Violation('sigma', f'NLP #{i} was posed with sigma={s!r}, the schedule requires {sig!r}')
        # warm start
        if i == 0:
            pass
        elif not same(c.x0, prev):
            raise Violation('warm_start', f'NLP #{i} does not start at the iterate of NLP #{i - 1}')
        # bounds within one solve
        if i > 0:
            for k in ('lbx', 'ubx', 'lbg', 'ubg'):
                if not same(getattr(c, k), getattr(r.calls[0], k)):
                    raise Violation('bounds_changed', f'NLP #{i}: {k} differs from NLP #0')
        nhom = i + 1
        prev = c.x
        if c.x is None:     # the sub-solver raised: the solve is over
            return nhom, 'raised'
        # must the schedule end here?
        res = comp_res(d, c.x, r.l00, path_prods(S.b, d, pd, c.x, c.p))
        tol = o['comp_tol']
        r.why = ''
        if res < tol * (1 - K):
            stop, r.why = True, f'complementarity residual {res:.3e} < comp_tol {tol:g}'
        elif i + 1 >= n:
            stop, r.why = True, f'iteration limit {n}'
        elif sig <= o['sigma_N'] and (sig == o['sigma_N'] or sig < o['sigma_N'] * (1 - K)):
            stop, r.why = True, f'sigma {sig:g} <= sigma_N {o["sigma_N"]:g}'
        elif abs(res - tol) <= tol * K or abs(sig - o['sigma_N']) <= o['sigma_N'] * K:
            stop = None
        else:
            stop = False
            r.why = f'residual {res:.3e} >= {tol:g}, sigma {sig:g} > {o["sigma_N"]:g}, {i + 1} of at most {n} NLPs'
    if r.exc is None:
        if nhom == 0:
            raise Violation('no_nlp_solved', 'solve() returned without posing an NLP')
        if stop is False:
            raise Violation('schedule_cut', f'the schedule ended after {nhom} NLPs although it had to go on: {r.why}')
        if o['do_polishing_step'] and len(r.calls) == nhom:
            raise Violation('no_polishing', 'no polishing NLP was posed')
        wa = r.result['w_all']
        exp = [r.calls[0].x0] + [c.x for c in r.calls[:nhom]]
        for i in range(min(len(wa), len(exp))):
            got, want = np.array(wa[i], dtype=float), np.array(exp[i], dtype=float)
            if i == 0:      # pinned entries of the first guess are reported before or after pinning
                got[r.pin[0] + r.pin[1]] = want[r.pin[0] + r.pin[1]] = 0.0
            if not same(got, want):
                raise Violation('w_all', f'reported iterate {i} is not the iterate of the schedule')
        if len(wa) < len(exp):
            raise Violation('w_all', f'{len(wa)} iterates reported, {len(exp)} expected')
    return nhom, r.why


class C01(Check):
    id = 'C01'
    runs = {'quick': 3500, 'thorough': 60000}
    cap = {'quick': 240, 'thorough': 3000}
    real, stub = REAL, STUB
    rule = ('seeded random problem + options + history of solves under a scripted sub-solver (status, iterate with residual '
            'just below/above comp_tol at one chosen pair, NaN, garbage, no progress, exceptions); non-trivial: at least one '
            'complete homotopy with two or more NLPs or an early stop; distinct by (spec, NLP counts, stop reasons, statuses)')
    assumptions = ['sigma within 1e-9 (relative) of sigma_N and residual within 1e-9 of comp_tol may go either way']

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=r.random() < 0.6)
        ops = []
        n = limit(eff(spec['opts']))
        for k in range(pick(r, (3, 1), (3, 2), (1, 3))):
            if k or r.random() < 0.5:
                gen_sets(r, spec, ops, r.randint(0, 3))
            m = r.randint(1, n) if r.random() < 0.6 else n
            ops.append({'op': 'solve', 'plan': gen_plan(r, m, fault_rate=r.choice([0.0, 0.3, 0.9]),
                                                        raise_rate=0.1, conv_end=0.7)})
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        S = Session(case['spec'], W)
        sig = []
        nt = False
        for op in case['ops']:
            r = apply_op(S, op)
            if r is None:
                continue
            nh, why = check_schedule(S, r)
            W.probe('stop:' + ''.join(ch for ch in why if ch.isalpha() or ch == ' ').split('  ')[0][:24])
            nt |= nh >= 2 or 'residual' in why
            sig.append((nh, why, [c.status for c in r.calls]))
        return nt, (case['spec'], sig)

    shrink = staticmethod(shrink_case)


CHECK = C01()
