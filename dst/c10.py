"""C10: polishing only pins converged complementarity variables."""
import numpy as np
import casadi as ca
from .base import Check, Violation
from .core import pick, GOOD
from .spec import gen_spec, eff
from .decode import flat, fes
from .hist import Session, gen_sets, gen_plan, limit, shrink_case, apply_op, REAL, STUB
from .ref import same
from .script import comps
from .c02 import split, check_stats, check_traj

NM = 1e-6


def tau_index(nlp):
    """Index of the smoothing parameter tau if the NLP depends on it (interior-point augmented Fischer-Burmeister)."""
    if not hasattr(nlp, 'tau_ix'):
        ix = [i for i, n in enumerate(nlp.p_names) if n == 'tau']
        nlp.tau_ix = ix[0] if len(ix) == 1 and ca.depends_on(ca.vertcat(nlp.f_sym, nlp.g_sym), nlp.p_sym[ix[0]]) else None
    return nlp.tau_ix


def check_polish(S, r, base):
    """base: (lbx, ubx) of the homotopy NLPs without per-solve pins (first solve)."""
    o, d, pd = S.o, S.d, S.pd
    hom, pol = split(S, r)
    if not hom:
        raise Violation('no_homotopy', 'solve() posed no homotopy NLP')
    first_theta = set(flat(d.theta[0][0])) if o['fix_active_set_fe0'] and d.stewart else set()
    h0 = hom[0]
    for k in ('lbx', 'ubx'):
        for c in hom:
            diff = [i for i in np.where(getattr(c, k) != base[k])[0] if i not in first_theta]
            if diff:
                raise Violation('pins_leaked', f'homotopy NLP #{c.k} has {k}[{c.nlp.x_names[diff[0]]}]='
                                f'{getattr(c, k)[diff[0]]}, the first solve had {base[k][diff[0]]}')
    if not pol:
        if r.exc is None:
            raise Violation('no_polishing', 'no NLP at zero relaxation was posed')
        return 0
    w = hom[-1].x
    eps = 10 * o['comp_tol']
    kind = {}
    for nm, c, f, k, ix in comps(d):
        for i in ix:
            kind[i] = nm
    npin = 0
    tau = tau_index(pol[0].nlp)
    for j, c in enumerate(pol):
        if tau is not None and c.p[tau] != 0.0:
            raise Violation('polish_relaxed', f'polishing NLP {j} is still smoothed with tau={c.p[tau]!r}')
        if not same(c.x0, w):
            raise Violation('polish_start', f'polishing NLP {j} does not start at the last homotopy iterate')
        for k in ('lbg', 'ubg'):
            if not same(getattr(c, k), getattr(h0, k)):
                raise Violation('polish_g', f'polishing NLP {j} has other constraint bounds')
        for q, nme in ((pd.x0, 'initial state'), (flat(pd.p), 'parameters')):
            if not same(c.p[q], h0.p[q]):
                raise Violation('polish_p', f'polishing NLP {j} has other {nme}')
        for q in ([pd.l00] if d.stewart else [pd.l00n, pd.l00p]):
            if not same(c.p[flat(q)], h0.p[flat(q)]):
                raise Violation('polish_p', f'polishing NLP {j} has other initial multipliers')
        for i in range(d.nw):
            lo, hi = c.lbx[i], c.ubx[i]
            nme, v = c.nlp.x_names[i], w[i]
            kept = (lo == base['lbx'][i] and hi == base['ubx'][i]) or \
                   (i in first_theta and lo == h0.lbx[i] and hi == h0.ubx[i])
            if i not in kind:
                if not kept:
                    raise Violation('polish_pinned_other', f'polishing NLP {j} changed the bounds of {nme} '
                                    f'(iterate {v!r}) to [{lo}, {hi}]')
                continue
            at0, at1 = lo == 0.0 and hi == 0.0, lo == 1.0 and hi == 1.0
            if not (kept or at0 or at1):
                raise Violation('polish_bounds', f'polishing NLP {j} bounds {nme} (iterate {v!r}) by [{lo}, {hi}]')
            in0, in1 = abs(v) < eps * (1 - NM), abs(v - 1) < eps * (1 - NM)
            out0 = not (abs(v) < eps * (1 + NM)) and not v < 0
            out1 = not (abs(v - 1) < eps * (1 + NM))
            npin += in0 + in1
            if in0 and not at0 or in1 and not at1:
                raise Violation('polish_not_pinned', f'polishing NLP {j} leaves {nme}={v!r} in [{lo}, {hi}] although it is '
                                f'within {eps:g} of {0 if in0 else 1}')
            if (at0 and out0 or at1 and out1) and not kept:
                raise Violation('polish_pinned_far', f'polishing NLP {j} pins {nme}={v!r} to {lo} although it is farther '
                                f'than {eps:g} away')
    return npin


class C10(Check):
    id = 'C10'
    runs = {'quick': 3500, 'thorough': 60000}
    cap = {'quick': 240, 'thorough': 3000}
    real, stub = REAL, STUB
    rule = ('seeded problem + options with polishing + history of solves whose last homotopy iterate has complementarity (and '
            'other) variables at, just inside and just outside the tolerance; non-trivial: a polishing NLP with at least one '
            'variable that must be pinned; distinct by (spec, number of pins, statuses)')
    assumptions = ['values within 1e-6 (relative) of the tolerance, and values below minus the tolerance, may go either way',
                   'one polishing NLP or several identical ones are both accepted']

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=r.random() < 0.4)
        o = spec['opts']
        o['do_polishing_step'] = True
        if r.random() < 0.6:
            o['max_iter_homotopy'] = r.randint(1, 3)
        ops = []
        n = limit(eff(o))
        for k in range(pick(r, (3, 1), (4, 2), (1, 3))):
            if k and r.random() < 0.5:
                gen_sets(r, spec, ops, r.randint(1, 2))
            if r.random() < 0.8:
                plan = gen_plan(r, n - 1, fault_rate=0.3, conv_end=0.0)
                plan.append({'k': 'straddle', 'seed': r.randrange(10 ** 6), 'it': 3, 'dt': 0.1,
                             'st': pick(r, (3, 'Solve_Succeeded'), (1, 'Infeasible_Problem_Detected'))})
            else:
                plan = gen_plan(r, r.randint(1, n), conv_end=0.8)
            for q in range(4):
                plan.append({'k': r.choice(['straddle', 'res', 'garbage', 'nan']), 'm': 0.5, 'seed': r.randrange(10 ** 6),
                             'it': r.randrange(300), 'dt': round(r.uniform(1e-3, 1), 5),
                             'st': pick(r, (2, 'Solve_Succeeded'), (1, 'Feasible_Point_Found'), (2, 'Restoration_Failed'))})
            if r.random() < 0.15:
                q = r.randrange(len(plan))
                plan[q]['raise'], plan[q]['when'] = r.choice(['RuntimeError', 'KeyboardInterrupt']), 'after'
            ops.append({'op': 'solve', 'plan': plan})
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        S = Session(case['spec'], W)
        base, sig, nt = None, [], False
        for op in case['ops']:
            r = apply_op(S, op)
            if r is None:
                continue
            if base is None:
                if not r.calls:
                    raise Violation('no_homotopy', 'solve() posed no NLP')
                base = {k: getattr(r.calls[0], k).copy() for k in ('lbx', 'ubx')}
                if S.o['fix_active_set_fe0'] and S.d.stewart:   # remove the documented pins of this solve
                    for i in flat(S.d.theta[0][0]):
                        base['lbx'][i] = S.lbw0[i]
                        base['ubx'][i] = S.ubw0[i]
            n = check_polish(S, r, base)
            W.probe('pins', n)
            if r.exc is None:
                check_stats(S, r)
                check_traj(S, r)
            nt |= n > 0
            sig.append((n, [c.status for c in r.calls]))
        return nt, (case['spec'], sig)

    shrink = staticmethod(shrink_case)


CHECK = C10()
