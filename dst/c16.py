"""C16: looking at a problem, an iterate or the timings shows the live data and changes nothing."""
import copy
import os
import re
import shutil
import tempfile
import numpy as np
import casadi as ca
from . import core
from .base import Check, Violation, HarnessError, classify
from .core import pick, nprng, LineTracer
from .spec import gen_spec, eff
from .hist import Session, gen_sets, gen_plan, shrink_case, apply_op, REAL, STUB
from .decode import flat, fes
from .c02 import trajectories, seq
from .c05 import leaves, equal
from .c09 import live, unchanged
from .simfs import SimFS
from .ref import same

NUM = re.compile(r'(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)(?![\w.])')
SKIP = ('cpu_time_nlp', 'cpu_nlp')


def near(a, b, tol=6e-3):
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def nums(s):
    return [float(q) for q in NUM.findall(s)]


class Look:
    """One inspection of a session."""

    def __init__(self, S, root):
        self.S, self.root, self.n = S, root, 0

    def call(self, op, fn):
        """fn under the faults of op -> (output, finished, value)."""
        S, W = self.S, self.S.W
        prob = S.solver.problem
        before = live(prob)
        opts = self.opts()
        W.stdout.keep = out = []
        if op.get('out') is not None:
            W.stdout.fail_at = W.stdout.n + 1 + op['out']
        W.fs.ops, W.fs.plan = [], {int(k): v for k, v in op.get('io', {}).items()}
        fired = []

        def hook(n, fr):
            if n == op.get('line') and not fired:
                fired.append(1)
                W.fault('interrupt_at_line')
                raise KeyboardInterrupt('injected')
        fin, val = False, None
        try:
            if op.get('line') is not None:
                with LineTracer(hook):
                    val = fn()
            else:
                val = fn()
            fin = True
        except NotImplementedError:
            W.probe('not_implemented')
        except BaseException as e:
            if not (fired or 'injected' in str(e) or op.get('io')):
                classify(e, f'{op["what"]}')
            W.probe('look_failed')
        finally:
            W.stdout.keep, W.stdout.fail_at, W.fs.plan = None, None, {}
        unchanged(before, live(prob), op['what'])
        if self.opts() != opts:
            raise Violation('options_changed', f'{op["what"]} changed the options')
        return ''.join(out), fin, val

    def opts(self):
        return {k: repr(v) for k, v in vars(self.S.solver.opts).items()}

    def do(self, op):
        self.n += 1
        getattr(self, 'do_' + op['what'])(op)

    # -- printing -------------------------------------------------------------------
    def do_print(self, op):
        S = self.S
        prob = S.solver.problem
        out, fin, _ = self.call(op, S.solver.print_problem if op['seed'] % 2 else prob.print)
        if not fin:
            return
        S.W.probe('printed')
        lines = out.split('\n')
        lb, ub = np.ravel(prob.lbg), np.ravel(prob.ubg)
        rows = {}
        for ln in lines:
            m = re.match(r'\s*(\d+)\s*:\s*(.*)', ln)
            if m:
                rows.setdefault(int(m[1]), []).append(m[2])
        for i in range(len(lb)):
            txt = str(S.nlp.g_sym[i])
            for ln in rows.get(i, []):
                v = nums(ln)
                if txt in ln and len(v) >= 2 and near(v[0], lb[i]) and near(v[1], ub[i]):
                    break
            else:
                raise Violation('print_constraint', f'constraint {i} with bounds {lb[i]}, {ub[i]} is not printed: {rows.get(i)}')
        ne = 0
        for i, n in enumerate(S.nlp.x_names):
            w = (prob.w0[i], prob.lbw[i], prob.ubw[i])
            bad = 'BOUND' if w[1] > w[2] else 'W0' if w[0] < w[1] or w[0] > w[2] else ''
            ne += bool(bad)
            for ln in rows.get(i, []):
                if n in ln.split() and all(near(a, b) for a, b in zip(nums(ln.replace(n, ' ')), w)) and len(nums(ln.replace(n, ' '))) >= 3:
                    break
            else:
                raise Violation('print_variable', f'variable {n} with guess and bounds {w} is not printed: {rows.get(i)}')
            got = 'BOUND' if 'BOUND ERROR' in ln else 'W0' if 'W0 ERROR' in ln else ''
            if got != bad:
                raise Violation('print_flag', f'variable {n} with guess {w[0]} and bounds {w[1:]} is reported as {got or "correct"}')
            if bad:
                S.W.probe('flag_' + bad)
        m = re.findall(r'errors:\s*(\d+)', out)
        if not m or int(m[-1]) != ne:
            raise Violation('print_flag', f'{m} errors reported, there are {ne}')
        if str(prob.cost) not in out:
            raise Violation('print_cost', 'the objective is not printed')

    def do_vector(self, op):
        import nosnoc
        S = self.S
        out, fin, _ = self.call(op, lambda: nosnoc.print_casadi_vector(S.solver.problem.w))
        if fin and out.split() != list(S.nlp.x_names):
            raise Violation('print_vector', f'{out.split()[:5]}... instead of {list(S.nlp.x_names)[:5]}...')

    def do_repr(self, op):
        S = self.S
        prob = S.solver.problem

        def fn():
            return [repr(prob.model), repr(prob), repr(prob.ocp) if prob.ocp is not None else '', prob.is_sim_problem()]
        out, fin, v = self.call(op, fn)
        if not fin:
            return
        sp = S.spec
        want = S.d.n_u == 0 and S.d.N == 1 and S.b['ocp'] is None
        if bool(v[3]) != want:
            raise Violation('is_sim_problem', f'is_sim_problem() is {v[3]} with {S.d.n_u} controls, {S.d.N} stages, OCP {sp.get("ocp")}')

    # -- iterates ----------------------------------------------------------------------
    def iterates(self, op):
        """Some iterates and the initial state they are read with."""
        S = self.S
        g = nprng('it', op['seed'])
        pool = [np.asarray(w, dtype=float) for r in S.recs if r.result is not None for w in r.result['w_all']]
        ws = [pool[g.integers(len(pool))] if pool and g.random() < 0.7 else np.round(g.normal(size=S.d.nw), 3)
              for _ in range(g.integers(1, 4))]
        return [w for w in ws if np.all(np.isfinite(w))] or [np.round(g.normal(size=S.d.nw), 3)]

    def do_results(self, op):
        import nosnoc
        S = self.S
        w = self.iterates(op)[0].copy()
        old = w.copy()
        out, fin, R = self.call(op, lambda: nosnoc.get_results_from_primal_vector(S.solver.problem, w))
        if not same(w, old):
            raise Violation('iterate_changed', 'get_results_from_primal_vector changed the vector')
        if not fin:
            return
        S.W.probe('decoded')
        for k, e in trajectories(S, old, S.ref.x0).items():
            if all(x.size == 0 for x in e):
                continue
            seq('trajectory', R[k], e, k)
        w += 100.0
        for k, e in trajectories(S, old, S.ref.x0).items():
            if not all(x.size == 0 for x in e):
                seq('aliased', R[k], e, k + ' after the vector was changed')

    def do_iterates(self, op):
        import nosnoc
        import matplotlib.pyplot as plt
        S = self.S
        d = S.d
        ws = self.iterates(op)
        old = [w.copy() for w in ws]
        titles = [f'it {op["seed"]} {i}' for i in range(len(ws))] if op['seed'] % 3 else []
        kw = {}
        name = None
        if titles:
            kw['title_list'] = titles
        if op.get('file'):
            name = os.path.join(self.root, f'f{self.n}.{op["file"]}')
            kw['figure_filename'] = name
        try:
            out, fin, _ = self.call(op, lambda: nosnoc.plot_iterates(S.solver.problem, ws, **kw))
            for w, q in zip(ws, old):
                if not same(w, q):
                    raise Violation('iterate_changed', 'plot_iterates changed an iterate')
            if not d.stewart:
                if fin:
                    raise HarnessError('plot in step mode')
                return
            if not fin:
                return
            S.W.probe('plotted')
            if name is not None and not op.get('io') and not os.path.getsize(name):
                raise Violation('plot_file', f'no figure in {name}')
            fig = plt.gcf()
            axes = [(ax, [np.asarray(ln.get_ydata(), dtype=float) for ln in ax.get_lines()]) for ax in fig.axes]
            T = [trajectories(S, w, S.ref.x0) for w in old]
            for i, w in enumerate(old):
                lam = [w[flat(d.lam[c][f][k])] for c, f in fes(d) for k in range(len(d.lam[c][f]))]
                mu = [w[flat(d.mu[c][f][k])] for c, f in fes(d) for k in range(len(d.mu[c][f]))]
                th = [w[flat(d.theta[c][f][k])] for c, f in fes(d) for k in range(d.n_s)]
                want = {'lambda and mu': list(np.array(lam).T) + list(np.array(mu).T), 'theta': list(np.array(th).T),
                        'states': list(np.array(T[i]['x_all_list']).T)}
                for what, L in want.items():
                    for ax, got in axes:
                        if len(got) == len(L) and all(any(same(a, b) for b in got) for a in L):
                            break
                    else:
                        raise Violation('plot', f'{what} of iterate {i} are not plotted (lines with '
                                        f'{[[len(q) for q in g] for _, g in axes]} points)')
                if titles and not any(ax.get_title() == titles[i] for ax, _ in axes):
                    raise Violation('plot', f'title {titles[i]} is missing')
        finally:
            plt.close('all')

    def do_timings(self, op):
        import nosnoc
        import matplotlib.pyplot as plt
        g = nprng('tim', op['seed'])
        t = np.round(g.exponential(size=(g.integers(1, 6), g.integers(1, 5))), 4)
        t[g.random(t.shape) < 0.2] = 0.0
        old = t.copy()
        kw = dict(latexify=False)
        if op['seed'] % 2:
            kw['title'] = f'title {op["seed"]}'
        if op.get('file'):
            kw['figure_filename'] = os.path.join(self.root, f't{self.n}.{op["file"]}')
        try:
            out, fin, _ = self.call(op, lambda: nosnoc.plot_timings(t, **kw))
            if not same(t, old):
                raise Violation('timings_changed', 'plot_timings changed the timings')
            if not fin:
                return
            self.S.W.probe('timings')
            ax = plt.gcf().axes[0]
            top = np.zeros(len(t))
            cells = []
            for p in ax.patches:
                i = int(round(p.get_x() + p.get_width() / 2))
                cells.append((i, round(p.get_height(), 9)))
                top[i] = max(top[i], p.get_y() + p.get_height())
            if sorted(cells) != sorted((i, round(float(v), 9)) for i, row in enumerate(old) for v in row):
                raise Violation('plot_timings', f'bars {sorted(cells)} for timings {old}')
            if not np.allclose(top, old.sum(axis=1)):
                raise Violation('plot_timings', f'bars end at {top}, the totals are {old.sum(axis=1)}')
            m = float(np.mean(old.sum(axis=1)))
            if not any(np.allclose(np.asarray(ln.get_ydata(), dtype=float), m) for ln in ax.get_lines()):
                raise Violation('plot_timings', f'the mean {m} is not plotted')
            if kw.get('title') and ax.get_title() != kw['title']:
                raise Violation('plot_timings', 'title is missing')
        finally:
            plt.close('all')

    # -- vector field ---------------------------------------------------------------------
    def do_field(self, op):
        S, b, d = self.S, self.S.b, self.S.d
        g = nprng('vf', op['seed'])
        sig = float(10 ** g.uniform(-3, -0.3))
        m = b['model']
        p = np.round(g.normal(size=d.n_ptv + d.n_pg), 3)
        v = np.round(g.normal(size=d.n_v), 3)
        x, u, z = np.round(g.normal(size=d.n_x), 3), np.round(g.normal(size=d.n_u), 3), np.round(g.normal(size=d.n_z), 3)
        kw = {}
        if len(p):
            kw['p'] = p
        if len(v):
            kw['v'] = v

        def fn():
            f = S.solver.create_function_calculate_vector_field(sig, **kw)
            return [f(x, u, z) if d.n_z else f(x, u) for _ in range(2)]
        out, fin, val = self.call(op, fn)
        if not fin:
            return
        if not d.stewart or d.n_sys != 1:
            raise HarnessError('vector field of several subsystems')
        par = ca.vertcat(b['ptv'], b['pg'])
        ge = b['g'][0] if b['g'] else -ca.DM(b['S'][0]) @ b['c'][0]
        gv = ca.Function('g', [b['x'], b['z'], par], [ge])(x, z, p).full().ravel()
        Fv = ca.Function('F', [b['x'], b['z'], b['u'], par, b['v']], [m.F[0]])(x, z, u, p, v).full()
        # lambda_i theta_i = sigma^2 / 2, sum of theta = 1, lambda = g - mu
        lo, hi = sig ** 2 / 2, len(gv) * sig ** 2 / 2
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if np.sum(sig ** 2 / 2 / (gv - gv.min() + mid)) > 1:
                lo = mid
            else:
                hi = mid
        th = sig ** 2 / 2 / (gv - gv.min() + mid)
        want = Fv @ th
        S.W.probe('vector_field')
        gap = np.sort(gv)[1] - gv.min()
        for q in val:
            q = np.asarray(q, dtype=float).ravel()
            if q.shape != want.shape or not np.allclose(q, want, atol=1e-5 * (1 + np.max(np.abs(Fv)))):
                raise Violation('vector_field', f'sigma={sig:.3g}, switching functions {gv}: vector field {q} instead of {want} '
                                f'(region field {Fv[:, int(np.argmin(gv))]}, distance {gap:.3g})')


WHAT = ['print', 'print', 'print', 'vector', 'repr', 'results', 'iterates', 'iterates', 'timings', 'field']


class C16(Check):
    id = 'C16'
    runs = {'quick': 1500, 'thorough': 25000}
    cap = {'quick': 300, 'thorough': 3000}
    real = REAL + ['matplotlib (Agg)', 'scratch directory on the real file system']
    stub = STUB + ['open(): fault-injecting layer over the scratch directory']
    rule = ('seeded problem + history of set/solve with failures and interrupts, with inspections in between (printing, plotting, decoding '
            'iterates, vector field), some of them hit by output errors, disk errors and interrupts; compared with the same history '
            'without inspections, and what is shown with the live data; non-trivial: at least one inspection finished and one '
            'solve compared; distinct by (spec, ops)')
    assumptions = ['plots are inspected as matplotlib objects, not as pixels', 'the vector field function needs one subsystem in Stewart form']

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=r.random() < 0.8)
        o = spec['opts']
        if r.random() < 0.5 and spec['mode'] == 'cS':
            spec['sys'] = spec['sys'][:1]
            o['pss_mode'] = 'STEWART'
        o['max_iter_homotopy'] = r.randint(1, 3)
        oc = spec.get('ocp')
        if oc and spec['n_u'] and r.random() < 0.5:
            oc['ub'] = True
            oc['odd_u'] = r.choice(['guess', 'guess', 'bounds'])
        ops = []
        for _ in range(r.randint(2, 6)):
            if r.random() < 0.3:
                gen_sets(r, spec, ops, 1)
            elif r.random() < 0.4:
                ops.append({'op': 'solve', 'plan': gen_plan(r, r.randint(1, 3), raise_rate=0.2)})
            else:
                q = {'op': 'look', 'what': r.choice(WHAT), 'seed': r.randrange(10 ** 6)}
                f = r.random()
                if q['what'] in ('iterates', 'timings') and r.random() < 0.4:
                    q['file'] = r.choice(['png', 'svg'])
                if f < 0.15 and q['what'] in ('print', 'vector'):
                    q['out'] = r.randrange(30)
                elif f < 0.3:
                    q['line'] = r.randint(1, 80)
                elif f < 0.5 and q.get('file'):
                    q['io'] = {str(r.randint(0, 3)): r.choice(['ENOSPC', 'EIO', 'EACCES'])}
                ops.append(q)
        ops.append({'op': 'look', 'what': r.choice(WHAT), 'seed': r.randrange(10 ** 6)})
        ops.append({'op': 'solve', 'plan': gen_plan(r, 2)})
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        root = tempfile.mkdtemp(prefix='dst16_')
        fs = None
        try:
            fs = SimFS(root, W)
            W.fs = fs
            return self.go(case, W, root)
        finally:
            W.fs = None
            if fs:
                fs.restore()
            shutil.rmtree(root, ignore_errors=True)

    def go(self, case, W, root):
        # the history without inspections
        A = Session(copy.deepcopy(case['spec']), W)
        for op in case['ops']:
            if op['op'] != 'look':
                apply_op(A, op)
        S = Session(case['spec'], W)
        L = Look(S, root)
        k, n, looks = 0, 0, 0
        for op in case['ops']:
            if op['op'] == 'look':
                L.do(op)
                looks += 1
                continue
            r = apply_op(S, op)
            if r is None:
                continue
            a = A.recs[k]
            k += 1
            if looks:
                self.compare(a, r)
                n += 1
        return n > 0, (case['spec'], case['ops'])

    def compare(self, a, r):
        at = f'solve {r.n} after inspections: '
        if type(a.exc) is not type(r.exc):
            raise Violation('changed', at + f'{r.exc!r} instead of {a.exc!r}')
        if len(a.calls) != len(r.calls):
            raise Violation('changed', at + f'{len(r.calls)} NLPs instead of {len(a.calls)}')
        for i, (c, e) in enumerate(zip(r.calls, a.calls)):
            for q in ('x0', 'p', 'lbx', 'ubx', 'lbg', 'ubg'):
                if not same(getattr(c, q), getattr(e, q)):
                    raise Violation('changed', at + f'NLP {i} is posed with another {q}')
            if not equal(c.f, e.f):
                raise Violation('changed', at + f'NLP {i} has another objective value')
        if r.result is None:
            return
        x, y = dict(leaves({q: v for q, v in a.result.items() if q not in SKIP})), \
            dict(leaves({q: v for q, v in r.result.items() if q not in SKIP}))
        for q in sorted(set(x) | set(y)):
            if q not in x or q not in y or not equal(x[q], y[q]):
                raise Violation('changed', at + f'result {q} is {y.get(q)} instead of {x.get(q)}')

    def shrink(self, case):
        for i, op in enumerate(case['ops']):
            for k in ('out', 'line', 'io', 'file'):
                if op.get(k) is not None:
                    c = copy.deepcopy(case)
                    del c['ops'][i][k]
                    yield c
        yield from shrink_case(case)


CHECK = C16()
