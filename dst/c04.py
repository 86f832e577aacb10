"""C04: independent solvers never influence each other."""
import copy
import os
import pickle
import numpy as np
from . import core
from .base import Check, Violation, HarnessError, classify
from .core import pick, h, Baton
from .spec import gen_spec, eff, build, shrink_spec
from .hist import Session, gen_plan, limit, apply_op, gen_sets, REAL, STUB, INJECTED
from .c05 import leaves
import nosnoc


def digest(o):
    out = []
    for p, v in leaves(o):
        if 'cpu' in p or 'time_nlp' in p:
            continue
        if isinstance(v, np.ndarray):
            out.append(f'{p}:{v.shape}:{h(v)}')
        elif isinstance(v, float):
            out.append(f'{p}:{v!r}')
        else:
            out.append(f'{p}:{getattr(v, "name", v)}')
    return out


def opts_view(opts):
    d = {}
    for k in sorted(vars(opts)):
        v = getattr(opts, k)
        d[k] = core._plain(v) if isinstance(v, dict) else (h(v) if isinstance(v, np.ndarray) else getattr(v, 'name', str(v)))
    for k in ('tol_ipopt', 'nlp_max_iter'):
        try:
            d[k] = str(getattr(opts, k))
        except Exception:
            pass
    return d


class Client:
    """Runs one client's program; everything it can see goes into its log."""

    def __init__(self, prog, W):
        self.prog, self.W, self.log = prog, W, []

    def note(self, *a):
        self.log.append(' '.join(str(x) for x in a))

    def __call__(self):
        W, prog = self.W, self.prog
        S = None
        for i, op in enumerate(prog['ops']):
            k = op['op']
            n0, m0 = len(W.calls), len(W.nlps)
            who = getattr(W.tls, 'name', None)
            W.tls.hold = k == 'build'
            if k == 'build':
                b = build(prog['spec'])
                self.note(i, 'fresh options', opts_view(nosnoc.NosnocOpts()))
                for a, v in op['nlpo'].items():
                    if a in ('tol_ipopt', 'nlp_max_iter'):
                        setattr(b['opts'], a, v)
                    elif a == 'top':
                        b['opts'].opts_casadi_nlp.update(v)
                    else:
                        b['opts'].opts_casadi_nlp['ipopt'][a] = v
                S = Session(prog['spec'], W, b=b)
                self.note(i, 'options', opts_view(b['opts']))
                self.note(i, 'w0', h(S.solver.problem.w0), h(S.lbw0), h(S.ubw0))
            elif k == 'bad':
                b = build(prog['spec'])
                if op['how'] == 'type':
                    b['opts'].n_s = 'two'
                elif op['how'] == 'x0':
                    b['model'].x0 = np.zeros(17)
                elif op['how'] == 'fe':
                    b['opts'].N_finite_elements = 0
                elif op['how'] == 'scheme':
                    b['opts'].n_s = 40
                try:
                    nosnoc.NosnocSolver(b['opts'], b['model'], b['ocp'])
                    self.note(i, 'bad accepted')
                except Exception as e:
                    W.fault('failed_construction')
                    self.note(i, 'bad', type(e).__name__)
            elif S is None:
                continue
            elif k == 'loop':
                S.script.start(op['plan'])
                try:
                    L = nosnoc.NosnocSimLooper(S.solver, np.array(op['x0'], dtype=float)[:S.d.n_x], op['n'])
                    ret = L.run(stop_on_failure=op['stop'])
                    self.note(i, 'loop', ret)
                    self.log += digest(L.get_results())
                except INJECTED as e:
                    if 'injected' not in str(e):
                        classify(e, 'loop')
                    self.note(i, 'loop raised', type(e).__name__)
                except BaseException as e:
                    classify(e, 'loop')
            else:
                r = apply_op(S, op)
                if r is not None:
                    self.note(i, 'solve', type(r.exc).__name__)
                    if r.result is not None:
                        self.log += digest(r.result)
            for n in W.nlps[m0:]:
                if n.who == who:
                    self.note(i, 'nlpsol', n.plugin, n.nx, n.ng, n.np_, n.opts, h(0.0) if n.nx == 0 else ','.join(n.x_names))
            for c in W.calls[n0:]:
                if c.who == who:
                    self.note(i, 'nlp', c.k, h(c.x0), h(c.p), h(c.lbx), h(c.ubx), h(c.lbg), h(c.ubg), c.status,
                              None if c.x is None else (h(c.x), repr(c.f), h(c.g)))


def solo(prog):
    """The client alone, in a fresh process."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            W = core.set_world(core.World())
            W.stdout = core.sys.stdout = core.SimStdout()
            cl = Client(prog, W)
            cl()
            o = {'log': cl.log}
        except Violation as v:
            o = {'viol': (v.kind, v.msg)}
        except BaseException as e:
            import traceback
            o = {'err': f'{type(e).__name__}: {e} ' + traceback.format_exc()[-800:]}
        with os.fdopen(wr, 'wb') as f:
            f.write(pickle.dumps(o))
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else {'err': 'solo process died'}


class C04(Check):
    id = 'C04'
    runs = {'quick': 1100, 'thorough': 20000}
    cap = {'quick': 300, 'thorough': 3600}
    real = REAL
    stub = STUB + ['Python threads: real threads, run one at a time by a seeded line-level scheduler']
    rule = ('2-4 clients (configure options incl. NLP options, build, construct, set, solve, simulate; some fail) interleaved at '
            'seeded source lines, or back to back; each client\'s log must equal its log alone in a fresh process; non-trivial: '
            'at least two clients; distinct by (programs, switch trace)')
    assumptions = ['clients are preempted at line boundaries of nosnoc code only', 'clients do not share objects']

    def gen(self, r, idx, tier):
        progs = []
        n = pick(r, (4, 2), (2, 3), (1, 4))
        twin = r.random() < 0.45
        for i in range(n):
            spec = gen_spec(r, small=True)
            if twin and progs and r.random() < 0.7:   # same shapes, other numbers / options
                spec = copy.deepcopy(progs[0]['spec'])
                if r.random() < 0.6:
                    spec['cs'] = r.randrange(10 ** 6)
                for k in ('comp_tol', 'sigma_0', 'terminal_time', 'gamma_h', 'rho_h'):
                    if r.random() < 0.4:
                        spec['opts'][k] = {'comp_tol': 1e-5, 'sigma_0': 0.5, 'terminal_time': 1.25, 'gamma_h': 0.9,
                                           'rho_h': 0.3}[k]
            o = spec['opts']
            o['max_iter_homotopy'] = r.randint(1, 3)
            ops = []
            if r.random() < 0.15:
                ops.append({'op': 'bad', 'how': r.choice(['type', 'x0', 'fe', 'scheme'])})
            nlpo = {}
            if r.random() < 0.6:
                for k in r.sample(['tol_ipopt', 'nlp_max_iter', 'acceptable_tol', 'linear_solver', 'top'], r.randint(1, 3)):
                    nlpo[k] = {'tol_ipopt': 10.0 ** -r.randint(4, 12), 'nlp_max_iter': r.randint(1, 3000),
                               'acceptable_tol': 10.0 ** -r.randint(3, 8), 'linear_solver': 'mumps',
                               'top': {'verbose': False, 'calc_lam_p': r.random() < 0.5}}[k]
            ops.append({'op': 'build', 'nlpo': nlpo})
            for _ in range(r.randint(1, 4)):
                if r.random() < 0.4:
                    gen_sets(r, spec, ops, 1)
                elif r.random() < 0.25 and 'ocp' not in spec:
                    ops.append({'op': 'loop', 'n': r.randint(1, 3), 'stop': r.random() < 0.5,
                                'x0': [round(r.uniform(-1, 1), 3) for _ in range(3)],
                                'plan': gen_plan(r, 9, conv_end=0.3, raise_rate=0.1, fault_rate=0.2)})
                else:
                    ops.append({'op': 'solve', 'plan': gen_plan(r, r.randint(1, 3), raise_rate=0.15)})
                for be in ops[-1].get('plan', []):
                    if be['k'] == 'nan' and ops[-1]['op'] == 'loop':
                        be['k'] = 'garbage'
            progs.append({'spec': spec, 'ops': ops})
        if r.random() < 0.25:      # back to back
            order = list(range(n))
            r.shuffle(order)
            plan = [(c, 10 ** 9) for c in order]
            focus = False
        else:
            focus = r.random() < 0.5     # only switches while solving
            sc = r.choice([2, 5, 15, 40, 100] if focus else [5, 50, 500, 5000, 20000])
            plan = [(r.randrange(n), max(1, int(r.expovariate(1.0 / sc)))) for _ in range(r.choice([4, 20, 100, 400]))]
            if r.random() < 0.5:   # mixed quanta: long stretches with bursts of switches
                plan = [(c, q if r.random() < 0.8 else int(10 ** r.uniform(2, 4.7))) for c, q in plan]
        return {'progs': progs, 'plan': plan, 'focus': focus}

    def run(self, case, W):
        progs = case['progs']
        n = len(progs)
        alone = [solo(p) for p in progs]
        for i, a in enumerate(alone):
            if 'err' in a:
                raise HarnessError(f'client {i} alone: ' + a['err'])
            if 'viol' in a:
                raise Violation(*a['viol'])
        cl = [Client(p, W) for p in progs]
        B = Baton(case['plan'], n, case.get('focus', False))
        errs = B.run(cl)
        W.probe('switches', B.switches)
        W.event(f'trace {B.trace[:500]}')
        for i, e in enumerate(errs):
            if e is None:
                continue
            if isinstance(e, Violation):
                raise Violation('only_interleaved:' + e.kind, f'client {i}: {e.msg}')
            if isinstance(e, HarnessError):
                raise e
            classify(e, f'client {i}')
        for i in range(n):
            a, b = alone[i]['log'], cl[i].log
            if a != b:
                j = next((k for k, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
                raise Violation('interference', f'client {i}: entry {j} is '
                                f'"{(b[j] if j < len(b) else "missing")[:400]}", alone it is '
                                f'"{(a[j] if j < len(a) else "missing")[:400]}"')
        return n >= 2, (case['progs'], B.trace)

    def shrink(self, case):
        n = len(case['progs'])
        if n > 2:
            for i in range(n):
                c = copy.deepcopy(case)
                del c['progs'][i]
                c['plan'] = [(k - (k > i), q) for k, q in c['plan'] if k != i]
                yield c
        L = len(case['plan'])
        for order in ([0, 1], [1, 0]):
            if n == 2 and L > 2:
                c = copy.deepcopy(case)
                c['plan'] = [(k, 10 ** 9) for k in order]
                yield c
        size = L // 2
        while size >= 1 and L > 1:
            for i in range(0, L, size):
                c = copy.deepcopy(case)
                del c['plan'][i:i + size]
                yield c
            size //= 2
        for i, p in enumerate(case['progs']):
            for j in range(len(p['ops'])):
                c = copy.deepcopy(case)
                del c['progs'][i]['ops'][j]
                yield c
            for j, op in enumerate(p['ops']):
                for k in list(op.get('nlpo', {})):
                    c = copy.deepcopy(case)
                    del c['progs'][i]['ops'][j]['nlpo'][k]
                    yield c
            for s in shrink_spec(p['spec']):
                c = copy.deepcopy(case)
                c['progs'][i]['spec'] = s
                yield c


CHECK = C04()
