"""C09: a problem dump is either complete or reported as failed."""
import copy
import os
import pathlib
import pickle
import shutil
import tempfile
import numpy as np
from . import core
from .base import Check, Violation, HarnessError, classify
from .core import pick, nprng, LineTracer
from .spec import gen_spec, eff
from .hist import Session, gen_plan, limit, shrink_case, apply_op, gen_sets, check_data, REAL, STUB
from .simfs import SimFS, KINDS
from .ref import same
from .decode import lambda00_ref


def live(prob):
    """What must not change."""
    d = {}
    for k in ('w0', 'lbw', 'ubw', 'lbg', 'ubg'):
        d[k] = np.array(getattr(prob, k), dtype=float)
    for k, v in vars(prob).items():
        if k.startswith('ind_'):
            d[k] = copy.deepcopy(v)
    d['p_val'] = np.array(prob.model.p_val_ctrl_stages, dtype=float)
    d['x0'] = np.array(prob.model.x0, dtype=float)
    return d


def unchanged(a, b, when):
    for k in a:
        if not (same(a[k], b[k]) if isinstance(a[k], np.ndarray) else a[k] == b[k]):
            raise Violation('live_problem_changed', f'{k} of the live problem changed during a dump ({when})')


class Dumper:
    def __init__(self, S, fs, root):
        self.S, self.fs, self.root, self.n = S, fs, root, 0

    def verify(self, path, when):
        """The file is complete."""
        S, prob = self.S, self.S.solver.problem
        self.fs.on = False
        try:
            if not os.path.exists(path):
                raise Violation('missing_file', f'dump returned normally but there is no file ({when})')
            raw = core.REAL_OPEN(path, 'rb').read()
            try:
                data = pickle.loads(raw)
            except Exception as e:
                raise Violation('torn_file', f'dump returned normally but its file ({len(raw)} bytes) cannot be loaded: '
                                f'{type(e).__name__}: {str(e)[:100]} ({when})')
        finally:
            self.fs.on = True
        if not isinstance(data, dict):
            raise Violation('incomplete', f'file holds a {type(data).__name__}')
        for k in ('w0', 'lbw', 'ubw', 'lbg', 'ubg'):
            if k not in data:
                raise Violation('incomplete', f'{k} is missing ({when})')
            if not same(data[k], getattr(prob, k)):
                raise Violation('wrong_content', f'{k} in the file differs from the live problem ({when})')
        if not same(data['lbw'], S.lbw0) or not same(data['ubw'], S.ubw0):
            raise Violation('wrong_content', f'bounds in the file are not those of the problem ({when})')
        for k, v in vars(prob).items():
            if k.startswith('ind_'):
                if k not in data:
                    raise Violation('incomplete', f'{k} is missing ({when})')
                if data[k] != v:
                    raise Violation('wrong_content', f'{k} differs from the live problem ({when})')
        if 'p0' not in data:
            raise Violation('incomplete', f'p0 is missing ({when})')
        p = np.asarray(data['p0'], dtype=float).ravel()
        d, pd, ref = S.d, S.pd, S.ref
        if p.size != S.nlp.np_:
            raise Violation('wrong_content', f'p0 has {p.size} entries, the problem has {S.nlp.np_} parameters ({when})')
        for st in range(d.N):
            if not same(p[pd.p[st]], ref.p[st]):
                raise Violation('wrong_content', f'p0: parameters of stage {st} are {p[pd.p[st]]}, current are {ref.p[st]} '
                                f'({when})')
        if not same(p[pd.x0], ref.x0):
            raise Violation('wrong_content', f'p0: initial state is {p[pd.x0]}, current is {ref.x0} ({when})')
        if np.all(np.isfinite(ref.x0)):
            l00 = ref.l00()
            got = [(p[q],) for q in pd.l00] if d.stewart else [(p[a], p[b]) for a, b in zip(pd.l00n, pd.l00p)]
            for g, e in zip(got, l00):
                e = (e,) if d.stewart else e
                if not all(np.allclose(u, v, rtol=1e-9, atol=1e-9) for u, v in zip(g, e)):
                    raise Violation('wrong_content', f'p0: initial multipliers are {g}, expected {e} ({when})')
        for k in ('f', 'g'):
            if k not in data:
                raise Violation('incomplete', f'{k} is missing ({when})')
        rg = nprng('pt', self.n)
        for _ in range(2):
            w = rg.uniform(0.1, 1.0, d.nw)
            q = np.abs(p) + rg.uniform(0.1, 1.0, p.size)
            f0, g0 = S.nlp.fun(w, q)
            f1, g1 = float(data['f'](w, q)), np.array(data['g'](w, q)).ravel()
            if not (f0 == f1 or abs(f0 - f1) <= 1e-12 * abs(f0) or np.isnan(f0) and np.isnan(f1)):
                raise Violation('wrong_content', f'objective in the file evaluates to {f1}, live one to {f0} ({when})')
            if not same(g1, g0, 1e-12):
                raise Violation('wrong_content', f'constraints in the file evaluate differently from the live ones ({when})')

    def dump(self, plan, when, line=None, as_path=False, reuse=False, root=False):
        """One dump under faults. -> (number of I/O ops, returned normally)."""
        S, fs, W = self.S, self.fs, self.S.W
        self.n += 0 if reuse else 1
        path = os.path.join(self.root, f'd{self.n}.pickle')
        before = live(S.solver.problem)
        fs.ops, fs.plan = [], plan
        if root:
            W.rootfinder_fault = lambda: True
        fired = []

        def hook(n, fr):
            if n == line and not fired:
                fired.append(1)
                W.fault('interrupt_at_line')
                raise KeyboardInterrupt('injected')
        tr = LineTracer(hook)
        ok = False
        try:
            if line is not None:
                with tr:
                    S.solver.problem.dump(pathlib.Path(path) if as_path else path)
            else:
                S.solver.problem.dump(pathlib.Path(path) if as_path else path)
            ok = True
        except (OSError, KeyboardInterrupt, core.InjectedError) as e:
            inj = 'injected' in str(e) or (isinstance(e, OSError) and plan)
            if not inj and not fired:
                classify(e, f'dump ({when})')
            W.probe('dump_raised')
        except BaseException as e:
            if not plan and not fired and not root:
                classify(e, f'dump ({when})')
            W.probe('dump_raised')      # any exception reports the failure
        finally:
            W.rootfinder_fault = None
            fs.plan = {}
        unchanged(before, live(S.solver.problem), when)
        if ok:
            self.verify(path, when)
            W.probe('dump_complete')
        return len(fs.ops), ok


class C09(Check):
    id = 'C09'
    level = 'fault_enumeration'
    runs = {'quick': 700, 'thorough': 12000}
    cap = {'quick': 300, 'thorough': 3600}
    real = REAL + ['pickle, io.BufferedWriter', 'scratch directory on the real file system']
    stub = STUB + ['open(), os.rename/replace/fsync: fault-injecting layer over the scratch directory']
    rule = ('seeded problem + history of set/solve + dumps (between and inside solves); one dump of each run is repeated with every '
            'fault kind at every one of its I/O operations; non-trivial: at least one dump completed and one fault fired; '
            'distinct by (spec, I/O operation sequence, outcomes)')
    assumptions = ['no durability beyond close() is claimed (no power-loss model)']

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=r.random() < 0.7)
        o = spec['opts']
        o['max_iter_homotopy'] = r.randint(1, 3)
        ops = []
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.5:
                gen_sets(r, spec, ops, 1)
            else:
                plan = gen_plan(r, r.randint(1, 3), raise_rate=0.2)
                if r.random() < 0.3:
                    r.choice(plan)['dump'] = True
                for be in plan:
                    if be['k'] == 'nan' and o.get('rootfinder_for_initial_z'):
                        be['k'] = 'garbage'
                ops.append({'op': 'solve', 'plan': plan})
        ops.append({'op': 'dump', 'all': True, 'path': r.random() < 0.3, 'line': round(r.random(), 3),
                    'multi': [r.random() for _ in range(4)]})
        ops.append({'op': 'solve', 'plan': gen_plan(r, 1)})
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        root = tempfile.mkdtemp(prefix='dst09_')
        fs = None
        try:
            fs = SimFS(root, W)
            W.fs = fs
            return self.go(case, W, fs, root)
        finally:
            W.fs = None
            if fs:
                fs.restore()
            shutil.rmtree(root, ignore_errors=True)

    def go(self, case, W, fs, root):
        S = Session(case['spec'], W)
        D = Dumper(S, fs, root)
        inner = S.script

        def handler(S_, nlp, c):
            be = inner.plan[inner.i] if inner.i < len(inner.plan) else {}
            if be.get('dump'):
                D.dump({}, 'inside a solve')
                W.probe('dump_inside_solve')
            return inner(nlp, c)
        S.user_handler = handler
        sig, nt = [], False
        for op in case['ops']:
            if op['op'] == 'dump':
                n, ok = D.dump({}, 'no fault', as_path=op.get('path'))
                kinds = list(fs.ops)
                if not ok:
                    raise Violation('dump_failed', 'dump raised without any fault')
                outs = []
                if op.get('all'):
                    for i, k in enumerate(kinds):
                        for f in KINDS[k]:
                            _, ok = D.dump({i: f}, f'{f} at I/O operation {i} ({k})')
                            outs.append((i, f, ok))
                    # overwriting an earlier, complete dump; several short writes
                    for q in op.get('multi', []):
                        i = int(q * len(kinds))
                        f = KINDS[kinds[i]][int(q * 1000) % len(KINDS[kinds[i]])]
                        D.dump({}, 'no fault', reuse=False)
                        D.dump({i: f, i + 1: 'short' if i + 1 < len(kinds) and kinds[i + 1] == 'write' else 'EIO'},
                               f'{f} at I/O operation {i} while overwriting', reuse=True)
                    D.dump({}, 'interrupt at a line', line=1 + int(op['line'] * 60))
                    if S.o['rootfinder_for_initial_z']:
                        D.dump({}, 'rootfinder failure', root=True)
                for i, f, ok in outs:
                    if f not in ('short', 'short1') and ok:
                        W.probe(f'complete_despite_{f}')
                D.dump({}, 'after faults')
                nt = True
                sig.append((kinds, outs))
            elif op['op'] == 'set':
                apply_op(S, op)
            else:
                r = apply_op(S, op)
                check_data(S, r)
        return nt, (case['spec'], sig)

    shrink = staticmethod(shrink_case)


CHECK = C09()
