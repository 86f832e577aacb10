"""C03: a solver can be reused after failed or interrupted solves."""
import copy
import os
import pickle
import numpy as np
from . import core
from .base import Check, Violation, HarnessError, classify
from .core import pick, LineTracer
from .spec import gen_spec, eff
from .hist import Session, gen_plan, limit, shrink_case, apply_op, gen_sets, REAL, STUB, INJECTED
from .c05 import frozen
from .ref import same

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'RuntimeError': core.InjectedError}


def snap(calls):
    return [dict(x0=c.x0, p=c.p, lbx=c.lbx, ubx=c.ubx, lbg=c.lbg, ubg=c.ubg, extra=c.extra, x=c.x, f=c.f, g=c.g)
            for c in calls]


def observe(S, plan):
    """One solve: everything visible of it."""
    n0 = len(S.W.calls)
    S.script.start(plan)
    out = {'exc': None, 'res': None}
    try:
        res = S.solver.solve()
        out['res'] = [(p, v if isinstance(v, (np.ndarray, float, int, str, type(None))) else getattr(v, 'name', repr(v)))
                      for p, v in frozen(res)]
    except INJECTED as e:
        if 'injected' not in str(e) and not isinstance(e, KeyboardInterrupt):
            classify(e, 'final solve()')
        out['exc'] = type(e).__name__
    except BaseException as e:
        classify(e, 'final solve()')
    out['calls'] = snap(S.calls_since(n0))
    return out


class Fresh:
    """A process forked before the history starts; builds a fresh solver on demand."""

    def __init__(self, spec):
        self.rq, w1 = os.pipe()
        r2, self.an = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve(spec)
            finally:
                os._exit(0)
        os.close(self.rq)
        os.close(self.an)
        self.w, self.r = w1, r2

    def serve(self, spec):
        with os.fdopen(self.rq, 'rb') as f:
            data = f.read()
        if not data:
            return
        alts, plan = pickle.loads(data)
        out = []
        for st in alts:
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    W = core.set_world(core.World())
                    W.stdout = core.sys.stdout = core.SimStdout()
                    S = Session(spec, W)
                    S.set('x0', st['x0'])
                    if S.d.n_pg:
                        S.set('p_global', st['p'][0, S.d.n_ptv:])
                    if S.d.n_ptv:
                        S.set('p_time_var', st['p'][:, :S.d.n_ptv])
                    S.set('w', st['w0'])
                    o = observe(S, plan)
                except Violation as v:
                    o = {'viol': (v.kind, v.msg)}
                except BaseException as e:
                    o = {'err': f'{type(e).__name__}: {e}'}
                with os.fdopen(wr, 'wb') as f:
                    f.write(pickle.dumps(o))
                os._exit(0)
            os.close(wr)
            with os.fdopen(rd, 'rb') as f:
                d = f.read()
            os.waitpid(pid, 0)
            out.append(pickle.loads(d) if d else {'err': 'fresh process died'})
        with os.fdopen(self.an, 'wb') as f:
            f.write(pickle.dumps(out))

    def ask(self, alts, plan):
        with os.fdopen(self.w, 'wb') as f:
            f.write(pickle.dumps((alts, plan)))
        self.w = None
        with os.fdopen(self.r, 'rb') as f:
            d = f.read()
        self.r = None
        os.waitpid(self.pid, 0)
        self.pid = None
        if not d:
            raise HarnessError('fresh process gave no answer')
        return pickle.loads(d)

    def close(self):
        for fd in (self.w, self.r):
            if fd is not None:
                os.close(fd)
        if self.pid:
            os.waitpid(self.pid, 0)


def differ(a, b):
    """First difference between two observations, or None."""
    if len(a['calls']) != len(b['calls']):
        return 'nlp_count', f"{len(a['calls'])} NLPs posed, a fresh solver poses {len(b['calls'])}"
    for i, (p, q) in enumerate(zip(a['calls'], b['calls'])):
        for k in ('x0', 'p', 'lbx', 'ubx', 'lbg', 'ubg', 'f', 'g'):
            u, v = p[k], q[k]
            if u is None and v is None:
                continue
            if u is None or v is None or not same(u, v):
                j = np.where(~((u == v) | (np.isnan(u) & np.isnan(v))))[0] if np.ndim(u) and np.shape(u) == np.shape(v) else []
                return 'nlp_' + k, f'NLP #{i}: {k} differs from the one of a fresh solver (entries {list(j[:6])})'
        if sorted(p['extra']) != sorted(q['extra']) or any(not same(p['extra'][k], q['extra'][k]) for k in p['extra']):
            return 'nlp_extra', f'NLP #{i}: other arguments {sorted(p["extra"])} differ'
    if a['exc'] != b['exc']:
        return 'exception', f"ended with {a['exc']}, a fresh solver with {b['exc']}"
    if (a['res'] is None) != (b['res'] is None):
        return 'result', 'only one of them returned'
    if a['res'] is not None:
        if [p for p, _ in a['res']] != [p for p, _ in b['res']]:
            return 'result', 'results have different parts'
        for (p, u), (_, v) in zip(a['res'], b['res']):
            if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
                ok = same(u, v)
            elif isinstance(u, float) and isinstance(v, float):
                ok = u == v or (np.isnan(u) and np.isnan(v)) or ('time' in p and abs(u - v) < 1e-3)
            else:
                ok = u == v
            if not ok:
                return 'result', f'{p} is {u}, a fresh solver returns {v}'
    return None


class C03(Check):
    id = 'C03'
    runs = {'quick': 2000, 'thorough': 40000}
    cap = {'quick': 240, 'thorough': 3000}
    real, stub = REAL, STUB
    rule = ('seeded problem + history of set/solve with failures and interruptions (NLP exception, output error, rootfinder '
            'failure, KeyboardInterrupt/MemoryError at a chosen source line of solve()); the last solve is compared with a fresh '
            'solver in a fresh process; non-trivial: an interruption or failure fired before the last solve; distinct by (spec, '
            'interruption points)')
    assumptions = ['a solve interrupted after its last NLP has returned may count as completed or not']

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=r.random() < 0.7)
        o = spec['opts']
        o['initialization_strategy'] = pick(r, (3, 'ALL_XCURRENT_W0_START'), (4, 'ALL_XCURRENT_WOPT_PREV'), (3, 'EXTERNAL'),
                                            ) if o['initialization_strategy'] != 'RK4_SMOOTHENED' else 'RK4_SMOOTHENED'
        o['max_iter_homotopy'] = r.randint(1, 4)
        n = o['max_iter_homotopy']
        ops = []

        def solve(last=False):
            m = n + 4
            plan = gen_plan(r, r.randint(1, n), fault_rate=r.choice([0.0, 0.5]), raise_rate=0.0 if last else 0.15)
            while len(plan) < m:
                plan.append({'k': r.choice(['regions', 'res', 'garbage', 'straddle']), 'm': 0.5, 'it': 4, 'dt': 0.1,
                             'seed': r.randrange(10 ** 6), 'st': r.choice(['Solve_Succeeded', 'Restoration_Failed'])})
            op = {'op': 'solve', 'plan': plan}
            if not last:
                q = r.random()
                if q < 0.5:
                    op['line'] = round(r.random() ** r.choice([1, 1, 0.1, 4]), 4)
                    op['exc'] = pick(r, (3, 'KeyboardInterrupt'), (1, 'MemoryError'))
                elif q < 0.6 and o.get('print_level'):
                    op['out'] = r.randint(1, 12)
                elif q < 0.8 and o.get('rootfinder_for_initial_z'):
                    op['root'] = True
            return op
        for _ in range(r.randint(1, 5)):
            if r.random() < 0.4:
                gen_sets(r, spec, ops, r.randint(1, 2))
            ops.append(solve())
        if r.random() < 0.4:
            gen_sets(r, spec, ops, r.randint(1, 2))
        ops.append(solve(True))
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        fresh = Fresh(case['spec'])
        try:
            return self.go(case, W, fresh)
        finally:
            fresh.close()

    def go(self, case, W, fresh):
        S = Session(case['spec'], W)
        lines = 600
        sig, nt = [], False
        ops = case['ops']
        for op in ops[:-1]:
            if op['op'] == 'set':
                apply_op(S, op)
                continue
            at = None
            if 'line' in op:
                at = 1 + int(op['line'] * lines)
            if op.get('out'):
                W.stdout.fail_at = W.stdout.n + op['out']
            if op.get('root'):
                W.rootfinder_fault = lambda: True
            fired = []

            def hook(n, fr):
                if at is not None and n == at and not fired:
                    fired.append(f'{os.path.basename(fr.f_code.co_filename)}:{fr.f_code.co_name}')
                    W.fault('interrupt_at_line')
                    W.probe(f'interrupt_in:{fr.f_code.co_name}')
                    W.event(f'fault:interrupt {fired[0]} line event {n}')
                    raise EXC[op['exc']]('injected')
            tr = LineTracer(hook)
            with tr:
                r = S.solve(op['plan'])
            W.stdout.fail_at = None
            W.rootfinder_fault = None
            if r.exc is None:
                lines = tr.n
                if fired:
                    raise Violation('interrupt_swallowed', f'solve() swallowed the exception raised in {fired[0]}')
            elif S.ref.strategy == 'ALL_XCURRENT_WOPT_PREV' and r.calls and r.calls[-1].x is not None:
                # interrupted after an NLP had returned: it may have been the last one
                S.pending.append((r.calls[-1].x.copy(), len(S.sets)))
            if r.exc is None:
                S.pending = []
            nt |= r.exc is not None or any(c.status in core.BAD for c in r.calls)
            sig.append((fired, type(r.exc).__name__))
        last = ops[-1]
        if last['op'] != 'solve':
            return False, None
        st = {'x0': S.ref.x0.copy(), 'p': S.ref.p.copy(), 'w0': S.ref.w0.copy()}
        alts = [st]
        for x, k in S.pending:
            R = copy.copy(S.ref)
            R.w0 = x.copy()
            for f, v in S.sets[k:]:
                if f not in ('x0', 'p_global', 'p_time_var'):
                    R.set(f, v)
            alts.append(dict(st, w0=R.w0.copy()))
        plan = last['plan']
        ans = fresh.ask(alts, plan)
        for a in ans:
            if 'err' in a:
                raise HarnessError('fresh process: ' + a['err'])
            if 'viol' in a:
                raise Violation(*a['viol'])
        mine = observe(S, plan)
        W.event(f"final calls={len(mine['calls'])} exc={mine['exc']}")
        diffs = [differ(mine, a) for a in ans]
        if all(d is not None for d in diffs):
            raise Violation('differs_from_fresh:' + diffs[0][0], f'after {len(S.recs)} earlier solves {sig}: {diffs[0][1]}')
        W.probe('compared')
        return nt, (case['spec'], sig)

    def shrink(self, case):
        for i, op in enumerate(case['ops']):
            for k in ('line', 'out', 'root'):
                if k in op:
                    c = copy.deepcopy(case)
                    del c['ops'][i][k]
                    yield c
        yield from shrink_case(case)


CHECK = C03()
