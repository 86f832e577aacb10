"""C05: set() reaches exactly the next solve, and caller data stays the caller's."""
import copy
import numpy as np
from .base import Check, Violation, HarnessError
from .core import pick, nprng
from .spec import gen_spec, eff
from .hist import Session, gen_plan, limit, shrink_case, apply_op, check_data, gen_sets, REAL, STUB
from .ref import same, gen_value


def leaves(o, path=''):
    """All arrays and numbers of a (nested) result."""
    if isinstance(o, dict):
        for k in sorted(o):
            yield from leaves(o[k], f'{path}.{k}' if path else str(k))
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from leaves(v, f'{path}[{i}]')
    else:
        yield path, o


def frozen(o):
    return [(p, v.copy() if isinstance(v, np.ndarray) else v) for p, v in leaves(o)]


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return same(a, b)
    return a is b or a == b or (isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b))


def layout(v, how):
    """The same numbers in another memory layout."""
    if how == 'strided':
        big = np.full(tuple(2 * n for n in v.shape), 7.5)
        view = big[tuple(slice(0, 2 * n, 2) for n in v.shape)]
        view[...] = v
        return view
    if how == 'fortran':
        return np.asfortranarray(v)
    if how == 'int':
        return np.round(v * 3).astype(int)
    if how == 'readonly':
        v = v.copy()
        v.setflags(write=False)
        return v
    return v.copy()


class C05(Check):
    id = 'C05'
    runs = {'quick': 3500, 'thorough': 60000}
    cap = {'quick': 240, 'thorough': 3000}
    real, stub = REAL, STUB
    rule = ('seeded problem + history of set (every field and layout), rejected set, in-place mutation of arrays handed over '
            'earlier, solves that succeed, fail or raise; non-trivial: at least one set followed by a solve; distinct by '
            '(spec, op kinds, fields)')
    assumptions = ['set("x"/"w") raising a Warning after it has stored the value is the documented behaviour for strategies '
                   'other than EXTERNAL']

    def gen(self, r, idx, tier):
        spec = gen_spec(r, small=True)
        o = spec['opts']
        o['initialization_strategy'] = pick(r, (2, 'ALL_XCURRENT_W0_START'), (3, 'ALL_XCURRENT_WOPT_PREV'), (5, 'EXTERNAL'))
        o['max_iter_homotopy'] = r.randint(1, 4)
        ops = []
        for _ in range(r.randint(3, 12)):
            k = pick(r, (6, 'set'), (3, 'solve'), (2, 'mutate'), (1, 'badset'), (1, 'scribble'))
            if k == 'set':
                gen_sets(r, spec, ops, 1)
                ops[-1]['lay'] = pick(r, (4, 'plain'), (1, 'strided'), (1, 'fortran'), (1, 'int'), (1, 'readonly'))
            elif k == 'solve':
                ops.append({'op': 'solve', 'plan': gen_plan(r, r.randint(1, limit(eff(o))), raise_rate=0.2)})
            elif k == 'scribble':
                ops.append({'op': 'scribble', 'i': r.randrange(100), 'seed': r.randrange(10 ** 6)})
            elif k == 'mutate':
                ops.append({'op': 'mutate', 'i': r.randrange(100), 'seed': r.randrange(10 ** 6), 'all': r.random() < 0.5})
            else:
                ops.append({'op': 'badset', 'what': r.choice(['x', 'theta', 'field'])})
        ops.append({'op': 'solve', 'plan': gen_plan(r, 1)})
        return {'spec': spec, 'ops': ops}

    def run(self, case, W):
        S = Session(case['spec'], W)
        given = [(n, a, a.copy()) for n, a in S.b['passed'].items()]
        nfixed = len(given)
        results = []
        sig, nset, nt = [], 0, False
        for op in case['ops']:
            k = op['op']
            if k == 'set':
                v = gen_value(S.b, S.d, op['field'], op['seed'], op.get('var', 0))
                if v is None:
                    continue
                v = layout(v, op.get('lay', 'plain'))
                S.set(op['field'], v)
                given.append((f"{op['field']} (set)", v, v.copy()))
                nset += 1
            elif k == 'solve':
                r = S.solve(op['plan'])
                check_data(S, r)
                if r.exc is None and not r.calls:
                    raise Violation('no_nlp_solved', 'solve() posed no NLP')
                if r.result is not None:
                    results.append((r.n, r.result, frozen(r.result)))
                nt |= nset > 0
            elif k == 'mutate':
                k0 = 0 if op.get('all') else nfixed      # those given at construction, too
                mine = given[k0:]
                if mine:
                    j = k0 + op['i'] % len(mine)
                    n, a, _ = given[j]
                    if a.flags.writeable:
                        a += np.asarray(nprng('mut', op['seed']).integers(5, 50), dtype=a.dtype)
                        given[j] = (n, a, a.copy())
                        W.fault('caller_mutation')
                        W.event(f'mutate {n}')
            elif k == 'scribble':
                # the caller works in place on what a solve returned
                if results:
                    n, res, _ = results.pop(op['i'] % len(results))
                    g = nprng('scribble', op['seed'])
                    for p, v in leaves(res):
                        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype == float:
                            v += 3 + g.random()
                    results = [(m, q, frozen(q)) for m, q, _ in results]
                    W.fault('caller_mutation_of_result')
                    W.event(f'scribble {n}')
            elif k == 'badset':
                try:
                    if op['what'] == 'x':
                        S.solver.set('x', np.full((sum(S.d.nfe) + S.d.N + 3, S.d.n_x), 4.0))
                    elif op['what'] == 'theta':
                        S.solver.set('theta', np.full((sum(S.d.nfe) + 5, sum(S.d.nf) + 1), 4.0))
                    else:
                        S.solver.set('no_such_field', np.full(S.d.n_x, 4.0))
                except Exception:
                    W.fault('rejected_set')
                else:
                    return nt, (case['spec'], sig)     # accepted: nothing specified about it
            for n, a, q in given:
                if not np.array_equal(a, q, equal_nan=True):
                    raise Violation('caller_array_modified', f'array {n} handed over by the caller was modified during {k}')
            for n, res, fz in results:
                for (p, v), (_, w) in zip(leaves(res), fz):
                    if not equal(v, w):
                        raise Violation('old_result_changed', f'result of solve {n}: {p} changed during a later {k}')
            sig.append((k, op.get('field'), op.get('lay')))
        return nt, (case['spec'], sig)

    shrink = staticmethod(shrink_case)


CHECK = C05()
