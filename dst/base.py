"""Common pieces of the checks."""
import os
import traceback
from . import core
from .core import HarnessError, Livelock, under_test, NOSNOC_DIR

HERE = os.path.dirname(os.path.realpath(__file__)) + os.sep


class Violation(Exception):
    def __init__(self, kind, msg=''):
        super().__init__(f'{kind}: {msg}')
        self.kind, self.msg = kind, msg


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if os.path.realpath(f.filename).startswith(NOSNOC_DIR)]
    return fr[-1].name if fr else (tb[-1].name if tb else '?')


def classify(e, what):
    """An exception nobody injected: violation if it comes out of nosnoc, else harness error."""
    if isinstance(e, (Violation, HarnessError)):
        raise e
    if isinstance(e, Livelock):
        raise Violation('livelock', f'{what}: {e}')
    tb = traceback.extract_tb(e.__traceback__)
    last = os.path.realpath(tb[-1].filename) if tb else ''
    if last.startswith(HERE) and not isinstance(e, core.NlpArgError):
        raise HarnessError(f'{what}: {type(e).__name__}: {e} in harness {tb[-1].name}:{tb[-1].lineno}') from e
    if under_test(e.__traceback__) or isinstance(e, core.NlpArgError):
        raise Violation(f'unexpected_exception:{type(e).__name__}:{where(e)}', f'{what} raised {type(e).__name__}: {str(e)[:300]} (in {where(e)})')
    raise HarnessError(f'{what}: {type(e).__name__}: {e}') from e


def must(what, fn, *a, **k):
    """Call the system under test; any exception is a violation."""
    try:
        return fn(*a, **k)
    except BaseException as e:
        classify(e, what)


def rel(a, b):
    return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


class Check:
    id = None
    runs = {'quick': 1000, 'thorough': 20000}
    cap = {'quick': 300, 'thorough': 3600}
    real = []      # components that ran real code
    stub = []      # components that ran a stub
    rule = ''
    level = 'exploration'
    assumptions = []
    timeout = 240   # wall-clock watchdog of a run
    cpu = 60        # CPU seconds of a run
    min_budget = 60

    def gen(self, r, idx, tier):
        raise NotImplementedError

    def run(self, case, W):
        """Run one case in world W; raise Violation; return (nontrivial, state signature)."""
        raise NotImplementedError

    def shrink(self, case):
        return iter(())
