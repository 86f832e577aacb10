"""Simulation core: the world that owns every source of nondeterminism.

Importing this module installs the seams (casadi.nlpsol, casadi.rootfinder,
time.*, builtins.open, sys.stdout) and then imports the real nosnoc package
from /repo.  Outside a simulated run the seams are transparent.
"""
import builtins
import copy
import hashlib
import io
import os
import random
import sys
import threading
import time as _time
import warnings

REPO = os.environ.get('DST_REPO', '/repo')     # override: development only
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import numpy as np
import casadi as ca

warnings.simplefilter('ignore')
warnings.showwarning = lambda *a, **k: None

REAL = {n: getattr(_time, n) for n in
        ('time', 'time_ns', 'perf_counter', 'perf_counter_ns', 'monotonic', 'monotonic_ns',
         'process_time', 'process_time_ns', 'thread_time', 'sleep')}
REAL_NLPSOL = ca.nlpsol
REAL_ROOTFINDER = ca.rootfinder
REAL_OPEN = builtins.open
real_time = REAL['perf_counter']


class HarnessError(Exception):
    """The harness itself is wrong: never a verdict."""


class Livelock(BaseException):
    """The code under test exceeded the step bound of the run."""


class NlpArgError(RuntimeError):
    """The sub-solver was called with arguments of the wrong size (casadi raises, too)."""


class InjectedError(RuntimeError):
    """An injected sub-solver failure."""


# --------------------------------------------------------------------------
class World:
    """One simulated run."""

    def __init__(self):
        self.log = []          # event log (strings), the run's identity
        self.faults = {}       # fault kind -> times it actually fired
        self.probes = {}       # rare condition -> hits
        self.wall = 1.7e9      # settable wall clock
        self.mono = 1000.0     # monotonic clock
        self.elapsed = 0.0     # simulated time covered
        self.handler = None    # behaviour of the NLP sub-solver
        self.nlps = []
        self.calls = []        # every NLP call
        self.max_calls = 4000
        self.fs = None
        self.rootfinder_fault = None
        self.sched = None
        self.tls = threading.local()

    # -- logging never draws randomness nor reads a real clock
    def event(self, s):
        who = getattr(self.tls, 'name', None)
        self.log.append(s if who is None else f'{who}:{s}')

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + int(n)

    def advance(self, dt):
        self.wall += dt
        self.mono += dt
        self.elapsed += dt

    def jump(self, dt):
        self.wall += dt
        self.fault('clock_jump')

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]


WORLD = None


def set_world(w):
    global WORLD
    WORLD = w
    return w


# -- clock seam ------------------------------------------------------------
def _clock(name, attr, ns):
    real = REAL[name]

    def f():
        if WORLD is None:
            return real()
        WORLD.advance(1e-6)
        v = getattr(WORLD, attr)
        return int(v * 1e9) if ns else v
    f.__name__ = name
    return f


for _n in ('time', 'time_ns'):
    setattr(_time, _n, _clock(_n, 'wall', _n.endswith('_ns')))
for _n in ('perf_counter', 'perf_counter_ns', 'monotonic', 'monotonic_ns', 'process_time', 'process_time_ns',
           'thread_time'):
    setattr(_time, _n, _clock(_n, 'mono', _n.endswith('_ns')))


def _sleep(s):
    if WORLD is None:
        return REAL['sleep'](s)
    WORLD.advance(max(0.0, s))


_time.sleep = _sleep


# -- stdout seam -----------------------------------------------------------
class SimStdout(io.TextIOBase):
    """Swallows output; may fail at the n-th write."""

    def __init__(self):
        self.n = 0
        self.fail_at = None
        self.exc = None
        self.lines = 0
        self.keep = None

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.fail_at = None
            WORLD.fault('output_error')
            WORLD.event('fault:output_error')
            raise (self.exc or BrokenPipeError(32, 'injected: broken pipe'))
        if self.keep is not None:
            self.keep.append(s)
        return len(s)

    def flush(self):
        pass


# -- NLP seam --------------------------------------------------------------
def arr(v, n, default):
    """Normalise an NLP argument to a float vector of length n."""
    if v is None:
        return np.full(n, default, dtype=float)
    if isinstance(v, ca.DM):
        v = v.full()
    v = np.array(v, dtype=float).reshape(-1)
    if v.size == 1 and n != 1:
        v = np.full(n, v[0])
    if v.size != n:
        raise NlpArgError(f'NLP argument has {v.size} entries, expected {n}')
    return v


class Call:
    __slots__ = ('k', 'nlp', 'x0', 'p', 'lbx', 'ubx', 'lbg', 'ubg', 'extra', 'x', 'f', 'g', 'status', 'iters', 'dt',
                 'raised', 'tag', 'who')

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        for k, v in kw.items():
            setattr(self, k, v)


def _plain(o):
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in sorted(o.items())}
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o]
    return o


class SimNlp:
    """Stand-in for the casadi nlpsol Function, ruled by the world."""

    def __init__(self, name, plugin, nlp, opts):
        self._name = name
        self.plugin = plugin
        self.nlp = dict(nlp)
        self.opts = _plain(copy.deepcopy(opts if opts is not None else {}))
        self.x_sym = nlp['x']
        self.p_sym = nlp.get('p', ca.SX(0, 1))
        self.f_sym = nlp.get('f', ca.SX(0))
        self.g_sym = nlp.get('g', ca.SX(0, 1))
        if isinstance(self.g_sym, list):
            self.g_sym = ca.vertcat(*self.g_sym)
        self.nx = int(self.x_sym.shape[0])
        self.np_ = int(self.p_sym.shape[0])
        self.ng = int(self.g_sym.shape[0])
        self._fun = None
        self._real = None
        self._xn = None
        self._stats = None
        self.ncalls = 0
        self.who = getattr(WORLD.tls, 'name', None)
        WORLD.nlps.append(self)
        WORLD.event(f'nlpsol {plugin} nx={self.nx} ng={self.ng} np={self.np_} opts={self.opts}')

    # evaluate objective and constraints of the posed NLP
    def fun(self, x, p):
        if self._fun is None:
            self._fun = ca.Function('fg', [self.x_sym, self.p_sym], [self.f_sym, self.g_sym])
        f, g = self._fun(x, p)
        return float(f), g.full().flatten()

    @property
    def x_names(self):
        if self._xn is None:
            self._xn = [self.x_sym[i].name() for i in range(self.nx)]
        return self._xn

    @property
    def p_names(self):
        return [self.p_sym[i].name() for i in range(self.np_)]

    def real(self, extra=None, f=None):
        opts = copy.deepcopy(self.opts)
        opts['print_time'] = 0
        opts.setdefault('ipopt', {})
        opts['ipopt'].update({'print_level': 0, 'sb': 'yes'})
        opts['ipopt'] = {k: v for k, v in opts['ipopt'].items() if v is not None}
        if extra:
            opts['ipopt'].update(extra)
        nlp = dict(self.nlp)
        if f is not None:
            nlp['f'] = f
        if not extra and f is None:
            if self._real is None:
                self._real = REAL_NLPSOL('sim', 'ipopt', nlp, opts)
            return self._real
        return REAL_NLPSOL('sim', 'ipopt', nlp, opts)

    def solve_real(self, c, extra=None, f=None):
        s = self.real(extra, f)
        sol = s(x0=c.x0, p=c.p, lbx=c.lbx, ubx=c.ubx, lbg=c.lbg, ubg=c.ubg)
        st = s.stats()
        it = int(st['iter_count'])
        if not 0 <= it <= 10 ** 5 or st['return_status'] in ('Not_Enough_Degrees_Of_Freedom', 'Internal_Error'):
            it = 0      # (not initialised by IPOPT if it gives up before the first iteration)
        return sol['x'].full().flatten(), st['return_status'], it

    def __call__(self, *args, **kw):
        if args:
            raise HarnessError('positional NLP call')
        W = WORLD
        W.advance(1e-6)
        c = Call(k=self.ncalls, nlp=self, who=getattr(W.tls, 'name', None),
                 x0=arr(kw.pop('x0', None), self.nx, 0.0), p=arr(kw.pop('p', None), self.np_, 0.0),
                 lbx=arr(kw.pop('lbx', None), self.nx, -np.inf), ubx=arr(kw.pop('ubx', None), self.nx, np.inf),
                 lbg=arr(kw.pop('lbg', None), self.ng, -np.inf), ubg=arr(kw.pop('ubg', None), self.ng, np.inf),
                 extra={k: arr(v, np.size(v), 0.0) for k, v in kw.items()})
        self.ncalls += 1
        W.calls.append(c)
        W.event(f'nlp#{c.k} x0={h(c.x0)} p={h(c.p)} lbx={h(c.lbx)} ubx={h(c.ubx)} lbg={h(c.lbg)} ubg={h(c.ubg)}')
        if len(W.calls) > W.max_calls:
            raise Livelock(f'more than {W.max_calls} NLP calls')
        self._stats = None
        x, status, iters, dt = W.handler(self, c)
        x = np.array(x, dtype=float).reshape(-1)
        c.x, c.status, c.iters, c.dt = x.copy(), status, iters, dt
        W.advance(dt)
        c.f, c.g = self.fun(x, c.p)
        W.event(f'ret#{c.k} {status} it={iters} x={h(x)} f={c.f!r}')
        self._stats = {
            'return_status': status, 'iter_count': iters, 'success': status in GOOD,
            'unified_return_status': 'SOLVER_RET_SUCCESS' if status in GOOD else 'SOLVER_RET_UNKNOWN',
            't_proc_total': dt, 't_wall_total': dt,
            't_proc_nlp_f': dt / 4, 't_wall_nlp_f': dt / 4, 'n_call_total': 1, 'n_call_nlp_f': iters + 1,
        }
        return {'x': ca.DM(x), 'f': ca.DM(c.f), 'g': ca.DM(c.g.reshape(-1, 1)) if self.ng else ca.DM.zeros(0, 1),
                'lam_x': ca.DM.zeros(self.nx, 1), 'lam_g': ca.DM.zeros(self.ng, 1),
                'lam_p': ca.DM.zeros(self.np_, 1)}

    def call(self, d):
        return self(**d)

    def stats(self, *a):
        if self._stats is None:
            raise RuntimeError('No stats available: Function not evaluated')
        return dict(self._stats)

    def name(self):
        return self._name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.real(), n)


GOOD = ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small']
BAD = ['Infeasible_Problem_Detected', 'Maximum_Iterations_Exceeded', 'Restoration_Failed', 'Invalid_Number_Detected',
       'Error_In_Step_Computation', 'Diverging_Iterates', 'Maximum_CpuTime_Exceeded', 'User_Requested_Stop',
       'Not_Enough_Degrees_Of_Freedom', 'Internal_Error', 'Maximum_WallTime_Exceeded', 'Insufficient_Memory']


def h(v):
    return hashlib.blake2b(np.ascontiguousarray(v, dtype=float).tobytes(), digest_size=6).hexdigest()


def _nlpsol(name, plugin, nlp, opts=None, *a):
    if WORLD is None:
        return REAL_NLPSOL(name, plugin, nlp, opts or {}, *a)
    if 'f' in nlp and ca.SX(nlp['f']).numel() != 1:
        raise NlpArgError('nlpsol: the objective must be scalar')
    return SimNlp(name, plugin, nlp, opts)


ca.nlpsol = _nlpsol


class SimRoot:
    """Real rootfinder with optional injected failure."""

    def __init__(self, f):
        self._f = f

    def __call__(self, *a, **k):
        W = WORLD
        if W is not None:
            W.event('rootfinder')
            if W.rootfinder_fault is not None and W.rootfinder_fault():
                W.fault('rootfinder_failure')
                raise InjectedError('injected: rootfinder failed')
        return self._f(*a, **k)

    def __getattr__(self, n):
        return getattr(self._f, n)


def _rootfinder(*a, **k):
    f = REAL_ROOTFINDER(*a, **k)
    return f if WORLD is None else SimRoot(f)


ca.rootfinder = _rootfinder


# -- file seam -------------------------------------------------------------
def _open(file, mode='r', *a, **k):
    W = WORLD
    if W is not None and W.fs is not None and W.fs.owns(file):
        return W.fs.open(file, mode, *a, **k)
    return REAL_OPEN(file, mode, *a, **k)


builtins.open = _open
io.open = _open

import nosnoc  # noqa: E402

if os.path.realpath(nosnoc.__file__) != os.path.realpath(os.path.join(REPO, 'nosnoc', '__init__.py')):
    raise HarnessError(f'nosnoc imported from {nosnoc.__file__}')
NOSNOC_DIR = os.path.dirname(os.path.realpath(nosnoc.__file__)) + os.sep


def under_test(tb):
    """True if the innermost frames of the traceback pass through nosnoc code."""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(NOSNOC_DIR):
            return True
        tb = tb.tb_next
    return False


# -- interrupts at source lines --------------------------------------------
class LineTracer:
    """Counts line events in nosnoc files; calls hook(n, frame) at each."""

    def __init__(self, hook):
        self.n = 0
        self.hook = hook
        self.cache = {}

    def _in(self, fn):
        r = self.cache.get(fn)
        if r is None:
            r = self.cache[fn] = os.path.realpath(fn).startswith(NOSNOC_DIR)
        return r

    def glob(self, frame, ev, arg):
        return self.loc if self._in(frame.f_code.co_filename) else None

    def loc(self, frame, ev, arg):
        if ev == 'line':
            self.n += 1
            self.hook(self.n, frame)
        return self.loc

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# -- thread scheduler --------------------------------------------------------
class Baton:
    """Runs client threads one at a time; the plan decides every switch.

    plan: list of (client, number of line events it runs); when exhausted the
    lowest runnable client runs to its end.  focus: no switches while a client
    holds (W.tls.hold), e.g. during long constructions.
    """

    def __init__(self, plan, n, focus=False):
        self.focus = focus
        self.plan = [tuple(x) for x in plan]
        self.n = n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.cur = None
        self.left = 0
        self.switches = 0
        self.trace = []
        self.main = threading.Semaphore(0)
        self.pos = 0

    def _pick(self):
        while self.pos < len(self.plan):
            c, k = self.plan[self.pos]
            self.pos += 1
            c = c % self.n
            if not self.done[c]:
                return c, max(1, int(k))
        for c in range(self.n):
            if not self.done[c]:
                return c, 10 ** 9
        return None, 0

    def step(self, me):
        if self.focus and getattr(WORLD.tls, 'hold', False):
            return
        self.left -= 1
        if self.left <= 0:
            c, k = self._pick()
            self.left = k
            if c != me:
                self.switches += 1
                self.trace.append((self.pos, me, c))
                self.cur = c
                self.sem[c].release()
                self.sem[me].acquire()

    def run(self, clients):
        """clients: list of callables(step_fn)."""
        W = WORLD
        errs = [None] * self.n

        def body(i):
            self.sem[i].acquire()
            W.tls.name = f'c{i}'
            tr = LineTracer(lambda n, f: self.step(i))
            try:
                sys.settrace(tr.glob)
                clients[i]()
            except BaseException as e:  # recorded by the client normally
                errs[i] = e
            finally:
                sys.settrace(None)
                self.done[i] = True
                c, k = self._pick()
                self.left = k
                if c is None:
                    self.main.release()
                else:
                    self.cur = c
                    self.sem[c].release()
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        c, k = self._pick()
        self.left = k
        self.cur = c
        self.sem[c].release()
        self.main.acquire()
        for t in ths:
            t.join()
        return errs


# -- RNG ---------------------------------------------------------------------
def rng_of(*key):
    s = ':'.join(str(k) for k in key)
    return random.Random(int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], 'big'))


def nprng(*key):
    s = ':'.join(str(k) for k in key)
    return np.random.Generator(np.random.PCG64(int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], 'big')))


def pick(r, *pairs):
    """Weighted choice: pick(r, (w, v), ...)."""
    t = sum(w for w, _ in pairs)
    q = r.random() * t
    for w, v in pairs:
        q -= w
        if q < 0:
            return v
    return pairs[-1][1]
