"""Seeded search, determinism audit, minimisation, replay, evidence."""
import gc
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time as _t
import traceback

from . import core
from .core import World, set_world, rng_of, REAL, SimStdout, HarnessError, Livelock
from .base import Violation

now = core.real_time
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
WORKERS = int(os.environ.get('DST_WORKERS', '8'))


def run_case(check, case, keep_log=False):
    """Run one case in this process (call in a forked child or a fresh process)."""
    W = set_world(World())
    out = {'viol': None, 'err': None, 'nontrivial': False, 'sig': None}
    real_stdout, real_stderr = sys.stdout, sys.stderr
    W.stdout = sys.stdout = SimStdout()
    sys.stderr = SimStdout()
    late = []

    def expire(*_):
        late.append(1)
        signal.setitimer(signal.ITIMER_PROF, 5)
        raise Livelock('no progress within the CPU budget')
    signal.signal(signal.SIGPROF, expire)
    signal.signal(signal.SIGALRM, expire)
    signal.setitimer(signal.ITIMER_PROF, check.cpu)
    signal.setitimer(signal.ITIMER_REAL, check.timeout - 40)       # (nothing runs: a deadlock)
    try:
        nt, sig = check.run(case, W)
        out['nontrivial'], out['sig'] = bool(nt), hashlib.sha256(repr(sig).encode()).hexdigest()[:16]
    except Violation as v:
        out['viol'] = {'kind': v.kind, 'msg': v.msg[:1500]}
        out['nontrivial'] = True
    except BaseException as e:
        out['err'] = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.settrace(None)
        sys.stdout, sys.stderr = real_stdout, real_stderr
    if late:
        # the numerical solver may take its time, everything else may not
        slow = isinstance(case, dict) and case.get('sub') == 'real'
        out['err'], out['viol'] = None, None if slow else {'kind': 'livelock', 'msg': 'no progress within the CPU budget'}
        out['nontrivial'] = not slow
        W.probe('cpu_budget_exceeded')
        W.log = ['cpu budget exceeded']
    out.update(digest=W.digest(), faults=W.faults, probes=W.probes, elapsed=W.elapsed, calls=len(W.calls),
               events=len(W.log))
    if keep_log:
        out['log'] = W.log
    set_world(None)
    return out


def child(check, case, timeout, keep_log=False):
    """Run a case in a forked child, with a watchdog."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            os.setpgid(0, 0)
            data = pickle.dumps(run_case(check, case, keep_log))
            with os.fdopen(wr, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(wr)
    buf, end = b'', now() + timeout
    to = False
    while True:
        left = end - now()
        if left <= 0:
            to = True
            break
        r, _, _ = select.select([rd], [], [], left)
        if not r:
            to = True
            break
        d = os.read(rd, 1 << 20)
        if not d:
            break
        buf += d
    os.close(rd)
    if to:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if to:
        slow = isinstance(case, dict) and case.get('sub') == 'real'
        return {'viol': None, 'err': None if slow else f'watchdog: run exceeded {timeout} s', 'nontrivial': False, 'sig': None,
                'digest': '', 'faults': {}, 'probes': {'watchdog': 1}, 'elapsed': 0, 'calls': 0, 'events': 0}
    if st != 0 or not buf:
        return {'viol': None, 'err': f'child ended with wait status {st}', 'nontrivial': False, 'sig': None, 'digest': '',
                'faults': {}, 'probes': {}, 'elapsed': 0, 'calls': 0, 'events': 0}
    return pickle.loads(buf)


def gen_case(check, seed, idx, tier):
    return check.gen(rng_of(check.id, seed, idx), idx, tier)


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def worker(check, seed, tier, w, nw, n, deadline, wr, known):
    agg = {'runs': 0, 'nontrivial': 0, 'faults': {}, 'probes': {}, 'elapsed': 0.0, 'calls': 0, 'events': 0, 'sigs': set(),
           'digs': set(), 'viol': [], 'errs': [], 'samples': [], 'audited': 0, 'capped': False, 'known': {}}
    for idx in range(w, n, nw):
        if now() > deadline:
            agg['capped'] = True
            break
        case = gen_case(check, seed, idx, tier)
        res = child(check, case, check.timeout)
        if res['err'] is None and res['viol'] is None and idx % 50 == 7:
            again = child(check, case, check.timeout)
            agg['audited'] += 1
            slow = any(k in q['probes'] for q in (res, again) for k in ('cpu_budget_exceeded', 'watchdog'))
            if not slow and (again['digest'] != res['digest'] or again['viol'] != res['viol']):
                agg['errs'].append((idx, 'nondeterministic run: event logs differ between two executions'))
                break
        agg['runs'] += 1
        agg['nontrivial'] += res['nontrivial']
        merge(agg['faults'], res['faults'])
        merge(agg['probes'], res['probes'])
        agg['elapsed'] += res['elapsed']
        agg['calls'] += res['calls']
        agg['events'] += res['events']
        if res['sig'] and res['nontrivial']:
            agg['sigs'].add(res['sig'])
        agg['digs'].add(res['digest'])
        if idx < 3 * nw and len(agg['samples']) < 1:
            agg['samples'].append({'index': idx, 'case': case, 'event_digest': res['digest'],
                                   'nlp_calls': res['calls'], 'faults': res['faults']})
        if res['err']:
            agg['errs'].append((idx, res['err']))
            if len(agg['errs']) >= 5:
                break
            continue
        if res['viol']:
            k = match_known(known, check.id, res['viol'], case)
            if k is not None:
                agg['known'][k] = agg['known'].get(k, 0) + 1
                continue
            agg['viol'].append((idx, res['viol']))
            break
    with os.fdopen(wr, 'wb') as f:
        f.write(pickle.dumps(agg))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                out.append(json.loads(line[len('known:'):]))
    return out


def subset(pat, obj):
    if isinstance(pat, dict):
        return isinstance(obj, dict) and all(k in obj and subset(v, obj[k]) for k, v in pat.items())
    return pat == obj


def match_known(known, cid, viol, case):
    for i, k in enumerate(known):
        if k['property'] == cid and k['kind'] == viol['kind'] and k.get('msg', '') in viol['msg'] and \
                subset(k.get('case', {}), case):
            return i
    return None


def minimise(check, case, viol, budget, known):
    """Greedy shrink: keep a candidate if it fails with the same violation kind."""
    t0, tries, ok = now(), 0, 0
    progress = True
    while progress and now() - t0 < budget:
        progress = False
        seen = set()
        for cand in check.shrink(case):
            if now() - t0 > budget:
                break
            key = json.dumps(cand, sort_keys=True)
            if key in seen or key == json.dumps(case, sort_keys=True):
                continue
            seen.add(key)
            tries += 1
            res = child(check, cand, check.timeout)
            if res['viol'] and res['viol']['kind'] == viol['kind'] and match_known(known, check.id, res['viol'], cand) is None:
                case, viol = cand, res['viol']
                ok += 1
                progress = True
                break
    return case, viol, {'tries': tries, 'accepted': ok}


def main_check(check, seed, tier):
    t0 = now()
    known = load_known()
    for k in known:
        if k['property'] == check.id:
            print(f"KNOWN-FINDING: property={check.id} {k['what']}", flush=True)
    n = int(os.environ.get('DST_RUNS', check.runs[tier]))
    print(f'[{check.id}] VERIF_SEED={seed} tier={tier} runs={n} workers={WORKERS}', flush=True)
    deadline = t0 + check.cap[tier]
    gc.collect()
    gc.freeze()
    pipes = []
    for w in range(WORKERS):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                worker(check, seed, tier, w, WORKERS, n, deadline, wr, known)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(4)
        os.close(wr)
        pipes.append((rd, pid))
    aggs, bad = [], []
    for rd, pid in pipes:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st != 0 or not data:
            bad.append(f'worker died with status {st}')
        else:
            aggs.append(pickle.loads(data))
    T = {'runs': 0, 'nontrivial': 0, 'faults': {}, 'probes': {}, 'elapsed': 0.0, 'calls': 0, 'events': 0, 'audited': 0}
    sigs, digs, viols, errs, samples, kn, capped = set(), set(), [], [], [], {}, False
    for a in aggs:
        for k in ('runs', 'nontrivial', 'elapsed', 'calls', 'events', 'audited'):
            T[k] += a[k]
        merge(T['faults'], a['faults'])
        merge(T['probes'], a['probes'])
        sigs |= a['sigs']
        digs |= a['digs']
        viols += a['viol']
        errs += a['errs']
        samples += a['samples']
        merge(kn, a['known'])
        capped |= a['capped']
    search_s = now() - t0
    rc, vline = 0, None
    if viols:
        idx, viol = min(viols)[0], None
        viol = dict(min(viols, key=lambda v: v[0])[1])
        case = gen_case(check, seed, idx, tier)
        print(f'[{check.id}] seed index {idx}: {viol["kind"]}: {viol["msg"]}', flush=True)
        mcase, mviol, mst = minimise(check, case, viol, check.min_budget, known)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{check.id}_{seed}_{idx}.json')
        res = child(check, mcase, check.timeout, keep_log=True)
        with open(path, 'w') as f:
            json.dump({'property': check.id, 'seed': seed, 'tier': tier, 'index': idx, 'violation': mviol,
                       'case': mcase, 'original_case': case, 'event_digest': res['digest'],
                       'minimisation': mst, 'event_log': res.get('log', [])[-200:]}, f, indent=1)
        rep = subprocess.run([sys.executable, '-m', 'dst.main', 'replay', path], cwd=VERIF, capture_output=True, text=True)
        if rep.returncode == 3:
            print(f'[{check.id}] note: the violation replays, its event log differs (the code under test is not deterministic)')
        if rep.returncode in (1, 3):
            print(f'[{check.id}] minimised ({mst["accepted"]} of {mst["tries"]} shrinks): {mviol["kind"]}: {mviol["msg"]}')
            vline = f'VIOLATION property={check.id} replay={path}'
            rc = 1
        else:
            errs.append((idx, f'violation did not replay in a fresh process: {rep.stdout[-500:]} {rep.stderr[-500:]}'))
    if rc == 0 and (errs or bad):
        for idx, e in errs[:3]:
            print(f'[{check.id}] ERROR at seed index {idx}: {e}', flush=True)
        for b in bad:
            print(f'[{check.id}] ERROR: {b}')
        rc = 2
    if rc == 0 and T['runs'] == 0:
        print(f'[{check.id}] ERROR: nothing was explored')
        rc = 2
    wall = now() - t0
    ev = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'wall_s': round(wall, 2),
        'violations': 1 if rc == 1 else 0,
        'coverage': {
            'evaluations': T['runs'], 'distinct_nontrivial': len(sigs), 'rule': check.rule,
            'samples': samples[:2] or [{'none': True}],
            'runs_per_hour': int(T['runs'] / max(search_s, 1e-9) * 3600),
            'nontrivial_runs': T['nontrivial'], 'distinct_event_logs': len(digs),
            'simulated_seconds': round(T['elapsed'], 1), 'nlp_calls': T['calls'], 'events': T['events'],
            'faults_fired': dict(sorted(T['faults'].items())), 'probes_hit': dict(sorted(T['probes'].items())),
            'determinism_audits': T['audited'], 'real_components': check.real, 'stubbed_components': check.stub,
            'requested_runs': n, 'stopped_by_wall_cap': capped,
            'known_findings_hit': sum(kn.values()),
        },
        'assumptions': check.assumptions,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{check.id}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'[{check.id}] {T["runs"]} runs, {len(sigs)} distinct, {T["calls"]} NLP calls, '
          f'{sum(T["faults"].values())} faults, {wall:.1f} s', flush=True)
    if vline:
        print(vline, flush=True)
    return rc


def main_replay(checks, path):
    d = json.load(open(path))
    check = checks[d['property']]
    res = run_case(check, d['case'], keep_log=True)
    if res['err']:
        print('ERROR', res['err'])
        return 2
    if not res['viol']:
        print('no violation')
        return 0
    if res['viol']['kind'] != d['violation']['kind']:
        print(f"another violation: {res['viol']['kind']}: {res['viol']['msg']}")
        return 4
    same = res['digest'] == d['event_digest']
    print(f"replayed: {res['viol']['kind']}: {res['viol']['msg']}")
    print(f"event log {'identical' if same else 'DIFFERS from the recorded one'}")
    return 1 if same else 3


def main_selftest(checks, seeds, ids):
    """Digest of many runs, to be compared between environments."""
    out = {}
    for cid in ids:
        check = checks[cid]
        for idx in range(seeds):
            res = child(check, gen_case(check, 424242, idx, 'quick'), check.timeout)
            out[f'{cid}:{idx}'] = (res['digest'], str(res['viol']), bool(res['err']))
    print(json.dumps(out))
    return 0
