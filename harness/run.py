"""Driver: python3 -m harness.run CNN [--replay FILE] [--case K] [--n N] [--seed S] [--tier T] [--jobs J]

Runs the directed and random cases of one check in worker processes, decides the verdict, writes the evidence."""
import os
import sys
import json
import time
import zlib
import signal
import hashlib
import random
import resource
import tempfile
import shutil
import importlib
import collections
import multiprocessing as mp
import types
import traceback
from . import gen

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'harness.run'] + sys.argv[1:])

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 25            # CPU seconds after which a case is re-run under the step counter
STEP_LIMIT = 60_000_000   # executed lines and jumps of pdfsyntax code: far above what any case needs
STALL = 400               # wall seconds without progress: inconclusive
WALL = 720                # no new case is started after this many wall seconds


# raised by the harness while it looks into a result: the result lacks a documented key, length or type
ODD = (TypeError, KeyError, IndexError, ValueError, AttributeError, AssertionError, ZeroDivisionError, OverflowError)


class Timeout(BaseException):
    pass


class TooManySteps(BaseException):
    pass


class Case:
    def __init__(self, key, tier, L, tmp):
        from . import lib
        self.lib = lib
        self.key, self.tier, self.L, self.tmpdir = key, tier, L, tmp
        self.r = random.Random(key)
        self.counts = collections.Counter()
        self.feats = set()
        self.dig = None
        self.nontriv = True
        self.smp = None
        self.n = 0

    def feat(self, *fs):
        self.feats.update(str(f) for f in fs)

    def count(self, name, n=1):
        self.counts[name] += n

    def sample(self, s):
        self.smp = s if isinstance(s, str) else repr(s)

    def digest(self, b):
        if not isinstance(b, bytes):
            b = repr(b).encode('utf-8', 'surrogatepass')
        self.dig = hashlib.blake2b(b, digest_size=8).hexdigest()

    def trivial(self):
        self.nontriv = False

    def fail(self, msg, **detail):
        raise self.lib.Violation(msg, **detail)

    def check(self, cond, msg, **detail):
        self.count('oracle_checks')
        if not cond:
            self.fail(msg() if callable(msg) else msg, **detail)

    def path(self, suffix='.pdf'):
        self.n += 1
        return os.path.join(self.tmpdir, f'f{self.n}{suffix}')


def cases_of(mod, tier, n=None):
    names = [('d', k) for k in getattr(mod, 'DIRECTED', {})]
    names += [('s', f'{k}.{i}') for i in range(mod.SCALED if tier == 'quick' else 8 * mod.SCALED) for k in getattr(mod, 'SCALES', gen.SCALES)] if hasattr(mod, 'SCALED') else []
    n = n if n is not None else (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    return names + [('r', i) for i in range(n)]


def run_case(mod, kind, ident, seed, tier, L, tmp):
    c = Case(f'{mod.ID}:d:{ident}' if kind == 'd' else f'{mod.ID}:{seed}:{ident}', tier, L, tmp)
    c.i = ident
    gen.FORCE = None
    if kind == 'r':
        mod.case(c)
    elif kind == 's':                                    # a file of unusual size
        gen.FORCE = ident.split('.')[0]
        c.i = 3
        mod.case(c)
        c.count('large:' + ident.split('.')[0], gen.FORCE is None)
    else:
        mod.DIRECTED[ident](c)
    return c


def step_limited(fn, limit=STEP_LIMIT):
    """Run fn counting the work done inside pdfsyntax; raises TooManySteps."""
    from . import lib
    mon = sys.monitoring
    TID = 4
    box = [0]
    src = os.path.realpath(lib.REPO)

    def tick(code, *a):
        if not code.co_filename.startswith(src):
            return mon.DISABLE
        box[0] += 1
        if box[0] > limit:
            raise TooManySteps(box[0])
    mon.use_tool_id(TID, 'steps')
    ev = mon.events.LINE | mon.events.JUMP
    mon.register_callback(TID, mon.events.LINE, tick)
    mon.register_callback(TID, mon.events.JUMP, tick)
    mon.set_events(TID, ev)
    try:
        return fn(), box[0]
    finally:
        mon.set_events(TID, 0)
        mon.register_callback(TID, mon.events.LINE, None)
        mon.register_callback(TID, mon.events.JUMP, None)
        mon.free_tool_id(TID)


def guarded(mod, kind, ident, seed, tier, L, tmp):
    """-> ('ok', Case) | ('viol', msg, detail) ; CPU guard, then a deterministic step-counted re-run."""
    from .lib import Violation, PdfError

    def on_timer(sig, frm):
        raise Timeout()
    old = signal.signal(signal.SIGPROF, on_timer)
    try:
        signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CPU_LIMIT', CPU_LIMIT), 1.0)
        try:
            c = run_case(mod, kind, ident, seed, tier, L, tmp)
            return ('ok', c)
        except Violation as v:
            return ('viol', v.msg, v.detail)
        except (PdfError, zlib.error) as e:
            return ('viol', f'the strict reader rejects what the library wrote: {e}', {'trace': traceback.format_exc()[-1500:]})
        except ODD as e:
            if isinstance(e, AttributeError) and isinstance(getattr(e, 'obj', None), types.ModuleType):
                raise                                    # the harness asks for something that is not there: no verdict
            return ('viol', f'what the library returned has not the documented form: {type(e).__name__}: {e}', {'trace': traceback.format_exc()[-1500:]})
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Timeout:
        signal.setitimer(signal.ITIMER_PROF, 0)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    try:
        c, n = step_limited(lambda: run_case(mod, kind, ident, seed, tier, L, tmp))
        return ('ok', c)
    except TooManySteps:
        return ('viol', f'the library did not finish within {STEP_LIMIT} steps of work', {})
    except Violation as v:
        return ('viol', v.msg, v.detail)


def worker(mod_name, todo, seed, tier, q, stop, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    tmp = tempfile.mkdtemp(prefix='verif.')
    try:
        from . import lib
        mod = importlib.import_module(mod_name)
        agg = collections.Counter()
        feats = collections.Counter()
        digs, samples = set(), []
        events = collections.Counter()
        done = nontriv = 0
        for kind, ident in iter_todo(todo):
            if stop.is_set() or time.time() > deadline:
                break
            q.put(('start', os.getpid(), (kind, ident)))
            L = lib.Lib()
            try:
                res = guarded(mod, kind, ident, seed, tier, L, tmp)
            except Exception:
                q.put(('error', os.getpid(), (kind, ident), traceback.format_exc()))
                stop.set()
                break
            events.update(L.events)
            if res[0] == 'viol':
                q.put(('viol', os.getpid(), (kind, ident), res[1], {k: v if isinstance(v, (int, str)) else repr(v) for k, v in res[2].items()}, list(L.trace)))
                stop.set()
                break
            c = res[1]
            done += 1
            agg.update(c.counts)
            feats.update(c.feats)
            if c.nontriv:
                nontriv += 1
                digs.add(c.dig or c.key)
            if c.smp and len(samples) < 2:
                samples.append({'case': c.key, 'input': c.smp[:600]})
        q.put(('done', os.getpid(), done, dict(agg), dict(feats), digs, samples, dict(events), nontriv))
    except BaseException:
        q.put(('error', os.getpid(), None, traceback.format_exc()))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def iter_todo(todo):
    lst, ctr = todo
    while True:
        with ctr.get_lock():
            i = ctr.value
            ctr.value += 1
        if i >= len(lst):
            return
        yield lst[i]


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: property=' + pid + ' '):
                rest = ln.split(' ', 3)
                out.append((rest[2].split('=', 1)[1], rest[3]))
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('--n', type=int)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--keep-going', type=int, default=0)
    a = ap.parse_args()
    pid = a.prop
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    try:
        from . import lib
    except Exception:
        # the package cannot even be imported: every property is broken, not the check
        rp = write_replay(pid, a, 'import', 'importing pdfsyntax failed', {'traceback': traceback.format_exc()}, [])
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    mod_name = f'harness.checks.{pid.lower()}'
    mod = importlib.import_module(mod_name)
    if a.replay or a.case:
        return replay(mod, a)
    kf = known(pid)
    probes = getattr(mod, 'PROBES', {})
    tmp = tempfile.mkdtemp(prefix='verif.')
    nprobe = 0
    try:
        for name, what in kf:
            if name not in probes:
                print(f'known finding {name} of {pid} has no probe')
                return 2
            c = Case(f'{pid}:p:{name}', a.tier, lib.Lib(), tmp)
            c.i = name
            try:
                probes[name](c)
                print(f'note: known finding {name} of {pid} no longer reproduces')
            except lib.Violation:
                nprobe += 1
                print(f'KNOWN-FINDING: property={pid} {name}: {what}')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    lst = cases_of(mod, a.tier, a.n)
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    stop = ctx.Event()
    ctr = ctx.Value('i', 0)
    deadline = t0 + WALL * (1 if a.tier == 'quick' else 5)
    ps = [ctx.Process(target=worker, args=(mod_name, (lst, ctr), a.seed, a.tier, q, stop, deadline)) for _ in range(jobs)]
    for p in ps:
        p.start()
    alive = {p.pid: time.time() for p in ps}
    current = {}
    agg, feats, events = collections.Counter(), collections.Counter(), collections.Counter()
    digs, samples, viols, errors = set(), [], [], []
    done = nontriv = 0
    import queue
    while alive:
        try:
            m = q.get(timeout=2)
        except queue.Empty:
            now = time.time()
            for pid_, t in list(alive.items()):
                p = next(x for x in ps if x.pid == pid_)
                if not p.is_alive():
                    errors.append(f'worker {pid_} died (exit {p.exitcode}) in case {current.get(pid_)}')
                    del alive[pid_]
                elif now - t > STALL:
                    errors.append(f'no progress for {STALL} s in case {current.get(pid_)}')
                    p.kill()
                    del alive[pid_]
            continue
        alive[m[1]] = time.time()
        if m[0] == 'start':
            current[m[1]] = m[2]
        elif m[0] == 'viol':
            viols.append(m[2:])
        elif m[0] == 'error':
            errors.append(f'{m[2]}: {m[3]}')
            if m[2] is None:
                alive.pop(m[1], None)
        elif m[0] == 'done':
            done += m[2]
            agg.update(m[3])
            feats.update(m[4])
            digs |= m[5]
            samples += m[6]
            events.update(m[7])
            nontriv += m[8]
            alive.pop(m[1], None)
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done, 'distinct_nontrivial': len(digs), 'rule': mod.RULE, 'samples': samples[:4] or ['(none)'],
            'nontrivial_cases': nontriv, 'cases_planned': len(lst), 'monitor_counters': dict(agg.most_common()),
            'library_calls_observed': dict(events.most_common(40)),
            'features_seen': dict(sorted(feats.items())[:400]), 'distinct_features': len(feats),
            'known_findings_reproduced': nprobe,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ['held on the executions described here only'],
        'wall_s': round(wall, 2), 'violations': len(viols),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if viols:
        viols.sort(key=lambda v: (v[0][0] != 'd', str(v[0][1])))
        for (kind, ident), msg, det, trace in viols[:3]:
            rp = write_replay(pid, a, [kind, ident], msg, det, trace)
            print(f'{pid} {kind}:{ident}: {msg}')
            for k, v in list(det.items())[:6]:
                print(f'    {k}: {str(v)[:700]}')
            print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if errors:
        print(errors[0][-1500:])
        print(f'INCONCLUSIVE property={pid}: the check itself failed')
        return 2
    missing = [f'{k} ({(agg[k] or events[k] or feats[k])} < {v})' for k, v in getattr(mod, 'NEED', {}).items() if (agg[k] or events[k] or feats[k]) < v]
    if done == 0 or missing and a.n is None or done < len(lst) * .3:
        print(f'INCONCLUSIVE property={pid}: {done} of {len(lst)} cases; not reached: {missing}')
        return 2
    print(f'OK property={pid} cases={done} distinct={len(digs)} checks={agg["oracle_checks"]} features={len(feats)} calls={sum(events.values())} wall={wall:.1f}s')
    return 0


def write_replay(pid, a, ident, msg, det, trace):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    name = f'{pid}-{a.seed}-{ident if isinstance(ident, str) else "-".join(map(str, ident))}.json'
    name = ''.join(ch if ch.isalnum() or ch in '-_.' else '_' for ch in name)
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        json.dump({'property': pid, 'seed': a.seed, 'tier': a.tier, 'case': ident, 'message': msg, 'detail': det,
                   'last_calls': trace, 'rerun': f'cd {HERE} && python3 -m harness.run {pid} --replay {p}'}, f, indent=1, default=str)
    return p


def replay(mod, a):
    from . import lib
    if a.replay:
        j = json.load(open(a.replay))
        seed, tier, (kind, ident) = j['seed'], j['tier'], j['case']
    else:
        seed, tier = a.seed, a.tier
        kind, ident = ('r', int(a.case.removeprefix('r:'))) if a.case.removeprefix('r:').isdigit() else ('p', a.case) if a.case.startswith('p:') else ('s', a.case[2:]) if a.case.startswith('s:') else ('d', a.case)
    tmp = tempfile.mkdtemp(prefix='verif.')
    try:
        if kind == 'p':
            c = Case(f'{mod.ID}:p:{ident[2:]}', tier, lib.Lib(), tmp)
            try:
                mod.PROBES[ident[2:]](c)
                print('probe passes')
            except lib.Violation as v:
                print('probe fails:', v.msg, v.detail)
            return 0
        res = guarded(mod, kind, ident, seed, tier, lib.Lib(), tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if res[0] == 'viol':
        print(f'{mod.ID} {kind}:{ident}: {res[1]}')
        for k, v in res[2].items():
            print(f'    {k}: {str(v)[:3000]}')
        print(f'VIOLATION property={mod.ID} replay={a.replay or a.case}')
        return 1
    print('held')
    return 0


if __name__ == '__main__':
    sys.exit(main())
