"""Exploration engine shared by all property checks.

A property module provides

    BOUNDS            human readable description of the explored space
    cases(tier)       iterable of small picklable case descriptors: the
                      exhaustively enumerated bounded space (or the roots of
                      the sub-spaces which `run` then explores exhaustively)
    run(case, r)      executes the real code for one case, recording states,
                      transitions and compared executions in the recorder and
                      calling r.fail(...) on a violation

Every case of the enumeration is executed; nothing is sampled.
"""

import concurrent.futures as cf
from concurrent.futures.process import BrokenProcessPool
import contextlib
import hashlib
import io
import json
import os
import pickle
import base64
import signal
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Violation(Exception):
    def __init__(self, msg, details=None):
        super().__init__(msg)
        self.msg = msg
        self.details = details or {}


class HarnessTimeout(BaseException):
    """Raised inside a case which does not terminate (BaseException, so that
    the code under test cannot swallow it)."""


def show(obj, limit=600):
    """Readable, evaluable-looking rendering for reports."""
    if isinstance(obj, np.ndarray):
        s = repr(obj.tolist())
    else:
        s = repr(obj)
    return s if len(s) <= limit else s[:limit] + '...'


def canon(obj):
    """Canonical bytes of a state, floats rounded to 9 significant digits."""
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind == 'f':
            a = np.ascontiguousarray(obj, dtype='f8')
            with np.errstate(all='ignore'):
                mag = np.where((a == 0) | ~np.isfinite(a), 1.0,
                               10.0 ** (8 - np.floor(np.log10(np.abs(
                                   np.where((a == 0) | ~np.isfinite(a), 1, a))))))
                mag = np.where(np.isfinite(mag) & (mag > 0), mag, 1.0)
                a = np.round(a * mag) / mag + 0.0
            return repr(a.shape).encode() + a.tobytes()
        return repr(obj.shape).encode() + np.ascontiguousarray(obj).tobytes()
    if isinstance(obj, (tuple, list)):
        return b'(' + b','.join(canon(o) for o in obj) + b')'
    if isinstance(obj, dict):
        return b'{' + b','.join(canon(k) + b':' + canon(obj[k])
                                for k in sorted(obj, key=repr)) + b'}'
    if isinstance(obj, float):
        return ('%.9g' % obj).encode()
    return repr(obj).encode()


def digest(obj):
    return int.from_bytes(
        hashlib.blake2b(canon(obj), digest_size=8).digest(), 'little')


class Recorder:
    def __init__(self, prop, known=()):
        self.prop = prop
        self.known_keys = set(known)
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.known_hit = {}

    def state(self, *obj):
        """Record a distinct reached state of the explored space."""
        self.states.add(digest(obj))

    def step(self, n=1):
        """Record executed transitions (calls/iterations of the real code)."""
        self.transitions += n

    def trace(self, n=1):
        """Record executions of the real code compared with the model."""
        self.traces += n

    def fail(self, msg, **details):
        raise Violation(msg, details)

    def known(self, key, msg, **details):
        """A recorded, unrepaired finding; unlisted ones are violations."""
        if key in self.known_keys:
            self.known_hit.setdefault(key, msg)
        else:
            raise Violation(msg, dict(details, finding_key=key))

    def require(self, cond, msg, **details):
        if not cond:
            raise Violation(msg, details)

    def close(self, got, want, msg, atol=1e-9, rtol=1e-9, **details):
        got = np.asarray(got, dtype='f8')
        want = np.asarray(want, dtype='f8')
        if got.shape != want.shape:
            raise Violation('%s: shape %r instead of %r' % (
                msg, got.shape, want.shape), details)
        if not np.allclose(got, want, atol=atol, rtol=rtol, equal_nan=True):
            with np.errstate(all='ignore'):
                err = np.abs(got - want)
            raise Violation('%s: max deviation %.3g' % (
                msg, np.nanmax(err) if err.size else 0.0),
                dict(details, got=show(got), want=show(want)))

    def refused(self, fn, msg, **details):
        """The call must raise ValueError."""
        try:
            fn()
        except ValueError:
            return
        except HarnessTimeout:
            raise
        except Exception as e:
            raise Violation('%s: expected ValueError but got %s: %s' % (
                msg, type(e).__name__, e), details)
        raise Violation('%s: accepted instead of raising ValueError' % msg,
                        details)


@contextlib.contextmanager
def quiet():
    """Silence warnings and standard output of the code under test."""
    with warnings.catch_warnings(), np.errstate(all='ignore'), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        yield


def _on_alarm(signum, frame):
    raise HarnessTimeout()


_MODULE = None
_KNOWN = ()
_LIMIT = 60


def _init_worker(module_name, known, limit):
    global _MODULE, _KNOWN, _LIMIT
    import importlib
    _MODULE = importlib.import_module(module_name)
    _KNOWN = known
    _LIMIT = limit
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_case(module, case, r, limit=60):
    """Run one case; returns None or a dict describing the violation."""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with quiet():
            module.run(case, r)
        return None
    except HarnessTimeout:
        return {'msg': 'no result within %d s (call does not terminate)' % limit,
                'details': {}, 'case': show(case)}
    except Violation as v:
        return {'msg': v.msg, 'details': {k: show(x) for k, x in
                                          v.details.items()},
                'case': show(case)}
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                 for f in tb[-6:]]
        return {'msg': 'valid use raised %s: %s' % (type(e).__name__,
                                                    str(e)[:300]),
                'details': {'traceback': where}, 'case': show(case)}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _work(chunk):
    r = Recorder(_MODULE.PROP, _KNOWN)
    out = []
    done = 0
    for case in chunk:
        v = run_case(_MODULE, case, r, _LIMIT)
        done += 1
        if v is not None:
            v['pickle'] = base64.b64encode(pickle.dumps(case)).decode()
            out.append(v)
            break
    return (r.states, r.transitions, r.traces, r.known_hit, out, done)


def load_known(prop):
    """Entries of known_findings.txt for the property: {key: text}."""
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                parts = line.strip().split(None, 3)
                if len(parts) == 4 and parts[0] == 'finding:' and \
                        parts[1] == 'property=' + prop and \
                        parts[2].startswith('key='):
                    known[parts[2][4:]] = parts[3]
    return known


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)


def check(module_name, prop, tier, seed, workers=None):
    import importlib
    t0 = time.time()
    import reor
    src = os.path.realpath(os.environ.get('REOR_SRC', '/repo/src'))
    if not os.path.realpath(reor.__file__).startswith(src + os.sep):
        print('reor is imported from %s instead of %s' % (reor.__file__, src))
        return 2
    module = importlib.import_module(module_name)
    known = load_known(prop)
    limit = getattr(module, 'CASE_LIMIT', 60)
    case_list = list(module.cases(tier))
    n_cases = len(case_list)
    workers = workers or int(os.environ.get('MC_WORKERS', 0)) or \
        min(8, os.cpu_count() or 1)
    chunk = max(1, min(getattr(module, 'CHUNK', 32),
                       n_cases // (workers * 8) or 1))
    chunks = [case_list[i:i + chunk] for i in range(0, n_cases, chunk)]
    # Spread expensive neighbours over the run, deterministically
    stride = 7
    chunks = [c for s in range(stride) for c in chunks[s::stride]]

    states = set()
    transitions = traces = executed = 0
    known_hit = {}
    violations = []

    todo = list(chunks)
    stop = False
    for attempt in range(3):
        broken = []
        with cf.ProcessPoolExecutor(
                max_workers=max(1, workers >> attempt),
                initializer=_init_worker,
                initargs=(module_name, tuple(known), limit)) as pool:
            pending = {}
            it = iter(todo)
            while True:
                while not stop and not broken and len(pending) < 4 * workers:
                    try:
                        c = next(it)
                    except StopIteration:
                        break
                    try:
                        pending[pool.submit(_work, c)] = c
                    except BrokenProcessPool:
                        broken.append(c)
                if not pending:
                    break
                finished, _ = cf.wait(pending,
                                      return_when=cf.FIRST_COMPLETED)
                for f in finished:
                    c = pending.pop(f)
                    try:
                        s, tr, tc, kh, out, done = f.result()
                    except BrokenProcessPool:
                        broken.append(c)
                        continue
                    states |= s
                    transitions += tr
                    traces += tc
                    executed += done
                    known_hit.update(kh)
                    violations.extend(out)
                if violations:
                    stop = True
                    for f in list(pending):
                        if f.cancel():
                            del pending[f]
            todo = broken + list(it)
        if stop or not todo:
            break
        # a worker was killed (e.g. memory ran out): once more, fewer workers
    if todo and not stop:
        print('NO RESULT property=%s: worker processes are being killed; '
              '%d chunks not explored' % (prop, len(todo)))
        return 2

    wall = time.time() - t0

    replays = []
    for i, v in enumerate(violations[:3]):
        path = os.path.join(ROOT, 'out', 'replay', '%s-%d.json' % (prop, i))
        write_json(path, dict(v, property=prop, module=module_name))
        replays.append(path)

    samples = [show(case_list[int(i)], 300) for i in
               np.unique(np.linspace(0, n_cases - 1, 5).astype(int))] \
        if n_cases else []

    write_json(os.path.join(ROOT, 'evidence', prop + '.json'), {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': len(states),
            'transitions': transitions,
            'traces_validated_against_impl': traces,
            'cases_enumerated': n_cases,
            'cases_executed': executed,
            'exhaustive': executed == n_cases and not violations,
            'bounds': module.BOUNDS[tier] if isinstance(module.BOUNDS, dict)
            else module.BOUNDS,
            'explanation': 'every enumerated case is executed on the real '
                           'code imported from /repo/src; states are distinct '
                           'canonicalised reached states, transitions are '
                           'executed calls or iterations, traces are '
                           'executions compared with the reference model',
            'samples': samples,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'known_findings': sorted(known_hit),
        'violations': len(violations),
        'violation_details': [dict(msg=v['msg'], case=v['case'], replay=p)
                       for v, p in zip(violations, replays)],
        'wall_s': round(wall, 3),
    })

    for key in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    for v, p in zip(violations, replays):
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s' % v['msg'])
        print('  case: %s' % v['case'])
        for k, x in v['details'].items():
            print('  %s: %s' % (k, x))
    print('%s %s: %d/%d cases, %d states, %d transitions, %d traces, %.1f s'
          % (prop, tier, executed, n_cases, len(states), transitions, traces,
             wall))
    sys.stdout.flush()
    return 1 if violations else 0
