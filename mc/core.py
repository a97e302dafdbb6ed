"""Runner shared by every check.

A check is a set of *parts*.  A part is a generator of cases (a finite,
completely enumerated bounded space; the generator is the bound) and a case
function that executes the real chainerrl code on one case and compares every
step with an independent reference model.  Cases are JSON-able, so a violation
is replayed with

    <check>.py --replay <file>

which runs that single case again, without the explorer.
"""
import argparse
import hashlib
import json
import logging
import multiprocessing as mp
import os
import pickle
import queue as queue_mod
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# only for trying planted bugs in scratch copies
OUT = os.environ.get('VERIF_OUT') or VERIF


class Violation(Exception):
    """The property does not hold on the case being executed."""

    def __init__(self, msg, trace=None):
        super().__init__(msg)
        self.msg = msg
        self.trace = trace


class CaseTimeout(BaseException):
    """A case did not terminate within its (very generous) limit."""


def digest(obj):
    """64-bit digest of a JSON/pickle-able canonical object."""
    return int.from_bytes(
        hashlib.blake2b(canon_bytes(obj), digest_size=8).digest(), 'big')


def canon_bytes(obj):
    try:
        import numpy as np
    except ImportError:  # pragma: no cover
        np = None
    if obj is None or isinstance(obj, (bool, int, str)):
        return repr(obj).encode()
    if isinstance(obj, float):
        return obj.hex().encode()
    if isinstance(obj, (list, tuple)):
        return b'(' + b','.join(canon_bytes(o) for o in obj) + b')'
    if isinstance(obj, (set, frozenset)):
        return b'{' + b','.join(sorted(canon_bytes(o) for o in obj)) + b'}'
    if isinstance(obj, dict):
        return b'{' + b','.join(sorted(
            canon_bytes(k) + b':' + canon_bytes(v)
            for k, v in obj.items())) + b'}'
    if np is not None:
        if isinstance(obj, np.generic):
            return canon_bytes(obj.item())
        if isinstance(obj, np.ndarray):
            if obj.dtype == object:
                return canon_bytes(obj.tolist())
            return b'A' + str(obj.dtype).encode() + repr(
                obj.shape).encode() + np.ascontiguousarray(obj).tobytes()
    return repr(obj).encode()


class Recorder(object):
    """Counts what was actually executed, per worker and part."""

    def __init__(self, check):
        self.check = check
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.findings = {}
        self.notes = {}
        self.case_digest = None

    # -- counting
    def state(self, *key):
        self.states.add(digest(key))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *obj):
        d = digest(obj)
        self.outcomes.add(d)
        if self.case_digest is not None:
            self.case_digest.append(d)

    def note_max(self, key, value):
        self.notes[key] = max(self.notes.get(key, value), value)

    def note_add(self, key, value=1):
        self.notes[key] = self.notes.get(key, 0) + value

    # -- judging
    def fail(self, msg, trace=None):
        raise Violation(msg, trace)

    def expect(self, cond, msg, trace=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, trace)

    def eq(self, got, want, msg='', trace=None):
        if not same(got, want):
            raise Violation('{}: got {} want {}'.format(
                msg() if callable(msg) else msg, short(got), short(want)),
                trace)

    def close(self, got, want, msg='', rtol=1e-4, atol=1e-6, trace=None):
        import numpy as np
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        ok = g.shape == w.shape and np.allclose(
            g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok:
            raise Violation('{}: got {} want {}'.format(
                msg() if callable(msg) else msg, short(got), short(want)),
                trace)

    def finding(self, key, msg, trace=None):
        """A violation that may be a listed known finding."""
        if key in self.check.known:
            self.findings.setdefault(key, msg)
        else:
            raise Violation('[{}] {}'.format(key, msg), trace)


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def same(a, b):
    """Exact structural equality that copes with numpy values."""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return (set(a) == set(b) and all(same(a[k], b[k]) for k in a))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    r = a == b
    return bool(r)


class Part(object):
    def __init__(self, name, gen, case, timeout=200, bound=''):
        self.name = name
        self.gen = gen
        self.case = case
        self.timeout = timeout
        self.bound = bound


class Check(object):

    def __init__(self, pid, rule, level='model_checking', assumptions=()):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.parts = []
        self.known = load_known(pid)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()

    def part(self, name, gen, timeout=200, bound=''):
        """Decorator: register the case function of a part."""
        def deco(case):
            self.parts.append(Part(name, gen, case, timeout, bound))
            return case
        return deco

    # ------------------------------------------------------------------
    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument('--replay')
        ap.add_argument('--part')
        ap.add_argument('--jobs', type=int, default=int(
            os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 1))
        ap.add_argument('--list', action='store_true')
        args = ap.parse_args()
        quiet()
        if args.list:
            for p in self.parts:
                print(p.name, sum(1 for _ in p.gen(self.tier)))
            return 0
        if args.replay:
            return self.replay(args.replay)
        parts = [p for p in self.parts
                 if args.part is None or p.name == args.part]
        return self.run(parts, max(1, args.jobs))

    def replay(self, path):
        with open(path) as f:
            rep = json.load(f)
        part = [p for p in self.parts if p.name == rep['part']][0]
        rec = Recorder(self)
        v = run_case(self, part, rec, rep['case'])
        if v is None:
            print('replay: property held on this case')
            return 0
        print(v['msg'])
        if v.get('trace'):
            print(json.dumps(v['trace'], default=repr, indent=1))
        print('VIOLATION property={} replay={}'.format(self.pid, path))
        return 1

    def run(self, parts, jobs):
        deadline = self.t0 + float(os.environ.get(
            'VERIF_DEADLINE', '840' if self.tier == 'quick' else '43200'))
        ctx = mp.get_context('fork')
        outq = ctx.Queue()
        stop = ctx.Value('b', 0)
        counters = [ctx.Value('l', 0) for _ in parts]
        procs = []
        scratch = tempfile.mkdtemp(prefix='mc_{}_'.format(self.pid))
        sys.stdout.flush()
        for w in range(jobs):
            p = ctx.Process(target=self._worker, args=(
                parts, w, counters, outq, stop, scratch))
            p.start()
            procs.append(p)
        merged = {p.name: Recorder(self) for p in parts}
        meta = {p.name: dict(cases=0, samples=[]) for p in parts}
        violations = []
        errors = []
        alive = jobs
        while alive > 0:
            try:
                kind, w, payload = outq.get(timeout=1.0)
            except queue_mod.Empty:
                dead = [p for p in procs if p.exitcode not in (None, 0)]
                if dead:
                    errors.append('worker died with exit code {}'.format(
                        [p.exitcode for p in dead]))
                    break
                if time.time() > deadline:
                    errors.append('deadline of the check reached')
                    break
                continue
            if kind == 'violation':
                violations.append(payload)
                if self.tier == 'quick':
                    with stop.get_lock():
                        stop.value = 1
            elif kind == 'result':
                name, r, cases, samples = payload
                m = merged[name]
                m.states |= r['states']
                m.transitions += r['transitions']
                m.traces += r['traces']
                m.outcomes |= r['outcomes']
                for k, v in r['findings'].items():
                    m.findings.setdefault(k, v)
                for k, v in r['notes'].items():
                    if k.startswith('max_'):
                        m.note_max(k, v)
                    else:
                        m.note_add(k, v)
                meta[name]['cases'] += cases
                meta[name]['samples'].extend(samples)
            elif kind == 'done':
                alive -= 1
        for p in procs:
            if alive > 0 and p.is_alive():
                p.terminate()
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

        findings = {}
        for m in merged.values():
            findings.update(m.findings)
        for k in sorted(findings):
            print('KNOWN-FINDING: property={} {}: {}'.format(
                self.pid, k, findings[k].splitlines()[0][:300]))
        self._evidence(parts, merged, meta, violations, errors)
        if violations:
            violations.sort(key=lambda v: (v['part_index'], v['index']))
            v = violations[0]
            path = self._write_replay(v)
            print('part={} case={}'.format(v['part'], short(v['case'])))
            print(v['msg'][:4000])
            print('VIOLATION property={} replay={}'.format(self.pid, path))
            return 1
        if errors:
            print('CHECK-ERROR ' + '; '.join(errors))
            return 2
        tot = self._totals(merged, meta)
        print('OK property={} tier={} cases={} states={} transitions={} '
              'traces={} outcomes={} wall={:.1f}s'.format(
                  self.pid, self.tier, tot['cases'], tot['states'],
                  tot['transitions'], tot['traces'], tot['outcomes'],
                  time.time() - self.t0))
        return 0

    def _write_replay(self, v):
        d = os.path.join(OUT, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '{}.json'.format(self.pid))
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, part=v['part'], case=v['case'],
                           message=v['msg'], trace=v.get('trace')),
                      f, indent=1, default=repr)
        return path

    def _totals(self, merged, meta):
        return dict(
            cases=sum(m['cases'] for m in meta.values()),
            states=sum(len(m.states) for m in merged.values()),
            transitions=sum(m.transitions for m in merged.values()),
            traces=sum(m.traces for m in merged.values()),
            outcomes=sum(len(m.outcomes) for m in merged.values()))

    def _evidence(self, parts, merged, meta, violations, errors):
        tot = self._totals(merged, meta)
        per = {}
        samples = []
        for p in parts:
            m = merged[p.name]
            per[p.name] = dict(
                bound=p.bound, cases=meta[p.name]['cases'],
                states=len(m.states), transitions=m.transitions,
                executions_compared=m.traces,
                distinct_outcomes=len(m.outcomes), **m.notes)
            for s in sorted(meta[p.name]['samples'],
                            key=lambda s: s['index'])[:2]:
                samples.append(dict(part=p.name, case=s['case']))
        cov = dict(
            states=tot['states'], transitions=tot['transitions'],
            traces_validated_against_impl=tot['traces'],
            evaluations=tot['cases'], distinct_nontrivial=tot['outcomes'],
            rule=self.rule, samples=samples, per_part=per,
            exhaustive=not (violations or errors))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 3),
                  violations=len(violations))
        d = os.path.join(OUT, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.{}.json.tmp'.format(self.pid))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(d, '{}.json'.format(self.pid)))

    # ------------------------------------------------------------------
    def _worker(self, parts, w, counters, outq, stop, scratch):
        try:
            quiet()
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            os.environ['MC_SCRATCH'] = os.path.join(scratch, str(w))
            os.makedirs(os.environ['MC_SCRATCH'])
            for pi, part in enumerate(parts):
                self._worker_part(pi, part, w, counters[pi], outq, stop)
        finally:
            outq.put(('done', w, None))
            outq.close()
            outq.join_thread()
            sys.stdout.flush()
            os._exit(0)

    def _worker_part(self, pi, part, w, counter, outq, stop):
        rec = Recorder(self)
        cases = 0
        samples = []

        # dynamic distribution: grab chunks of indices from a shared counter
        chunk = 1
        nxt, end = 0, 0
        gen = enumerate(part.gen(self.tier))
        for index, case in gen:
            if index >= end:
                with counter.get_lock():
                    nxt = counter.value
                    chunk = 1 if nxt < 256 else 8
                    counter.value = nxt + chunk
                end = nxt + chunk
            if index < nxt:
                continue
            if stop.value:
                break
            v = run_case(self, part, rec, case, twice=(index < 3))
            cases += 1
            if index < 2 or index % 1009 == 500 and len(samples) < 2:
                samples.append(dict(index=index, case=case))
            if v is not None:
                v.update(part=part.name, case=case, index=index,
                         part_index=pi)
                outq.put(('violation', w, sanitize(v)))
                break
        outq.put(('result', w, (part.name, dict(
            states=rec.states, transitions=rec.transitions,
            traces=rec.traces, outcomes=rec.outcomes,
            findings=rec.findings, notes=rec.notes), cases,
            sanitize(samples))))


def sanitize(x):
    return json.loads(json.dumps(x, default=repr))


def run_case(check, part, rec, case, twice=False):
    """Execute one case; returns None or a violation dict."""
    case = json_roundtrip(case)

    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(part.timeout)
    try:
        rec.case_digest = []
        part.case(rec, case)
        if twice:
            first = rec.case_digest
            rec2 = Recorder(check)
            rec2.case_digest = []
            part.case(rec2, case)
            if rec2.case_digest != first:
                return dict(msg='the same case executed twice gave different '
                                'observations')
        return None
    except Violation as e:
        return dict(msg='{}\n(case {})'.format(e.msg, short(case)),
                    trace=e.trace)
    except CaseTimeout:
        return dict(msg='case did not terminate within {} s (livelock)\n{}'
                    .format(part.timeout, traceback.format_exc()[-1500:]))
    except MemoryError:
        raise
    except Exception as e:
        return dict(msg='unexpected {}: {}\n{}'.format(
            type(e).__name__, e, traceback.format_exc()[-3000:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        rec.case_digest = None


def json_roundtrip(case):
    """Cases reach the case function in the form a replay file holds."""
    return json.loads(json.dumps(case))


def quiet():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data.get('findings', [])
            if e['property'] == pid}


def scratch_dir(name='d'):
    """A fresh scratch directory owned by this worker."""
    base = os.environ.get('MC_SCRATCH')
    if base is None:
        base = tempfile.mkdtemp(prefix='mc_replay_')
        os.environ['MC_SCRATCH'] = base
    return tempfile.mkdtemp(prefix=name + '_', dir=base)


class Tmp(object):
    def __init__(self, name='d'):
        self.name = name

    def __enter__(self):
        self.path = scratch_dir(self.name)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
