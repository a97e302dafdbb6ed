"""C42: pretrained models are used only when complete."""
import contextlib
import io
import itertools
import os
import shutil
import signal
import sys
import time
import traceback
import warnings
import zipfile

from mc import core
from mc.core import Check

warnings.filterwarnings('ignore')
from chainerrl.misc import pretrained_models as P  # NOQA

chk = Check(
    'C42',
    rule='the real download_model runs in child processes against a "server" '
         'directory (file: URLs); children are killed or suspended at every '
         'operating system call they make through Python (writes, renames, '
         'directory operations, locks), in all combinations within bounds; '
         'every call that returns must return a directory equal to the '
         'served model, and whether it was cached must be true',
    assumptions=['a killed process loses what it had not yet written out; '
                 'the machine itself does not crash', 'file locks of dead '
                 'processes are released by the operating system'])

OPS = {'write', 'close', 'rename', 'replace', 'mkdir', 'rmdir', 'unlink',
       'remove', 'open', 'flock', 'lockf', 'symlink', 'link', 'truncate',
       'fsync', 'utime', 'chmod', 'writelines',
       'copy_file_range', 'sendfile'}
MODELS = {('DQN', 'Pong', 'best'): {'model.npz': 70000, 'opt.npz': 10},
          ('DQN', 'Pong', 'final'): {'model.npz': 300, 'sub/x.npz': 3},
          ('PPO', 'Pong', 'final'): {'model.npz': 50},
          ('DQN', 'Qbert', 'best'): {'model.npz': 20}}
KEYS = sorted(MODELS)


def content(key, name, version=0):
    n = MODELS[key][name]
    seed = (repr(key) + name + str(version)).encode()
    # hardly compressible, so that reading and writing takes several calls
    import hashlib
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(seed + str(i).encode()).digest()
        i += 1
    return out[:n]


def serve(root, keys=KEYS):
    for key in keys:
        alg, env, typ = key
        d = os.path.join(root, 'server', alg, env)
        os.makedirs(d, exist_ok=True)
        with zipfile.ZipFile(os.path.join(d, typ + '.zip'), 'w') as z:
            for name in MODELS[key]:
                z.writestr(typ + '/' + name, content(key, name))


def read_tree(path):
    out = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


def complete(path, key):
    want = {n: content(key, n) for n in MODELS[key]}
    got = read_tree(path)
    if got == want:
        return None
    return 'files {} instead of {}'.format(
        {k: len(v) for k, v in got.items()},
        {k: len(v) for k, v in want.items()})


class Proc(object):
    """A child that runs one call; stops at given operations."""

    def __init__(self, root, key, stops=(), kill=None):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r1)
                os.close(w2)
                child(root, key, set(stops), kill, w1, r2)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(9)
        os.close(w1)
        os.close(r2)
        self.r = os.fdopen(r1, 'r')
        self.w = w2
        self.result = None

    def wait(self):
        """Next report: 'stop n', 'blocked', 'ok path cached n', 'error'."""
        line = self.r.readline()
        if line == '':
            os.waitpid(self.pid, 0)
            self.result = ('dead',)
        else:
            f = line.rstrip('\n').split('\t')
            if f[0] in ('ok', 'error'):
                self.result = tuple(f)
                os.waitpid(self.pid, 0)
            return f
        return ['dead']

    def go(self):
        os.write(self.w, b'g')

    def end(self):
        self.r.close()
        os.close(self.w)
        if self.result is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)


def child(root, key, stops, kill, w, r):
    os.environ['CHAINER_DATASET_ROOT'] = os.path.join(root, 'cache')
    import chainer.dataset.download as D
    D.set_dataset_root(os.path.join(root, 'cache'))
    P.download_url = 'file://' + os.path.join(root, 'server')
    count = [0]
    real_write = os.write

    def say(*a):
        real_write(w, ('\t'.join(str(x) for x in a) + '\n').encode())

    def pause(*a):
        sys.setprofile(None)
        say(*a)
        os.read(r, 1)
        sys.setprofile(prof)

    def sleep(s):
        # only reached while a lock is taken by somebody else
        pause('blocked')
    time.sleep = sleep

    def prof(frame, event, arg):
        if event != 'c_call' or arg.__name__ not in OPS:
            return
        count[0] += 1
        if count[0] == kill:
            os._exit(5)
        if count[0] in stops:
            pause('stop', count[0])
    alg, env, typ = key
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            sys.setprofile(prof)
            try:
                path, cached = P.download_model(
                    alg, env + 'NoFrameskip-v4', model_type=typ)
            finally:
                sys.setprofile(None)
        say('ok', path, bool(cached), count[0])
    except Exception as e:
        say('error', type(e).__name__,
            str(e).replace('\n', ' ').replace('\t', ' '), count[0])
    os._exit(0)


def call(root, key, kill=None):
    p = Proc(root, key, kill=kill)
    p.wait()
    p.end()
    return p.result


def verify(rec, key, res, cached, what):
    rec.expect(res[0] == 'ok', lambda: '{}: the call failed: {}'.format(
        what, res))
    bad = complete(res[1], key)
    rec.expect(bad is None, lambda: '{}: download_model returned {} (cached: '
               '{}) with {}'.format(what, res[1], res[2], bad))
    if cached is not None:
        rec.expect(res[2] == str(cached), lambda: '{}: reported as {}cached'
                   .format(what, '' if res[2] == 'True' else 'not '))


def n_ops(key, prior=()):
    with core.Tmp() as root:
        serve(root)
        for k in prior:
            call(root, k)
        return int(call(root, key)[3])


def gen_crash(tier):
    for key in KEYS[:2] if tier == 'quick' else KEYS:
        for part in range(8):
            yield [KEYS.index(key), part, 8]


@chk.part('crash', gen_crash, timeout=600,
          bound='a call killed at each of its operations, then (thorough: a '
                'second call killed at each third of its operations, then) '
                'two complete calls; also with another model stored before')
def crash(rec, case):
    key = KEYS[case[0]]
    other = KEYS[(case[0] + 1) % len(KEYS)]
    n = n_ops(key)
    deep = chk.tier == 'thorough'
    for k in range(1 + case[1], n + 1, case[2]):
        for second in [None] + (list(range(1, n + 1, 3)) if deep else []):
            with core.Tmp() as root:
                serve(root)
                if k % 2:
                    call(root, other)
                what = '{} killed at operation {} of {}'.format(key, k, n)
                res = call(root, key, kill=k)
                if res[0] != 'dead':
                    # fewer operations when another model is there
                    rec.expect(k % 2 and k > n // 2, lambda: '{}: {}'.format(
                        what, res))
                    continue
                if second is not None:
                    what += ', again at {}'.format(second)
                    call(root, key, kill=second)
                res = call(root, key)
                verify(rec, key, res, None, what)
                # without the server: nothing is downloaded twice
                shutil.rmtree(os.path.join(root, 'server'))
                verify(rec, key, call(root, key), True, what + ', 2nd call')
                if k % 2:
                    verify(rec, other, call(root, other), True,
                           what + ', other model')
                rec.trace()
                rec.trans(3)
                rec.state('crash', case[0], k, second)
                rec.outcome(res[2])


def gen_two(tier):
    for a, b in ((0, 0), (0, 1)) if tier == 'quick' else (
            (0, 0), (0, 1), (1, 0), (0, 2), (2, 3)):
        for part in range(8):
            yield [a, b, part, 8]


@chk.part('two processes', gen_two, timeout=900,
          bound='two processes asking for the same or another model: the '
                'first suspended at each of its operations while the second '
                'runs until it ends or waits (thorough: is suspended itself '
                'at every third operation); then the first is resumed or '
                'killed')
def two(rec, case):
    a, b = KEYS[case[0]], KEYS[case[1]]
    n = n_ops(a)
    deep = chk.tier == 'thorough'
    for k in range(1 + case[2], n + 1, case[3]):
        for stop2 in [None] + (list(range(1, n + 1, 3)) if deep else []):
            for killed in (False, True):
                run_two(rec, a, b, k, stop2, killed, case)


def run_two(rec, a, b, k, stop2, killed, case):
    what = '{} suspended at operation {} while another process asks for {}' \
        '{}{}'.format(a, k, b, ' (suspended at {})'.format(stop2)
                      if stop2 else '', ', then killed' if killed else '')
    with core.Tmp() as root:
        serve(root)
        p = Proc(root, a, stops=[k])
        q = None
        try:
            got = p.wait()
            rec.expect(got[0] == 'stop', lambda: '{}: {}'.format(what, got))
            q = Proc(root, b, stops=[stop2] if stop2 else ())
            got = q.wait()          # stop, blocked, ok or error
            early = q.result
            if early is not None:
                verify(rec, b, early, None, what + ' (2nd process)')
            if killed:
                os.kill(p.pid, signal.SIGKILL)
                os.waitpid(p.pid, 0)
                p.result = ('dead',)
            else:
                p.go()
                turns = 0
                while p.result is None:
                    got = p.wait()
                    if got[0] == 'blocked':
                        # waits for the other one
                        turns += 1
                        rec.expect(turns < 300 and q.result is None,
                                   lambda: what + ': both wait forever')
                        q.go()
                        q.wait()
                        if p.result is None:
                            p.go()
                verify(rec, a, p.result, None, what + ' (1st process)')
            turns = 0
            while q.result is None:
                turns += 1
                rec.expect(turns < 300, lambda: what + ': the second process '
                           'waits forever')
                q.go()
                q.wait()
            verify(rec, b, q.result, None, what + ' (2nd process, end)')
            if a == b and not killed:
                first = [p.result[2], q.result[2]]
                rec.expect('False' in first, lambda: what + ': both report a '
                           'cached model')
        finally:
            p.end()
            if q is not None:
                q.end()
        verify(rec, a, call(root, a), True if not killed or a == b else None,
               what + ' (later)')
        rec.trace()
        rec.trans(3)
        rec.state('two', case[:2], k, stop2, killed)


STEPS = ['ok', 'missing', 'garbage']


def gen_seq(tier):
    n = 3 if tier == 'quick' else 4
    for keys in itertools.product(range(3), repeat=n):
        yield [list(keys)]


@chk.part('sequences', gen_seq, timeout=600,
          bound='all sequences of 3 (thorough 4) calls over three models x '
                'every served file present, missing or broken')
def sequences(rec, case):
    for faults in itertools.product(STEPS, repeat=len(case[0])):
        with core.Tmp() as root:
            stored = set()
            broken = set()
            for i, (ki, fault) in enumerate(zip(case[0], faults)):
                key = KEYS[ki]
                d = os.path.join(root, 'server')
                shutil.rmtree(d, ignore_errors=True)
                serve(root)
                f = os.path.join(d, key[0], key[1], key[2] + '.zip')
                if fault == 'missing':
                    os.remove(f)
                elif fault == 'garbage':
                    with open(f, 'wb') as fh:
                        fh.write(b'<html>busy</html>')
                res = call(root, key)
                what = 'calls {} served {} call {}'.format(
                    [KEYS[j] for j in case[0]], faults, i)
                if key in stored:
                    verify(rec, key, res, True, what)
                elif fault == 'ok' and key not in broken:
                    verify(rec, key, res, False, what)
                    stored.add(key)
                elif res[0] == 'ok':
                    # may have recovered from a broken file
                    rec.expect(fault == 'ok', lambda: what + ': returned '
                               '{}'.format(res))
                    verify(rec, key, res, False, what)
                    stored.add(key)
                elif fault == 'garbage':
                    broken.add(key)
                rec.trans()
                rec.outcome(res[0], fault)
            rec.trace()
            rec.state('seq', case[0], faults)


if __name__ == '__main__':
    raise SystemExit(chk.main())
