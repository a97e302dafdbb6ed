"""C36: every run gets its own, completely described, output directory."""
import argparse
import builtins
import contextlib
import datetime
import errno
import io
import itertools
import json
import os
import subprocess
import sys
import tempfile
import threading

from chainerrl import experiments
from chainerrl.experiments import prepare_output_dir
from mc.core import Check, Tmp
from mc.sched import Scheduler, WFile, explore_schedules

chk = Check(
    'C36',
    rule='the real prepare_output_dir on a real (scratch) file system: every '
         'interleaving of the file-system operations of simultaneous runs '
         'that ask for the same directory up to a preemption bound, every '
         'state of the requested directory and of the git repository around, '
         'and a fault at every single file-system operation and git command',
    assumptions=['each file-system call is atomic',
                 'simultaneous runs differ in nothing but their arguments '
                 '(threads stand for processes)',
                 'a repository has at least one commit'])

GITFILES = {'git-head.txt': ['git', 'rev-parse', 'HEAD'],
            'git-status.txt': ['git', 'status'],
            'git-log.txt': ['git', 'log'], 'git-diff.txt': ['git', 'diff']}


class NoGit(object):
    """A git that finds no repository."""

    returncode = 128

    def __init__(self, *a, **k):
        self.args = a[0] if a else k.get('args')
        self.stdout = self.stderr = self.stdin = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def communicate(self, *a, **k):
        return b'', b''

    def wait(self, *a, **k):
        return 128

    poll = wait

    def kill(self):
        pass


@contextlib.contextmanager
def patched(pairs):
    saved = [(o, n, getattr(o, n)) for o, n, _ in pairs]
    try:
        for o, n, v in pairs:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)


FS = [(os.path, 'exists'), (os.path, 'isdir'), (os.path, 'isfile'),
      (os.path, 'lexists'), (os, 'mkdir'), (os, 'rename'), (os, 'replace'),
      (os, 'rmdir'), (os, 'remove'), (os, 'unlink'), (os, 'listdir'),
      (os, 'scandir'), (os, 'open')]


def watch(root, op, wrap_file):
    """Announce every file-system operation below root by op(name, path)."""
    pairs = []

    def deco(name, f):
        def g(path, *a, **k):
            if isinstance(path, (str, os.PathLike)) and \
                    os.path.abspath(os.fspath(path)).startswith(root):
                op(name, path)
            return f(path, *a, **k)
        return g
    for o, n in FS:
        pairs.append((o, n, deco(n, getattr(o, n))))
    real = builtins.open

    def wopen(path, *a, **k):
        if isinstance(path, (str, os.PathLike)) and \
                os.path.abspath(os.fspath(path)).startswith(root):
            op('open', path)
            return wrap_file(real(path, *a, **k))
        return real(path, *a, **k)
    pairs += [(builtins, 'open', wopen), (io, 'open', wopen)]
    return patched(pairs)


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in fs:
            with open(os.path.join(d, f), 'rb') as g:
                out[os.path.relpath(os.path.join(d, f), root)] = g.read()
    return out


def load(path):
    with open(path) as f:
        return f.read()


# ------------------------------------------------------- simultaneous runs

# directories existing beforehand; (directory asked, time string) per run
LAYOUTS = {
    'same-existing': (['d'], [('d', 'T'), ('d', 'T')]),
    'same-missing': ([], [('d', 'T'), ('d', 'T')]),
    'same-nested': ([], [('a/b', 'T'), ('a/b', 'T')]),
    'siblings': ([], [('a/b', 'T'), ('a/c', 'T')]),
    'times': ([], [('d', 'T'), ('d', 'U')]),
    'inside': ([], [('d', 'T'), ('d/T', 'T')]),
    'below': ([], [('d', 'T'), ('d/T/x', 'T')]),
    'taken': (['d', 'd/T'], [('d', 'T'), ('d', 'T')]),
    'one-taken': (['d', 'd/T'], [('d', 'T'), ('d', 'U')]),
    'temporary': ([], [(None, 'T'), (None, 'T')]),
    'mixed': (['d'], [('d', 'T'), (None, 'T')]),
}


def racegen(tier):
    deep = tier == 'thorough'
    for name in LAYOUTS:
        yield dict(layout=name, runs=2, bound=4 if deep else 2)
    for name in ('same-existing', 'same-missing', 'same-nested',
                 'temporary', 'taken'):
        yield dict(layout=name, runs=3, bound=2 if deep else 1)


@chk.part('simultaneous runs', racegen, timeout=800,
          bound='2 runs x 11 layouts with <=2 (thorough 4) preemptions, 3 '
                'runs x 5 layouts with <=1 (thorough 2)')
def races(rec, c):
    have, asks = LAYOUTS[c['layout']]
    asks = (asks + asks[:1])[:c['runs']]

    def run(ch):
        with Tmp() as d:
            d = os.path.realpath(d)
            for h in have:
                os.makedirs(os.path.join(d, h))
                with builtins.open(os.path.join(d, h, 'args.txt'), 'w') as f:
                    f.write('old ' + h)
            old = tree(d)
            s = Scheduler(ch)
            res = [None] * len(asks)

            def job(i):
                base, ts = asks[i]

                def go():
                    try:
                        res[i] = prepare_output_dir(
                            dict(run=i),
                            user_specified_dir=None if base is None
                            else os.path.join(d, base),
                            argv=['prog', '--run', str(i)], time_format=ts)
                    except Exception as e:
                        res[i] = e
                return go

            def wrap(f):
                return WFile(s, f) if s.task() is not None else f
            saved = tempfile.tempdir
            tempfile.tempdir = d
            try:
                with patched([(subprocess, 'Popen', NoGit)]), \
                        watch(d, lambda n, p: s.point(n), wrap):
                    for i in range(len(asks)):
                        s.spawn(job(i))
                    s.run()
            finally:
                tempfile.tempdir = saved
            return d, old, tree(d), res

    for ch, (d, old, new, res) in explore_schedules(run, c['bound']):
        rec.trans(len(ch.taken))
        rec.trace()
        how = 'schedule {} of {}'.format(ch.taken, c)
        good = {}
        for i, r in enumerate(res):
            if isinstance(r, Exception):
                rec.expect(isinstance(r, (RuntimeError, OSError)),
                           lambda: 'error {!r} ({})'.format(r, how))
                continue
            p = os.path.relpath(r, d)
            rec.expect(p not in good, lambda: 'runs {} and {} share {} ({})'
                       .format(good.get(p), i, p, how))
            rec.expect(p not in old, lambda: 'run {} got {}, which existed '
                       '({})'.format(i, p, how))
            good[p] = i
            base, ts = asks[i]
            rec.expect(os.path.basename(p).startswith(ts) if base is None
                       else p == os.path.join(base, ts),
                       lambda: 'directory {} ({})'.format(p, how))
            for f, want in (('args.txt', {'run': i}),
                            ('environ.txt', dict(os.environ))):
                rec.expect(json.loads(new[p + '/' + f]) == want,
                           lambda: '{} of run {}: {!r} ({})'.format(
                               f, i, new[p + '/' + f], how))
            rec.eq(new[p + '/command.txt'].decode(),
                   'prog --run {}'.format(i), 'command ' + how)
        for k, v in old.items():
            rec.expect(k in new and new[k] == v,
                       lambda: '{} changed ({})'.format(k, how))
        # nobody is turned away without a reason
        for i, r in enumerate(res):
            if not isinstance(r, Exception):
                continue
            base, ts = asks[i]
            rec.expect(base is not None, lambda: 'run {} failed: {!r} ({})'
                       .format(i, r, how))
            target = os.path.join(base, ts)
            rec.expect(target in old or any(
                g == target or g.startswith(target + '/') for g in good),
                lambda: 'run {} failed without a reason: {!r} ({})'.format(
                    i, r, how))
        rec.outcome(c['layout'], len(res), sorted(good.items()))
        rec.state(c['layout'], len(res), ch.taken)


# -------------------------------------------------------------- description

def git(d, *args):
    subprocess.run(('git',) + args, cwd=d, check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


@contextlib.contextmanager
def surroundings(d):
    """Own git configuration and working directory."""
    env, cwd, td = dict(os.environ), os.getcwd(), tempfile.tempdir
    cfg = os.path.join(d, 'gitconfig')
    with open(cfg, 'w') as f:
        f.write('[user]\n name = x\n email = x@example.com\n'
                '[safe]\n directory = *\n')
    for k in list(os.environ):
        if k.startswith('GIT_'):
            del os.environ[k]
    os.environ.update(GIT_CONFIG_GLOBAL=cfg, GIT_CONFIG_NOSYSTEM='1',
                      GIT_CEILING_DIRECTORIES=os.path.dirname(d))
    os.makedirs(os.path.join(d, 'tmp'))
    tempfile.tempdir = os.path.join(d, 'tmp')
    try:
        yield
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        tempfile.tempdir = td


def repository(w, state):
    """Put working directory w into a state; returns where to run."""
    os.makedirs(w)
    if state == 'none':
        return w
    git(w, 'init', '-q')
    for name, data in (('a.txt', b'one\n'), ('bin', b'\x80\xff\n')):
        with open(os.path.join(w, name), 'wb') as f:
            f.write(data)
    os.makedirs(os.path.join(w, 'sub'))
    with open(os.path.join(w, 'sub', 'c.txt'), 'w') as f:
        f.write('c\n')
    git(w, 'add', '.')
    git(w, 'commit', '-qm', 'first')
    if state in ('clean', 'subdir'):
        return os.path.join(w, 'sub') if state == 'subdir' else w
    with open(os.path.join(w, 'a.txt'), 'w') as f:
        f.write('two\n')
    with open(os.path.join(w, 'bin'), 'wb') as f:
        f.write(b'\x81\xfe\n')
    if state == 'staged':
        git(w, 'add', '.')
    elif state == 'second':
        git(w, 'commit', '-qam', 'second \u00e9')
    elif state == 'detached':
        git(w, 'commit', '-qam', 'second')
        git(w, 'checkout', '-q', 'HEAD~')
    elif state == 'untracked':
        with open(os.path.join(w, 'new.txt'), 'w') as f:
            f.write('n')
    elif state == 'moved':
        git(w, 'mv', 'sub', 'bus')
    else:
        assert state == 'modified'
    return w


STATES = ['none', 'clean', 'subdir', 'modified', 'staged', 'second',
          'detached', 'untracked', 'moved']
ARGS = [dict(), dict(a=1, b='2'), dict(x=None, y=[1, 2.5, True], z={'q': {}}),
        dict(name='caf\u00e9 "\\\n', big=2 ** 70, small=-1e-300)]
ARGV = [None, [], ['prog'], ['prog', '--a', '1', 'caf\u00e9', '']]
DIRS = [None, 'have', 'miss', 'miss/deep', '.', 'have/']
ENVS = [{}, {'VERIF_X': ''}, {'VERIF_X': 'a=b\n"\u00e9', 'VERIF_Y': ' '}]


def descgen(tier):
    full = tier == 'thorough'
    for s in STATES:
        for k, a in enumerate(ARGS):
            for m in range(len(DIRS)):
                if full or (k + m) % 2 == 0 or s in ('none', 'modified'):
                    yield dict(state=s, args=k, dir=m)


UNFIT = [{(1, 2): 3, 'a': 1}, {'a': {('x',): 1, 'y': 2}}, {'a': object()},
         {'a': [1, {2, 3}]}, {'a': b'x'}, {'a': {None: 1, ('q',): 2}},
         {frozenset([1]): 1}, {'a': {'b': {(): 0}}}]


def entries(x):
    if isinstance(x, dict):
        return sum(1 + entries(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return sum(1 + entries(v) for v in x)
    return 0


@chk.part('unfit arguments', lambda tier: [[i] for i in range(len(UNFIT))],
          bound='8 sets of arguments that JSON cannot hold, as a dict and as '
                'a value of a namespace, in both kinds of directories')
def unfit(rec, c):
    args = UNFIT[c[0]]
    for ns in (False, True):
        for base in ('have', None):
            with Tmp() as d:
                d = os.path.realpath(d)
                with surroundings(d):
                    at = repository(os.path.join(d, 'w'), 'none')
                    os.chdir(at)
                    given = argparse.Namespace(v=args) if ns else dict(args)
                    try:
                        out = prepare_output_dir(given, base, ['p'])
                    except Exception:
                        rec.outcome('raised')
                        continue
                    got = json.loads(load(out + '/args.txt'))
                    rec.expect(entries(got) >= entries(
                        {'v': args} if ns else args), lambda: 'directory '
                        'returned with arguments {} of {}'.format(got, args))
                    rec.outcome('saved')
            rec.trans()
    rec.trace()
    rec.state(c[0])


@chk.part('description', descgen, timeout=120,
          bound='9 states of the repository x 4 sets of arguments x 6 '
                'requested directories, with 4 command lines x 3 '
                'environments x namespace or dict each')
def description(rec, c):
    args = ARGS[c['args']]
    with Tmp() as d:
        d = os.path.realpath(d)
        with surroundings(d):
            at = repository(os.path.join(d, 'w'), c['state'])
            os.chdir(at)
            os.makedirs('have')
            with open('have/args.txt', 'w') as f:
                f.write('old')
            base = DIRS[c['dir']]
            seen = set()
            for (k, argv), (m, env) in itertools.product(
                    enumerate(ARGV), enumerate(ENVS)):
                os.environ.update(env)
                for ns in (False, True):
                    if (k + m) % 2 and ns:
                        continue
                    before = tree(at)
                    t0 = datetime.datetime.now()
                    given = dict(args)
                    out = prepare_output_dir(
                        argparse.Namespace(**given) if ns else given,
                        base, argv)
                    t1 = datetime.datetime.now()
                    rec.eq(given, args, 'arguments given')
                    rec.expect(os.path.isdir(out), 'no directory')
                    rec.expect(os.path.realpath(out) not in seen,
                               'directory used twice')
                    seen.add(os.path.realpath(out))
                    name = os.path.basename(out)
                    fmt = '%Y%m%dT%H%M%S.%f'
                    if base is None:
                        rec.eq(os.path.dirname(os.path.realpath(out)),
                               tempfile.gettempdir(), 'parent')
                        name = name[:len(t0.strftime(fmt))]
                    else:
                        rec.eq(os.path.realpath(os.path.dirname(out)),
                               os.path.realpath(base), 'parent')
                    t = datetime.datetime.strptime(name, fmt)
                    rec.expect(t0 <= t <= t1, 'time of ' + out)
                    rec.eq(json.loads(load(out + '/args.txt')), args, 'args')
                    rec.eq(json.loads(load(out + '/environ.txt')),
                           dict(os.environ), 'environment')
                    rec.eq(load(out + '/command.txt'),
                           ' '.join(sys.argv if argv is None else argv),
                           'command')
                    files = {'args.txt', 'environ.txt', 'command.txt'}
                    if c['state'] != 'none':
                        files |= set(GITFILES)
                    rec.eq(sorted(os.listdir(out)), sorted(files), 'files')
                    rec.eq(experiments.is_under_git_control(),
                           c['state'] != 'none', 'under git control')
                    after = tree(at)
                    rel = os.path.relpath(os.path.realpath(out), at)
                    for p in set(before) | set(after):
                        if p.startswith('.git/') or p.startswith(rel) or \
                                after.get(p, 0) is None and \
                                rel.startswith(p):
                            continue
                        rec.expect(p in before and p in after
                                   and before[p] == after[p],
                                   lambda: '{} changed'.format(p))
                    if c['state'] != 'none':
                        for f, cmd in GITFILES.items():
                            with open(os.path.join(out, f), 'rb') as g:
                                got = g.read()
                            want = subprocess.run(
                                cmd, stdout=subprocess.PIPE,
                                check=True).stdout
                            rec.expect(got == want, lambda: '{}: {!r} instead '
                                       'of {!r}'.format(f, got, want))
                    rec.trans()
                for key in env:
                    del os.environ[key]
    rec.trace()
    rec.state(c['state'], c['args'], c['dir'])
    rec.outcome(c['state'], c['args'], c['dir'])


# ------------------------------------------------------------------- faults

OBSTACLES = ['file', 'file-above', 'taken', 'taken-file', 'taken-full',
             'link-to-file']


def obstgen(tier):
    for o in OBSTACLES:
        for git_ in ('none', 'modified'):
            yield dict(obstacle=o, state=git_)


@chk.part('obstacles', obstgen, timeout=60,
          bound='6 obstacles in place of the directory x inside or outside '
                'a repository')
def obstacles(rec, c):
    with Tmp() as d:
        d = os.path.realpath(d)
        with surroundings(d):
            at = repository(os.path.join(d, 'w'), c['state'])
            os.chdir(at)
            base, o = 'd', c['obstacle']
            if o == 'file':
                with open('d', 'w') as f:
                    f.write('x')
            elif o == 'file-above':
                with open('d', 'w') as f:
                    f.write('x')
                base = 'd/e'
            elif o == 'link-to-file':
                with open('g', 'w') as f:
                    f.write('x')
                os.symlink('g', 'd')
            else:
                os.makedirs('d')
                if o == 'taken-file':
                    with open('d/T', 'w') as f:
                        f.write('x')
                else:
                    os.makedirs('d/T')
                    if o == 'taken-full':
                        with open('d/T/args.txt', 'w') as f:
                            f.write('x')
            before = tree(at)
            try:
                out = prepare_output_dir({}, base, ['p'], time_format='T')
            except (RuntimeError, OSError) as e:
                rec.expect(isinstance(e, RuntimeError) or o == 'file-above',
                           'error {!r}'.format(e))
            else:
                rec.fail('{} was accepted'.format(out))
            after = tree(at)
            rec.expect({k: v for k, v in after.items()
                        if not k.startswith('.git')}
                       == {k: v for k, v in before.items()
                           if not k.startswith('.git')}, 'files changed')
    rec.trace()
    rec.trans()
    rec.state(c['obstacle'], c['state'])
    rec.outcome(c['obstacle'], c['state'])


class FFile(object):
    """A file each write and close of which is announced."""

    def __init__(self, f, op):
        self._f, self._op = f, op

    def write(self, data):
        self._op('write', '')
        return self._f.write(data)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        try:
            if a[0] is None:
                self._op('close', '')
        finally:
            self._f.close()

    def close(self):
        try:
            self._op('close', '')
        finally:
            self._f.close()

    def __getattr__(self, k):
        return getattr(self._f, k)


MUTATING = {'mkdir', 'open', 'write', 'close', 'rename', 'replace'}


def faultgen(tier):
    for base in (None, 'have', 'miss/deep'):
        for state in ('none', 'modified'):
            for err in ('ENOSPC', 'EACCES', 'EIO'):
                yield dict(dir=base, state=state, err=err)


@chk.part('faults', faultgen, timeout=120,
          bound='3 requested directories x 2 states of the repository x '
                'every file-system operation failing with 3 errors and every '
                'git command failing')
def faults(rec, c):
    k = 0
    while True:
        hit = False
        with Tmp() as d:
            d = os.path.realpath(d)
            with surroundings(d):
                at = repository(os.path.join(d, 'w'), c['state'])
                os.chdir(at)
                os.makedirs('have/run')
                with open('have/run/args.txt', 'w') as f:
                    f.write('old')
                before = {p: v for p, v in tree(at).items()
                          if not p.startswith('.git')}
                count = [0]
                failed = [None]
                me = threading.get_ident()

                def op(name, path):
                    if name not in MUTATING or threading.get_ident() != me:
                        return
                    count[0] += 1
                    if count[0] == k + 1:
                        failed[0] = name
                        raise OSError(getattr(errno, c['err']), 'injected')

                real = subprocess.Popen

                class Git(real):
                    def __init__(self, *a, **kw):
                        count[0] += 1
                        # the first command decides whether this is a
                        # repository at all
                        if count[0] == k + 1 and self.no[0]:
                            failed[0] = 'git'
                            a = (['git', 'rev-parse', '-q', '--verify', 'nil'],
                                 ) + a[1:]
                        self.no[0] += 1
                        super().__init__(*a, **kw)
                    no = [0]
                # mkdtemp tries another name only when one is taken
                try:
                    with patched([(subprocess, 'Popen', Git)]), \
                            watch(d, op, lambda f: FFile(f, op)):
                        out = prepare_output_dir(
                            dict(a=1), c['dir'], ['p'], time_format='T')
                except Exception as e:
                    out = e
                hit = failed[0] is not None
                rec.expect(isinstance(out, Exception) == hit,
                           lambda: 'operation {} ({}) failed, result {!r}'
                           .format(k, failed[0], out))
                after = tree(at)
                for p, v in before.items():
                    rec.expect(p in after and after[p] == v,
                               '{} changed'.format(p))
                rec.trans()
                rec.state(sorted(map(str, c.items())), k, failed[0])
                rec.outcome(sorted(map(str, c.items())), k, failed[0])
        if count[0] <= k:
            break
        k += 1
    rec.trace()
    rec.note_max('operations of one run', k)


if __name__ == '__main__':
    raise SystemExit(chk.main())
