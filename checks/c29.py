"""C29: Atari environments are preprocessed as defined."""
import itertools
import warnings

import numpy as np

from mc.choices import explore
from mc.core import Check

warnings.filterwarnings('ignore')

chk = Check(
    'C29',
    rule='every Atari wrapper, every combination of options of wrap_deepmind '
         'on make_atari, and the ALE environment are run on a scripted '
         'emulator with every sequence of events (frames, rewards, lost '
         'lives, game over, time limit), every random number of no-ops and '
         'every flicker; observations, rewards, ends and the calls of the '
         'emulator are compared with direct definitions',
    assumptions=['OpenCV\'s grey conversion and resizing are right within '
                 'one grey level of area averaging'])

EVENTS = ['', 'life', 'over', 'limit']


class Script(object):
    """Answers of the emulator: chosen once, replayed for the reference."""

    def __init__(self, ch, events=EVENTS, rewards=(0., 2., -1.), lives=2,
                 choose_rewards=False):
        self.choose_rewards = choose_rewards
        self.ch, self.events, self.rewards = ch, events, rewards
        self.answers, self.draws = [], []
        self.max_lives = lives

    def answer(self, i):
        while len(self.answers) <= i:
            e = self.ch.pick(self.events, 'event')
            r = self.rewards[len(self.answers) % len(self.rewards)]
            if self.choose_rewards:
                r = self.ch.pick(list(self.rewards), 'reward')
            self.answers.append((e, r))
        return self.answers[i]

    def draw(self, i, n):
        while len(self.draws) <= i:
            ks = list(range(n)) if n < 10 else [0, 1, n - 1]
            self.draws.append((self.ch.pick(ks, 'random'), n))
        k, m = self.draws[i]
        assert m == n, 'other random draws'
        return k


class Rand(object):
    def __init__(self, script):
        self.script, self.i = script, 0

    def _draw(self, n):
        self.i += 1
        return self.script.draw(self.i - 1, n)

    def randint(self, low, high=None):
        if high is None:
            low, high = 0, low
        return low + self._draw(high - low)

    integers = randint

    def rand(self):
        return (self._draw(4) + 0.5) / 4
    random_sample = random = rand


FRAMES = {}


def frame(i, shape):
    """Raw frames: different everywhere, none the maximum of others."""
    if (i, shape) not in FRAMES:
        n = int(np.prod(shape))
        FRAMES[i, shape] = ((np.arange(n) * (37 + 2 * i) + 91 * i * i + 11 * i)
                            % 251).astype(np.uint8).reshape(shape)
    return FRAMES[i, shape].copy()


def emulator(script, shape=(2, 2, 3), fire=True):
    import gym

    class Ale(object):
        def __init__(self, env):
            self.env = env

        def lives(self):
            return self.env.lives

    class Emulator(gym.Env):
        metadata = {'render.modes': []}

        def __init__(self):
            self.ale = Ale(self)
            self.action_space = gym.spaces.Discrete(3)
            self.observation_space = gym.spaces.Box(
                low=0, high=255, shape=shape, dtype=np.uint8)
            self.np_random = Rand(script)
            self.n = self.steps = 0
            self.log = []
            self.lives = 0
            self.over = True

        def get_action_meanings(self):
            return ['NOOP', 'FIRE', 'UP'] if fire else ['NOOP', 'UP', 'DOWN']

        def obs(self):
            self.n += 1
            return frame(self.n, shape)

        def reset(self):
            self.log.append('reset')
            self.lives = script.max_lives
            self.over = False
            return self.obs()

        def step(self, a):
            self.log.append(int(a))
            if self.over:
                self.log.append('dead')
            e, r = script.answer(self.steps)
            self.steps += 1
            info = {'step': self.steps}
            if e == 'life' and self.lives > 0:
                self.lives -= 1
            if e == 'bonus' and not self.over:
                self.lives += 1
            if e == 'over' or (e == 'life' and self.lives == 0):
                self.lives = 0
                self.over = True
            if e == 'limit':
                info['needs_reset'] = True
            return self.obs(), r, self.over, info
    return Emulator()


# -------------------------------------------------------------- references

class Ref(object):
    """A definition of a wrapper on top of another one."""

    def __init__(self, env, base):
        self.env, self.base = env, base

    def reset(self):
        return self.env.reset()

    def step(self, a):
        return self.env.step(a)


def ended(done, info):
    return bool(done or info.get('needs_reset', False))


class RLimit(Ref):
    def __init__(self, env, base, n):
        super().__init__(env, base)
        self.n = n

    def reset(self):
        self.t = 0
        return self.env.reset()

    def step(self, a):
        o, r, d, info = self.env.step(a)
        self.t += 1
        if self.t >= self.n:
            info = dict(info, needs_reset=True)
        return o, r, d, info


class RNoop(Ref):
    def __init__(self, env, base, n, forced=None):
        super().__init__(env, base)
        self.n, self.forced = n, forced

    def reset(self):
        self.env.reset()
        k = self.forced
        if k is None:
            k = self.base.np_random.randint(1, self.n + 1)
        for _ in range(k):
            o, r, d, info = self.env.step(0)
            if ended(d, info):
                o = self.env.reset()
        return o


class RSkip(Ref):
    def __init__(self, env, base, n):
        super().__init__(env, base)
        self.n = n

    def step(self, a):
        frames, total = [], 0.
        for _ in range(self.n):
            o, r, d, info = self.env.step(a)
            frames.append(o)
            total += r
            if ended(d, info):
                break
        # the observation of a finished game is never used
        return (None if d and len(frames) < self.n else
                np.max(frames[-2:], axis=0)), total, d, info


class RLife(Ref):
    def __init__(self, env, base):
        super().__init__(env, base)
        self.fresh, self.lives = True, 0

    def step(self, a):
        o, r, d, info = self.env.step(a)
        self.fresh = ended(d, info)
        now = self.base.lives
        lost = 0 < now < self.lives
        self.lives = now
        return o, r, bool(d or lost), info

    def reset(self):
        if not self.fresh:
            o, r, d, info = self.env.step(0)
            if ended(d, info):
                o = self.env.reset()
        else:
            o = self.env.reset()
        self.lives = self.base.lives
        return o


class RFire(Ref):
    def reset(self):
        self.env.reset()
        for a in (1, 2):
            o, r, d, info = self.env.step(a)
            if ended(d, info):
                o = self.env.reset()
        return o


class RObs(Ref):
    def __init__(self, env, base, f):
        super().__init__(env, base)
        self.f = f

    def reset(self):
        return self.f(self.env.reset())

    def step(self, a):
        o, r, d, info = self.env.step(a)
        return (None if o is None else self.f(o)), r, d, info


class RClip(Ref):
    def step(self, a):
        o, r, d, info = self.env.step(a)
        return o, (r > 0) - (r < 0), d, info


class RStack(Ref):
    def __init__(self, env, base, k, axis):
        super().__init__(env, base)
        self.k, self.axis = k, axis

    def out(self):
        if any(f is None for f in self.frames):
            return None
        return np.concatenate(self.frames, axis=self.axis)

    def reset(self):
        self.frames = [self.env.reset()] * self.k
        return self.out()

    def step(self, a):
        o, r, d, info = self.env.step(a)
        self.frames = self.frames[1:] + [o]
        return self.out(), r, d, info


class RFlicker(Ref):
    def hide(self, o):
        if self.base.np_random.rand() < 0.5:
            return None if o is None else np.zeros_like(o)
        return o

    def reset(self):
        return self.hide(self.env.reset())

    def step(self, a):
        o, r, d, info = self.env.step(a)
        return self.hide(o), r, d, info


def warp(f, order):
    """Grey area averages of an RGB frame, 84 x 84."""
    grey = f.astype('d').dot([0.299, 0.587, 0.114])
    for axis in (0, 1):
        n = grey.shape[axis]
        w = np.zeros((84, n))
        for i in range(84):
            lo, hi = i * n / 84., (i + 1) * n / 84.
            for j in range(n):
                w[i, j] = max(0., min(hi, j + 1) - max(lo, j))
        w /= w.sum(axis=1, keepdims=True)
        grey = np.moveaxis(np.tensordot(w, grey, (1, axis)), 0, axis)
    return grey[:, :, None] if order == 'hwc' else grey[None]


# ------------------------------------------------------------------ driver

def play(rec, ch, script, real, ref, depth, what, tol=0, actions=(2,),
         must_end=True):
    """An agent that resets when told to, or earlier."""
    ops = []
    over = True

    def obs(got, want, label):
        if want is None:
            return
        got = np.asarray(got)
        rec.eq(got.shape, want.shape, lambda: label() + ': shape')
        if tol:
            rec.expect(np.abs(got.astype('d') - want).max() <= tol,
                       lambda: label() + ': observation')
        else:
            rec.eq(got, want, lambda: label() + ': observation')

    def label():
        return '{} {} events {} random {}'.format(
            what, ops, script.answers, script.draws)
    for t in range(depth):
        k = 0 if over else 1 + ch.choose(len(actions) + 1, 'op')
        if k == 0 or k > len(actions):
            ops.append('reset')
            o = real.reset()
            obs(o, ref.reset(), label)
            over = False
        else:
            a = actions[k - 1]
            ops.append(a)
            o, r, d, info = real.step(a)
            o2, r2, d2, info2 = ref.step(a)
            rec.eq(float(r), float(r2), lambda: label() + ': reward')
            rec.eq(bool(d), bool(d2), lambda: label() + ': done')
            rec.eq(bool(info.get('needs_reset', False)),
                   bool(info2.get('needs_reset', False)),
                   lambda: label() + ': needs_reset')
            rec.eq(info.get('step'), info2.get('step'),
                   lambda: label() + ': info')
            if not d2:
                obs(o, o2, label)
            over = ended(d2, info2)
            rec.outcome((bool(d2), bool(info2.get('needs_reset')), float(r2)))
        rec.eq(real.unwrapped.log, ref.base.log, lambda: label() +
               ': calls of the emulator')
        rec.expect('dead' not in ref.base.log, lambda: label() +
                   ': a finished game is stepped')
        rec.trans()
    rec.trace()
    rec.state(ref.base.log)


def explored(rec, run, bound=None):
    rec.note_add('executions', sum(1 for _ in explore(run, bound=bound)))


SINGLE = ['noop1', 'noop2', 'noop3', 'forced2', 'skip1', 'skip2', 'skip3',
          'skip4', 'life', 'fire', 'clip', 'flicker', 'stack2', 'stack3c',
          'scale', 'lifebonus', 'lifefire', 'skiplife', 'noopskip']


def gen_single(tier):
    for kind in SINGLE:
        yield [kind, 1 if tier == 'thorough' else 0]


@chk.part('wrappers', gen_single, bound='each wrapper and some pairs, up to 6 '
          'raw steps with every event, all random draws, resets at any time '
          '(thorough one more)')
def wrappers(rec, case):
    kind, deep = case
    from chainerrl.wrappers import atari_wrappers as W
    depth = {'skip1': 6, 'skip2': 5, 'skip3': 5, 'skip4': 5, 'noop3': 2,
             'noop1': 4, 'noop2': 3, 'forced2': 3, 'fire': 3, 'lifefire': 3,
             'skiplife': 5, 'noopskip': 3, 'flicker': 4, 'stack2': 6,
             'stack3c': 6, 'life': 6, 'lifebonus': 6, 'clip': 4}.get(kind, 5) + deep

    def run(ch):
        events = EVENTS
        if kind in ('noop3', 'skip4', 'noop2', 'noopskip', 'forced2',
                    'flicker', 'skip3'):
            events = ['', 'over', 'limit']
        if kind == 'lifebonus':
            events = ['', 'life', 'bonus']
        s = Script(ch, events, (0., 2.5, -1.5), 2, kind == 'clip')
        shape = (2, 1, 3) if kind == 'stack3c' else (2, 2, 3)
        a, b = emulator(s, shape), emulator(s, shape)
        if kind.startswith('noop') and kind != 'noopskip':
            n = int(kind[4:])
            w, r = W.NoopResetEnv(a, noop_max=n), RNoop(b, b, n)
        elif kind == 'forced2':
            w, r = W.NoopResetEnv(a, noop_max=30), RNoop(b, b, 30, 2)
            w.override_num_noops = 2
        elif kind in ('skip1', 'skip2', 'skip3', 'skip4'):
            n = int(kind[4:])
            w, r = W.MaxAndSkipEnv(a, skip=n), RSkip(b, b, n)
        elif kind in ('life', 'lifebonus'):
            w, r = W.EpisodicLifeEnv(a), RLife(b, b)
        elif kind == 'fire':
            w, r = W.FireResetEnv(a), RFire(b, b)
        elif kind == 'lifefire':
            w = W.FireResetEnv(W.EpisodicLifeEnv(a))
            r = RFire(RLife(b, b), b)
        elif kind == 'skiplife':
            w = W.EpisodicLifeEnv(W.MaxAndSkipEnv(a, skip=2))
            r = RLife(RSkip(b, b, 2), b)
        elif kind == 'noopskip':
            w = W.MaxAndSkipEnv(W.NoopResetEnv(a, noop_max=2), skip=2)
            r = RSkip(RNoop(b, b, 2), b, 2)
        elif kind == 'clip':
            w, r = W.ClipRewardEnv(a), RClip(b, b)
        elif kind == 'flicker':
            w, r = W.FlickerFrame(a), RFlicker(b, b)
        elif kind == 'stack2':
            w, r = W.FrameStack(a, 2), RStack(b, b, 2, 2)
        elif kind == 'stack3c':
            w = W.FrameStack(a, 3, channel_order='chw')
            r = RStack(b, b, 3, 0)
        elif kind == 'scale':
            w = W.ScaledFloatFrame(a)
            r = RObs(b, b, lambda o: o.astype('f') / np.float32(255))
        if kind.startswith('stack'):
            axis, k = r.axis, r.k
            for x, y in ((w.observation_space.low, a.observation_space.low),
                         (w.observation_space.high,
                          a.observation_space.high)):
                rec.eq(x, np.concatenate([y] * k, axis=axis), 'bounds')
        # an episodic life environment on a game over by the last life
        play(rec, ch, s, w, r, depth, kind)
    explored(rec, run, bound=4 + deep if kind == 'lifefire' else None)


# (episode_life, clip_rewards, frame_stack, scale, flicker, fire_reset)
TYPICAL = [(True, True, True, False, False, False),
           (False, False, True, False, False, False),
           (True, True, False, True, True, True),
           (False, True, False, False, True, True)]


def flags():
    return itertools.product((True, False), repeat=6)


def gen_pipeline(tier):
    for i, f in enumerate(flags()):
        for order in ('chw', 'hwc'):
            for fire in (True, False):
                if not fire and not f[5]:
                    continue
                deep = f in TYPICAL and fire
                yield [list(f), order, fire,
                       2 + deep if tier == 'thorough' else 1 + deep]


def register(maker, limit):
    import gym
    name = 'McFakeNoFrameskip-v0'
    specs = gym.envs.registration.registry.env_specs
    specs.pop(name, None)
    gym.register(id=name, entry_point=lambda: maker(),
                 max_episode_steps=limit)
    return name


@chk.part('make_atari and wrap_deepmind', gen_pipeline, bound='every '
          'combination of options, both channel orders, games with and '
          'without FIRE, all scripts with at most 1 (typical options 2; thorough '
          'one more) events, draws or extra resets, 4 calls', timeout=600)
def pipeline(rec, case):
    (life, clip, stack, scale, flicker, fire_reset), order, fire, deep = case
    from chainerrl.wrappers import atari_wrappers as W
    shape = (84, 84, 3)
    limit = [None, 7, 12][(life + 2 * clip + stack) % 3]

    def run(ch):
        s = Script(ch, EVENTS + ['bonus'] * (life and deep > 1))
        name = register(lambda: emulator(s, shape, fire), 1000)
        w = W.make_atari(name, max_frames=limit)
        w = W.wrap_deepmind(
            w, episode_life=life, clip_rewards=clip, frame_stack=stack,
            scale=scale, fire_reset=fire_reset, channel_order=order,
            flicker=flicker)
        b = emulator(s, shape, fire)
        r = b
        if limit is not None:
            r = RLimit(r, b, limit)
        r = RSkip(RNoop(r, b, 30), b, 4)
        if life:
            r = RLife(r, b)
        if fire_reset and fire:
            r = RFire(r, b)

        def view(o):
            key = o.tobytes()
            if key not in MEMO:
                if len(MEMO) > 3000:
                    MEMO.clear()
                MEMO[key] = warp(o, 'hwc')
            g = MEMO[key]
            g = g if order == 'hwc' else g.transpose(2, 0, 1)
            return g / 255. if scale else g
        r = RObs(r, b, view)
        if clip:
            r = RClip(r, b)
        if flicker:
            r = RFlicker(r, b)
        if stack:
            r = RStack(r, b, 4, {'hwc': 2, 'chw': 0}[order])
        want = [84, 84, 4 if stack else 1]
        if order == 'chw':
            want = [want[2]] + want[:2]
        rec.eq(list(w.observation_space.shape), want, 'shape')
        rec.eq(w.observation_space.dtype, np.dtype(
            np.float32 if scale else np.uint8), 'dtype')
        play(rec, ch, s, w, r, 4, str(case), tol=1.01 / 255 if scale else 1.01)
    explored(rec, run, bound=deep)


MEMO = {}


@chk.part('frames', lambda tier: [[h, w] for h, w in (
    (210, 160), (168, 168), (84, 84), (250, 160))], bound='20 frames of four '
    'sizes, both channel orders')
def frames(rec, case):
    from chainerrl.wrappers import atari_wrappers as W
    shape = tuple(case) + (3,)
    for order in ('hwc', 'chw'):
        env = emulator(None, shape)
        w = W.WarpFrame(env, channel_order=order)
        for i in range(10):
            f = frame(i, shape)
            if i % 2:
                f[:] = np.maximum(f, (f // 9)[::-1, ::-1])
                f[: shape[0] // 2, :, i % 3] = 0
            got = w.observation(f.copy())
            want = warp(f, order)
            rec.eq(got.shape, want.shape, 'shape')
            rec.eq(got.dtype, np.dtype(np.uint8), 'dtype')
            rec.expect(np.abs(got.astype('d') - want).max() <= 1.01,
                       lambda: 'frame {} of {} {}'.format(i, shape, order))
            rec.trans()
        rec.trace()


@chk.part('lazy frames', lambda tier: [[k, a] for k in (1, 2, 3)
                                       for a in (0, 1, 2)],
          bound='1-3 frames, three axes, four types')
def lazy(rec, case):
    k, axis = case
    from chainerrl.wrappers.atari_wrappers import LazyFrames
    fs = [frame(i, (2, 3, 2)) for i in range(k)]
    given = list(fs)
    x = LazyFrames(given, stack_axis=axis)
    want = np.concatenate(fs, axis=axis)
    for dtype in (None, np.uint8, np.float32, np.float64):
        for _ in range(2):
            got = np.array(x) if dtype is None else np.array(x, dtype=dtype)
            rec.eq(got, want.astype(dtype or np.uint8), 'frames')
            rec.eq(got.dtype, np.dtype(dtype or np.uint8), 'type')
            got[:] = 0
            rec.trans()
    rec.trace()


# --------------------------------------------------------------------- ALE

SCREEN = (210, 160, 3)


class FakeAle(object):
    """Stands for atari_py.ALEInterface."""
    script = None
    last = None

    def __init__(self):
        self.settings = {}
        self.log = []
        self.n = self.steps = 0
        self._lives = 2
        self.over = False
        self._frame = 0
        FakeAle.last = self

    def setInt(self, k, v):
        self.settings[k] = v
    setFloat = setBool = setString = setInt

    def loadROM(self, path):
        self.settings['rom'] = path

    def getFrameNumber(self):
        return self._frame

    def getMinimalActionSet(self):
        return [0, 3, 4]
    getLegalActionSet = getMinimalActionSet

    def getScreenRGB(self):
        return frame(self.n, SCREEN)

    def act(self, a):
        self.log.append(int(a))
        if self.over:
            self.log.append('dead')
            return 0
        e, r = FakeAle.script.answer(self.steps)
        self.steps += 1
        self.n += 1
        self._frame += 1
        if e == 'life':
            self._lives -= 1
        if e == 'over' or self._lives <= 0:
            self._lives, self.over = 0, True
        return r

    def lives(self):
        return self._lives

    def game_over(self):
        return self.over

    def reset_game(self):
        self.log.append('reset')
        self.n += 1
        self._lives, self.over = 2, False


class AleRef(object):
    def __init__(self, ale, n_screens, skip, life, mode, nullops, rand):
        self.ale, self.k, self.skip, self.life = ale, n_screens, skip, life
        self.mode, self.nullops, self.rand = mode, nullops, rand
        self.reset()

    def view(self, frames):
        import cv2
        img = np.max(frames, axis=0).astype('d').dot(
            [0.299, 0.587, 0.114]).astype(np.uint8)
        if self.mode == 'scale':
            return cv2.resize(img, (84, 84), interpolation=cv2.INTER_LINEAR)
        return cv2.resize(img, (84, 110),
                          interpolation=cv2.INTER_LINEAR)[18:102]

    def reset(self):
        ale = self.ale
        if ale.over:
            ale.reset_game()
        if self.nullops:
            for _ in range(self.rand(self.nullops + 1)):
                ale.act(0)
                if ale.over:
                    ale.reset_game()
        self.screens = [np.zeros((84, 84), np.uint8)] * (self.k - 1) + [
            self.view([ale.getScreenRGB()])]
        return list(self.screens)

    def step(self, a):
        ale = self.ale
        frames, total, lost = [ale.getScreenRGB()], 0., False
        for _ in range(self.skip):
            before = ale.lives()
            total += ale.act([0, 3, 4][a])
            frames.append(ale.getScreenRGB())
            lost = self.life and ale.lives() < before
            if ale.over or lost:
                break
        done = bool(ale.over or lost)
        if not done:
            self.screens = self.screens[1:] + [self.view(frames[-2:])]
        return list(self.screens), total, done


def gen_ale(tier):
    for skip in (1, 2, 3):
        for life in (True, False):
            for nullops in (0, 2):
                for mode, k in (('scale', 4), ('crop', 2), ('scale', 1)):
                    yield [skip, life, nullops, mode, k,
                           (1 if (mode, k) != ('scale', 4) else 2) +
                           (tier == 'thorough')]


@chk.part('ALE', gen_ale, bound='frame skips 1-3, 0-2 null operations, life '
          'losses as ends or not, both resizings, all scripts of 4 calls '
          'with at most 1-2 (thorough 2-3) events, draws or extra resets',
          timeout=600)
def ale(rec, case):
    skip, life, nullops, mode, k, deep = case
    import atari_py
    from chainerrl.envs import ale as A
    real = (atari_py.ALEInterface, atari_py.get_game_path, np.random.randint)

    def run(ch):
        s = Script(ch, ['', 'life', 'over'], (0, 2, -1))
        FakeAle.script = s
        count = [0, 0]

        def randint(low, high=None):
            if high is None:
                low, high = 0, low
            if high - low > 100:
                return low
            count[0] += 1
            return low + s.draw(count[0] - 1, high - low)

        def rand2(n):
            count[1] += 1
            return s.draw(count[1] - 1, n)
        try:
            atari_py.ALEInterface = FakeAle
            atari_py.get_game_path = lambda game: '/nowhere/' + game
            np.random.randint = randint
            env = A.ALE('game', seed=3, n_last_screens=k, frame_skip=skip,
                        treat_life_lost_as_terminal=life, crop_or_scale=mode,
                        max_start_nullops=nullops)
            fake = FakeAle.last
            rec.eq(fake.settings.get(b'random_seed'), 3, 'seed')
            rec.eq(fake.settings.get(b'repeat_action_probability'), 0., '')
            rec.eq(env.action_space.n, 3, 'actions')
            other = FakeAle()
            ref = AleRef(other, k, skip, life, mode, nullops, rand2)
            ops = []

            def label():
                return '{} {} events {} draws {}'.format(
                    case, ops, s.answers, s.draws)

            def obs(o, w):
                rec.eq(len(o), k, lambda: label() + ': screens')
                for x, y in zip(o, w):
                    rec.expect(np.array_equal(x, y), lambda: label() +
                               ': screens differ')
            obs(env.state, ref.screens)
            over = False
            for t in range(4):
                if over or ch.choose(2, 'op'):
                    ops.append('reset')
                    o = env.reset()
                    obs(o, ref.reset())
                    over = False
                else:
                    a = t % 3
                    ops.append(a)
                    o, r, d, info = env.step(a)
                    o2, r2, d2 = ref.step(a)
                    rec.eq(float(r), float(r2), lambda: label() + ': reward')
                    rec.eq(bool(d), d2, lambda: label() + ': done')
                    rec.eq(info, {}, 'info')
                    if not d2:
                        obs(o, o2)
                    over = d2
                    rec.outcome((r2, d2))
                rec.eq(fake.log, other.log, lambda: label() +
                       ': calls of the emulator')
                rec.expect('dead' not in other.log, lambda: label() +
                           ': a finished game is stepped')
                rec.trans()
            rec.trace()
            rec.state(other.log)
        finally:
            (atari_py.ALEInterface, atari_py.get_game_path,
             np.random.randint) = real
    explored(rec, run, bound=deep)


if __name__ == '__main__':
    raise SystemExit(chk.main())
