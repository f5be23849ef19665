"""Model of the gym 0.26 spaces used by the repository."""
import numpy as np


class Space:
    def __init__(self, shape=None, dtype=None, seed=None):
        self._shape = None if shape is None else tuple(shape)
        self.dtype = dtype
        self._seed = seed

    @property
    def shape(self):
        return self._shape

    def seed(self, seed=None):
        self._seed = seed
        return [seed]

    def sample(self, mask=None):
        raise NotImplementedError

    def contains(self, x):
        raise NotImplementedError

    def __contains__(self, x):
        return self.contains(x)


class Box(Space):
    def __init__(self, low, high, shape=None, dtype=np.float32, seed=None):
        if shape is not None:
            shape = tuple(shape)
        elif not np.isscalar(low):
            shape = low.shape
        elif not np.isscalar(high):
            shape = high.shape
        else:
            shape = (1,)
        low = np.full(shape, low, dtype=float) if np.isscalar(low) else low
        high = np.full(shape, high, dtype=float) if np.isscalar(high) else high
        assert isinstance(low, np.ndarray)
        assert low.shape == shape
        assert isinstance(high, np.ndarray)
        assert high.shape == shape
        self.low = low.copy()
        self.high = high.copy()
        super().__init__(shape, dtype, seed)

    def sample(self, mask=None):
        return np.random.uniform(self.low, self.high)

    def contains(self, x):
        if not isinstance(x, np.ndarray):
            x = np.asarray(x)
        return x.shape == self.shape and bool(np.all(x >= self.low)) and bool(np.all(x <= self.high))

    def __eq__(self, other):
        return isinstance(other, Box) and self.shape == other.shape and np.allclose(self.low, other.low) and np.allclose(self.high, other.high)


class Discrete(Space):
    def __init__(self, n, seed=None, start=0):
        assert n > 0
        self.n = n
        self.start = start
        super().__init__((), int, seed)

    def sample(self, mask=None):
        return self.start + np.random.randint(self.n)

    def contains(self, x):
        if isinstance(x, int):
            return self.start <= x < self.start + self.n
        return False

    def __eq__(self, other):
        return isinstance(other, Discrete) and self.n == other.n and self.start == other.start


class Dict(Space):
    def __init__(self, spaces=None, seed=None, **spaces_kwargs):
        if spaces is None:
            spaces = spaces_kwargs
        if isinstance(spaces, Dict):
            spaces = spaces.spaces
        if isinstance(spaces, dict):
            spaces = dict(sorted(spaces.items()))
        else:
            spaces = dict(spaces)
        self.spaces = spaces
        for s in self.spaces.values():
            assert isinstance(s, Space)
        super().__init__(None, None, seed)

    def sample(self, mask=None):
        return dict([(k, s.sample()) for k, s in self.spaces.items()])

    def contains(self, x):
        if isinstance(x, dict) and list(sorted(x.keys())) == list(sorted(self.spaces.keys())):
            return all([x[k] in self.spaces[k] for k in self.spaces.keys()])
        return False

    def __getitem__(self, key):
        return self.spaces[key]

    def __setitem__(self, key, value):
        assert isinstance(value, Space)
        self.spaces[key] = value

    def __iter__(self):
        return iter(self.spaces)

    def __len__(self):
        return len(self.spaces)

    def keys(self):
        return self.spaces.keys()

    def values(self):
        return self.spaces.values()

    def items(self):
        return self.spaces.items()

    def get(self, k, default=None):
        return self.spaces.get(k, default)

    def __eq__(self, other):
        return isinstance(other, Dict) and self.spaces == other.spaces


class Tuple(Space):
    def __init__(self, spaces, seed=None):
        self.spaces = tuple(spaces)
        for s in self.spaces:
            assert isinstance(s, Space)
        super().__init__(None, None, seed)

    def sample(self, mask=None):
        return tuple([s.sample() for s in self.spaces])

    def contains(self, x):
        if isinstance(x, (list, np.ndarray)):
            x = tuple(x)
        return isinstance(x, tuple) and len(x) == len(self.spaces) and all([s.contains(p) for s, p in zip(self.spaces, x)])

    def __getitem__(self, i):
        return self.spaces[i]

    def __iter__(self):
        return iter(self.spaces)

    def __len__(self):
        return len(self.spaces)

    def __eq__(self, other):
        return isinstance(other, Tuple) and self.spaces == other.spaces


def _low(space):
    if isinstance(space, Dict):
        return np.concatenate([_low(s) for s in space.spaces.values()])
    if isinstance(space, Tuple):
        return np.concatenate([_low(s) for s in space.spaces])
    if isinstance(space, Box):
        return space.low.flatten()
    raise NotImplementedError()


def _high(space):
    if isinstance(space, Dict):
        return np.concatenate([_high(s) for s in space.spaces.values()])
    if isinstance(space, Tuple):
        return np.concatenate([_high(s) for s in space.spaces])
    if isinstance(space, Box):
        return space.high.flatten()
    raise NotImplementedError()


def flatten_space(space):
    return Box(_low(space), _high(space))


def flatdim(space):
    if isinstance(space, Dict):
        return sum([flatdim(s) for s in space.spaces.values()])
    if isinstance(space, Tuple):
        return sum([flatdim(s) for s in space.spaces])
    if isinstance(space, Box):
        return len(space.low.flatten())
    if isinstance(space, Discrete):
        return space.n
    raise NotImplementedError()


def flatten(space, x):
    if isinstance(space, Dict):
        return np.concatenate([flatten(s, x[k]) for k, s in space.spaces.items()])
    if isinstance(space, Tuple):
        return np.concatenate([flatten(s, p) for s, p in zip(space.spaces, x)])
    if isinstance(space, Box):
        return np.asarray(x).flatten()
    raise NotImplementedError()


def unflatten(space, x):
    if isinstance(space, Box):
        return np.asarray(x).reshape(space.shape)
    if isinstance(space, Dict):
        out = {}
        pos = 0
        for k, s in space.spaces.items():
            n = flatdim(s)
            out[k] = unflatten(s, x[pos:pos + n])
            pos = pos + n
        return out
    if isinstance(space, Tuple):
        out = []
        pos = 0
        for s in space.spaces:
            n = flatdim(s)
            out.append(unflatten(s, x[pos:pos + n]))
            pos = pos + n
        return tuple(out)
    raise NotImplementedError()


class Env:
    metadata = {}
    action_space = None
    observation_space = None
    reward_range = None
    spec = None

    def reset(self, *args, **kwargs):
        raise NotImplementedError

    def step(self, action):
        raise NotImplementedError

    @property
    def unwrapped(self):
        return self

    def close(self):
        pass

    def seed(self, seed=None):
        pass
