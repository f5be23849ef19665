"""Models of pathlib.Path, inspect objects, tqdm, functools helpers."""
import stub_yaml



class Path:
    def __init__(self, *parts):
        s = ''
        for p in parts:
            p = str(p)
            if s and not p.startswith('/'):
                s = s + '/' + p
            else:
                s = p
        self._s = s

    def __truediv__(self, other):
        return Path(self, other)

    def __str__(self):
        return self._s

    def __fspath__(self):
        return self._s

    def __eq__(self, other):
        return isinstance(other, Path) and self._s == other._s

    def __hash__(self):
        return hash(self._s)

    @property
    def name(self):
        return self._s.split('/')[-1]

    @property
    def parent(self):
        return Path('/'.join(self._s.split('/')[:-1]) or '.')

    def is_absolute(self):
        return self._s.startswith('/')

    def exists(self):
        return self._s in stub_yaml.FILES or self._s in stub_yaml.DIRS

    def is_file(self):
        return self._s in stub_yaml.FILES

    def is_dir(self):
        return self._s in stub_yaml.DIRS

    def mkdir(self, mode=511, parents=False, exist_ok=False):
        stub_yaml.make_dir(self._s, parents, exist_ok)

    def glob(self, pattern):
        if pattern.count('*') != 1 or '/' in pattern or '?' in pattern or '[' in pattern:
            raise NotImplementedError('glob')
        a, b = pattern.split('*')
        base = self._s.rstrip('/')
        out = []
        for f in list(stub_yaml.FILES) + list(stub_yaml.DIRS):
            d = '/'.join(f.split('/')[:-1])
            n = f.split('/')[-1]
            if d == base and n.startswith(a) and n.endswith(b):
                out.append(Path(f))
        return out

    def relative_to(self, other):
        return Path(self._s[len(str(other)) + 1:])


class _Empty:
    pass


class Parameter:
    empty = _Empty
    POSITIONAL_ONLY = 0
    POSITIONAL_OR_KEYWORD = 1
    VAR_POSITIONAL = 2
    KEYWORD_ONLY = 3
    VAR_KEYWORD = 4

    def __init__(self, name, default=_Empty, kind=1):
        self.name = name
        self.default = default
        self.kind = kind


class Signature:
    def __init__(self, parameters):
        self.parameters = parameters


class tqdm:
    def __init__(self, iterable=None, desc=None, total=None, **kw):
        self._it = iterable

    def __iter__(self):
        return iter(self._it)

    def update(self, n=1):
        return None

    def close(self):
        return None


class _Key:
    def __init__(self, f, obj):
        self.f = f
        self.obj = obj

    def __lt__(self, other):
        return self.f(self.obj, other.obj) < 0


def cmp_to_key(f):
    def key(x):
        return _Key(f, x)
    return key
