"""Model of the pandas operations the repository uses (labels are concrete, values symbolic)."""
import numpy as np
import stub_yaml


class NDFrame:
    pass


class Index:
    def __init__(self, items, names=None):
        self._items = list(items)
        self.names = names

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __contains__(self, x):
        return x in self._items

    def __eq__(self, other):
        return np.array([a == b for a, b in zip(self._items, list(other))])

    def equals(self, other):
        return list(self._items) == list(other)

    def to_list(self):
        return list(self._items)

    def tolist(self):
        return list(self._items)

    @property
    def values(self):
        return np.array(self._items)

    def get_loc(self, key):
        if key in self._items:
            return self._items.index(key)
        raise KeyError(key)

    def get_level_values(self, level):
        return Index([x[level] for x in self._items])

    def unique(self):
        return Index(list(dict.fromkeys(self._items)))


class RangeIndex(Index):
    def __init__(self, start=None, stop=None, step=None, name=None):
        if stop is None:
            stop = start
            start = 0
        self._start = start
        self._stop = stop
        self.names = None

    @property
    def _items(self):
        return [self._start + i for i in range(self._stop - self._start)]

    def __len__(self):
        return self._stop - self._start


class MultiIndex(Index):
    @classmethod
    def from_tuples(cls, tuples, names=None):
        return MultiIndex(list(tuples), names)


def _mkindex(items):
    if isinstance(items, Index):
        return items
    return Index(items)


class _Loc:
    def __init__(self, obj):
        self._obj = obj

    def __getitem__(self, key):
        return self._obj._loc(key)


class _ILoc:
    def __init__(self, obj):
        self._obj = obj

    def __getitem__(self, key):
        return self._obj._iloc(key)


class Series(NDFrame):
    def __init__(self, data=None, index=None, dtype=None, name=None):
        if isinstance(data, dict):
            self.index = Index(data.keys()) if index is None else _mkindex(index)
            self._vals = list(data.values())
        elif isinstance(data, Series):
            self.index = data.index
            self._vals = list(data._vals)
        elif data is None:
            self.index = Index([])
            self._vals = []
        else:
            self._vals = list(data)
            self.index = Index(range(len(self._vals))) if index is None else _mkindex(index)
        self.name = name
        self.dtype = dtype

    def __len__(self):
        return len(self._vals)

    def __iter__(self):
        return iter(self._vals)

    def _mask(self, f):
        return Series([f(v) for v in self._vals], index=self.index)

    def __ne__(self, other):
        return Series([v != other for v in self._vals], index=self.index)

    def __eq__(self, other):
        return Series([v == other for v in self._vals], index=self.index)

    def __getitem__(self, key):
        if isinstance(key, Series):
            keep = [i for i, k in enumerate(key._vals) if k]
            return Series([self._vals[i] for i in keep], index=[self.index[i] for i in keep])
        if key in self.index:
            return self._vals[self.index.get_loc(key)]
        if isinstance(key, int):
            return self._vals[key]
        raise KeyError(key)

    def drop_duplicates(self):
        out = []
        idx = []
        for i, v in zip(self.index.to_list(), self._vals):
            if v not in out:
                out.append(v)
                idx.append(i)
        return Series(out, index=idx)

    @property
    def values(self):
        return np.array(self._vals)

    def to_numpy(self):
        return np.array(self._vals)

    def __array__(self):
        return np.array(self._vals)

    def to_frame(self, name=None):
        out = DataFrame()
        key = self.name if name is None else name
        out._cols = {0 if key is None else key: list(self._vals)}
        out.index = self.index
        return out

    def squeeze(self):
        if len(self._vals) == 1:
            return self._vals[0]
        return self

    def rename(self, name):
        return Series(list(self._vals), index=self.index, name=name)

    def reset_index(self, drop):
        if not drop:
            raise NotImplementedError()
        return Series(list(self._vals), name=self.name)

    def _arith(self, f):
        return Series([f(v) for v in self._vals], index=self.index, name=self.name)

    def _pair(self, other, f):
        if isinstance(other, DataFrame):
            return other._by_column(self, lambda a, b: f(b, a))
        if isinstance(other, Series):
            if list(self.index) != list(other.index):
                raise NotImplementedError()
            other = other._vals
        if isinstance(other, (list, np.ndarray)):
            return Series([f(a, b) for a, b in zip(self._vals, list(other))], index=self.index, name=self.name)
        return self._arith(lambda v: f(v, other))

    def __neg__(self):
        return self._arith(lambda v: -v)

    def __add__(self, other):
        return self._pair(other, lambda a, b: a + b)

    def __radd__(self, other):
        return self._pair(other, lambda a, b: b + a)

    def __sub__(self, other):
        return self._pair(other, lambda a, b: a - b)

    def __rsub__(self, other):
        return self._pair(other, lambda a, b: b - a)

    def __mul__(self, other):
        return self._pair(other, lambda a, b: a * b)

    def __rmul__(self, other):
        return self._pair(other, lambda a, b: b * a)

    def __truediv__(self, other):
        return self._pair(other, lambda a, b: a / b)

    def __rtruediv__(self, other):
        return self._pair(other, lambda a, b: b / a)

    def div(self, other):
        return self / other

    def mul(self, other):
        return self * other

    def add(self, other):
        return self + other

    def sub(self, other):
        return self - other

    def __lt__(self, other):
        return self._pair(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._pair(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._pair(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._pair(other, lambda a, b: a >= b)

    def abs(self):
        return self._arith(lambda v: abs(v))

    def any(self):
        return any(self._vals)

    def all(self):
        return all(self._vals)

    def mean(self):
        return sum(self._vals) / len(self._vals)

    def to_list(self):
        return list(self._vals)

    def tolist(self):
        return list(self._vals)

    def to_dict(self):
        return dict(zip(self.index.to_list(), self._vals))

    def items(self):
        return list(zip(self.index.to_list(), self._vals))

    def keys(self):
        return self.index

    def item(self):
        if len(self._vals) != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self._vals[0]

    @property
    def shape(self):
        return (len(self._vals),)

    @property
    def empty(self):
        return len(self._vals) == 0

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _Loc(self)

    def _iloc(self, key):
        if isinstance(key, slice):
            return Series(self._vals[key], index=self.index.to_list()[key])
        return self._vals[key]

    def _loc(self, key):
        if isinstance(key, tuple) and len(key) == 2 and not isinstance(key[0], slice):
            keep = [i for i, k in enumerate(self.index.to_list()) if k[0] == key[0] and k[1] == key[1]]
            if not keep:
                raise KeyError(key)
            return Series([self._vals[i] for i in keep], index=[self.index[i][2] for i in keep])
        if isinstance(key, tuple) and len(key) == 3:
            names = key[2]
            if isinstance(names, str):
                names = [names]
            rows = [(k, i) for i, k in enumerate(self.index.to_list()) if k[2] in names]
            srt = sorted(rows, key=lambda r: list(names).index(r[0][2]))
            return Series([self._vals[i] for k, i in srt], index=[k for k, i in srt])
        return self.__getitem__(key)

    def sum(self):
        return sum(self._vals)

    def max(self):
        return max(self._vals)

    def min(self):
        return min(self._vals)

    def copy(self, deep=True):
        return Series(list(self._vals), index=self.index)

    def append(self, other):
        return Series(self._vals + other._vals, index=self.index.to_list() + other.index.to_list())


class DataFrame(NDFrame):
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        cols = {}
        idx = None
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            cols = {k: list(v) for k, v in data._cols.items()}
            idx = data.index
        elif isinstance(data, dict):
            scalars = []
            for k, v in data.items():
                if not isinstance(v, (dict, Series, Index, list, tuple, np.ndarray, range)):
                    cols[k] = v
                    scalars.append(k)
                elif isinstance(v, dict):
                    rows = list(v.keys())
                    if idx is None:
                        idx = Index(rows)
                    cols[k] = [v[r] for r in idx]
                elif isinstance(v, Series):
                    cols[k] = list(v._vals)
                    if idx is None:
                        idx = v.index
                else:
                    cols[k] = list(v)
            if scalars:
                n = None
                if index is not None:
                    n = len(index)
                for k, v in cols.items():
                    if n is None and k not in scalars:
                        n = len(v)
                if n is None:
                    raise ValueError('If using all scalar values, you must pass an index')
                for k in scalars:
                    cols[k] = [cols[k]] * n
        elif isinstance(data, Series):
            cols = {0: list(data._vals)}
            idx = data.index
        elif isinstance(data, np.ndarray):
            if len(data.shape) == 1:
                cols = {0: list(data)}
            else:
                for j in range(data.shape[1]):
                    cols[j] = list(data[:, j])
        else:
            rows = list(data)
            if rows and isinstance(rows[0], dict):
                for k in rows[0]:
                    cols[k] = [r[k] for r in rows]
            elif rows and isinstance(rows[0], (tuple, list)):
                for j in range(len(rows[0])):
                    cols[j] = [r[j] for r in rows]
            elif rows:
                cols = {0: rows}
        if columns is not None:
            vals = list(cols.values())
            names = list(columns)
            if not vals:
                cols = {n: [] for n in names}
            else:
                cols = {n: v for n, v in zip(names, vals)}
        n = None
        for v in cols.values():
            if n is None:
                n = len(v)
            elif n != len(v):
                raise ValueError('All arrays must be of the same length')
        if index is not None:
            idx = _mkindex(index)
            if n is not None and n != len(idx):
                raise ValueError('Length of values does not match length of index')
        if idx is None:
            idx = Index(range(n or 0))
        self._cols = cols
        self.index = idx
        self._colnames = None

    @property
    def columns(self):
        if self._colnames is not None:
            return self._colnames
        return Index(self._cols.keys())

    @columns.setter
    def columns(self, new):
        names = list(new)
        self._cols = {n: v for n, v in zip(names, list(self._cols.values()))}
        if isinstance(new, Index):
            self._colnames = new
        else:
            self._colnames = None

    @property
    def T(self):
        rows = self.index.to_list()
        cols = {}
        for i, r in enumerate(rows):
            cols[r] = [v[i] for v in self._cols.values()]
        out = DataFrame()
        out._cols = cols
        out.index = Index(self._cols.keys())
        return out

    def __len__(self):
        return len(self.index)

    def __getitem__(self, key):
        if isinstance(key, list):
            return DataFrame({k: self._cols[k] for k in key}, index=self.index)
        if key not in self._cols and all([isinstance(key, str) and isinstance(k, str) or isinstance(key, tuple) and isinstance(k, tuple) and len(k) == len(key)
                                          for k in self._cols]):
            raise KeyError(key)
        return Series(self._cols[key], index=self.index, name=key)

    def __setitem__(self, key, val):
        if isinstance(val, (Series, Index)):
            val = list(val)
        elif isinstance(val, np.ndarray):
            val = list(val)
        if not self._cols and len(self.index) == 0:
            if not isinstance(val, list):
                val = []
            self.index = Index(range(len(val)))
        if isinstance(val, list):
            if len(val) != len(self.index):
                raise ValueError('Length of values does not match length of index')
            self._cols[key] = val
        else:
            self._cols[key] = [val] * len(self.index)

    def __contains__(self, key):
        return key in self._cols

    def __iter__(self):
        return iter(self._cols)

    def items(self):
        return [(k, Series(v, index=self.index, name=k)) for k, v in self._cols.items()]

    def keys(self):
        return self.columns

    @property
    def empty(self):
        return len(self.index) == 0 or len(self._cols) == 0

    @property
    def shape(self):
        return (len(self.index), len(self._cols))

    @property
    def values(self):
        vals = list(self._cols.values())
        return np.array([[v[i] for v in vals] for i in range(len(self.index))])

    def to_numpy(self):
        return self.values

    def __array__(self):
        return self.values

    def __getattr__(self, name):
        if name in self._cols:
            return self[name]
        raise AttributeError(name)

    def squeeze(self, axis=None):
        if len(self._cols) == 1 and (axis == 1 or axis == 'columns' or axis is None and len(self.index) != 1):
            return self[list(self._cols)[0]]
        if axis is None and len(self._cols) == 1:
            return self.iloc[0, 0]
        return self

    def reset_index(self, drop):
        if not drop:
            raise NotImplementedError()
        out = DataFrame()
        out._cols = {k: list(v) for k, v in self._cols.items()}
        out.index = Index(range(len(self.index)))
        return out

    def _arith(self, f):
        out = DataFrame()
        out._cols = {k: [f(x) for x in v] for k, v in self._cols.items()}
        out.index = self.index
        return out

    def __neg__(self):
        return self._arith(lambda v: -v)

    def _by_column(self, other, f):
        if isinstance(other, Series):
            if list(other.index) != list(self._cols.keys()):
                raise NotImplementedError()
            out = DataFrame()
            out._cols = {k: [f(x, w) for x in v] for (k, v), w in zip(self._cols.items(), other._vals)}
            out.index = self.index
            return out
        if isinstance(other, (NDFrame, np.ndarray, list)):
            raise NotImplementedError()
        return self._arith(lambda v: f(v, other))

    def __mul__(self, other):
        return self._by_column(other, lambda a, b: a * b)

    def __truediv__(self, other):
        return self._by_column(other, lambda a, b: a / b)

    def __rtruediv__(self, other):
        return self._by_column(other, lambda a, b: b / a)

    def __add__(self, other):
        return self._by_column(other, lambda a, b: a + b)

    def __sub__(self, other):
        return self._by_column(other, lambda a, b: a - b)

    def __rmul__(self, other):
        return self * other

    def __radd__(self, other):
        return self + other

    def __rsub__(self, other):
        return self._by_column(other, lambda a, b: b - a)

    def div(self, other):
        return self / other

    def mul(self, other):
        return self * other

    def add(self, other):
        return self + other

    def sub(self, other):
        return self - other

    def _cmp(self, other, f):
        if isinstance(other, (NDFrame, np.ndarray, list)):
            raise NotImplementedError()
        return self._arith(lambda v: f(v, other))

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def any(self):
        return Series([any(v) for v in self._cols.values()], index=self.columns)

    def all(self):
        return Series([all(v) for v in self._cols.values()], index=self.columns)

    def abs(self):
        return self._arith(lambda v: abs(v))

    def max(self):
        return Series([max(v) for v in self._cols.values()], index=self.columns)

    def min(self):
        return Series([min(v) for v in self._cols.values()], index=self.columns)

    def sum(self):
        return Series([sum(v) for v in self._cols.values()], index=self.columns)

    def mean(self):
        return Series([sum(v) / len(v) for v in self._cols.values()], index=self.columns)

    def to_dict(self, orient='dict'):
        if orient == 'list':
            return {k: list(v) for k, v in self._cols.items()}
        if orient == 'records':
            return [{k: v[i] for k, v in self._cols.items()} for i in range(len(self.index))]
        return {k: dict(zip(self.index.to_list(), v)) for k, v in self._cols.items()}

    def copy(self, deep=True):
        return DataFrame(self)

    def duplicated(self, subset=None, keep='first'):
        cols = list(self._cols.values()) if subset is None else [self._cols[c] for c in (subset if isinstance(subset, (list, tuple)) else [subset])]
        rows = [tuple([v[i] for v in cols]) for i in range(len(self.index))]
        if keep == 'first':
            out = [rows[i] in rows[:i] for i in range(len(rows))]
        elif keep == 'last':
            out = [rows[i] in rows[i + 1:] for i in range(len(rows))]
        else:
            out = [rows[i] in rows[:i] + rows[i + 1:] for i in range(len(rows))]
        return Series(out, index=self.index)

    def drop_duplicates(self, subset=None, keep='first'):
        return self[~self.duplicated(subset, keep)]

    @property
    def iloc(self):
        return _ILoc(self)

    def _iloc(self, key):
        if isinstance(key, tuple):
            r, c = key
            names = list(self._cols.keys())
            if isinstance(r, int) and isinstance(c, int):
                if r >= len(self.index) or c >= len(names):
                    raise IndexError('index is out of bounds')
            return self._cols[names[c]][r]
        if isinstance(key, slice):
            return DataFrame({k: v[key] for k, v in self._cols.items()}, index=self.index.to_list()[key])
        return Series([v[key] for v in self._cols.values()], index=self.columns)

    @property
    def loc(self):
        return _Loc(self)

    @property
    def at(self):
        return _Loc(self)

    @property
    def iat(self):
        return _ILoc(self)

    def _loc(self, key):
        if isinstance(key, tuple):
            r, c = key
            if isinstance(r, slice):
                if r.step is not None:
                    raise NotImplementedError()
                rows = self.index.to_list()
                a = 0 if r.start is None else rows.index(r.start)
                b = len(rows) if r.stop is None else rows.index(r.stop) + 1
                if isinstance(c, list):
                    return DataFrame({k: self._cols[k][a:b] for k in c}, index=rows[a:b])
                return Series(self._cols[c][a:b], index=rows[a:b], name=c)
            return self._cols[c][self.index.get_loc(r)]
        if isinstance(key, (slice, list, Series)):
            raise NotImplementedError()
        i = self.index.get_loc(key)
        return Series([v[i] for v in self._cols.values()], index=self.columns)

    def to_csv(self, path=None, index=True, float_format=None):
        stub_yaml.write_csv(self, path, index, float_format)

    def dropna(self, axis=0, how='any', subset=None):
        if axis in (1, 'columns') and subset is None:
            bad = any if how == 'any' else all
            return DataFrame({k: v for k, v in self._cols.items() if not bad([np.isnan(x) if isinstance(x, (int, float)) else x is None for x in v])},
                             index=self.index.to_list())
        raise NotImplementedError('dropna')


def concat(objs, axis=0, **kw):
    objs = list(objs)
    if axis == 1:
        cols = {}
        n = 0
        idx = None
        for o in objs:
            if idx is None:
                idx = o.index
            if isinstance(o, Series):
                cols[n if o.name is None else o.name] = list(o._vals)
                n = n + 1
            else:
                for k, v in o._cols.items():
                    key = k
                    while key in cols:
                        key = (key, n)
                    cols[key] = list(v)
                    n = n + 1
        out = DataFrame()
        out._cols = cols
        out.index = idx
        return out
    raise NotImplementedError()


class _IndexSlice:
    def __getitem__(self, key):
        return key


IndexSlice = _IndexSlice()
