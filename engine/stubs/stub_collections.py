"""Model of collections.UserDict / UserList / defaultdict (CPython semantics)."""


class UserDict:
    def __init__(self, dict=None, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def __repr__(self):
        return repr(self.data)

    def get(self, key, default=None):
        if key in self:
            return self[key]
        return default

    def keys(self):
        return list(self.data.keys())

    def values(self):
        return [self[k] for k in self.data]

    def items(self):
        return [(k, self[k]) for k in self.data]

    def copy(self):
        c = object.__new__(self.__class__)
        c.__dict__.update(self.__dict__)
        c.data = self.data.copy()
        return c

    def pop(self, key, *default):
        if key in self.data:
            v = self[key]
            del self[key]
            return v
        if default:
            return default[0]
        raise KeyError(key)

    def setdefault(self, key, default=None):
        if key in self.data:
            return self[key]
        self[key] = default
        return default

    def clear(self):
        for k in list(self.data):
            del self[k]

    def update(self, other=(), **kwds):
        if hasattr(other, 'keys'):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def __eq__(self, other):
        if isinstance(other, UserDict):
            return dict(self.items()) == dict(other.items())
        if isinstance(other, dict):
            return dict(self.items()) == other
        return NotImplemented


class UserList:
    def __init__(self, initlist=None):
        self.data = []
        if initlist is not None:
            if isinstance(initlist, UserList):
                self.data = list(initlist.data)
            else:
                self.data = list(initlist)

    def __len__(self):
        return len(self.data)

    def __contains__(self, item):
        return item in self.data

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.__class__(self.data[i])
        return self.data[i]

    def __setitem__(self, i, item):
        self.data[i] = item

    def __delitem__(self, i):
        del self.data[i]

    def __iter__(self):
        return iter(self.data)

    def __repr__(self):
        return repr(self.data)

    def __add__(self, other):
        if isinstance(other, UserList):
            return self.__class__(self.data + other.data)
        return self.__class__(self.data + list(other))

    def __eq__(self, other):
        if isinstance(other, UserList):
            return self.data == other.data
        return self.data == other

    def append(self, item):
        self.data.append(item)

    def insert(self, i, item):
        self.data.insert(i, item)

    def pop(self, i=-1):
        return self.data.pop(i)

    def remove(self, item):
        self.data.remove(item)

    def clear(self):
        self.data.clear()

    def copy(self):
        return self.__class__(self)

    def count(self, item):
        return self.data.count(item)

    def index(self, item, *args):
        return self.data.index(item, *args)

    def reverse(self):
        self.data.reverse()

    def extend(self, other):
        if isinstance(other, UserList):
            self.data.extend(other.data)
        else:
            self.data.extend(other)


class defaultdict(UserDict):
    def __init__(self, default_factory=None, *args, **kwargs):
        self.default_factory = default_factory
        super().__init__(*args, **kwargs)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self.data[key] = v
        return v


class dict_base(UserDict):
    """what a class derived from dict inherits: update and pop do not go through overridden item methods"""
    def __init__(self, *args, **kwargs):
        self.data = {}
        dict_base.update(self, *args, **kwargs)

    def update(self, other=(), **kwds):
        if hasattr(other, 'keys'):
            for key in other.keys():
                self.data[key] = other[key]
        else:
            for key, value in other:
                self.data[key] = value
        for key, value in kwds.items():
            self.data[key] = value

    def get(self, key, default=None):
        if key in self.data:
            return self.data[key]
        return default

    def values(self):
        return list(self.data.values())

    def items(self):
        return list(self.data.items())

    def pop(self, key, *default):
        return self.data.pop(key, *default)

    def setdefault(self, key, default=None):
        return self.data.setdefault(key, default)

    def clear(self):
        self.data.clear()

    def copy(self):
        return dict(self.data)


class list_base(UserList):
    """what a class derived from list inherits"""
    def __getitem__(self, i):
        return self.data[i]

    def __add__(self, other):
        return self.data + list(other)

    def copy(self):
        return list(self.data)
