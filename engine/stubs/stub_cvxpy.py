"""Model of cvxpy: a problem is recorded as a list of rows; solving gives every variable unknown values (whatever a solver might return)."""
import numpy as np

MOSEK = 'MOSEK'
GLPK_MI = 'GLPK_MI'
GLPK = 'GLPK'
CLARABEL = 'CLARABEL'
SCS = 'SCS'
OSQP = 'OSQP'
CVXOPT = 'CVXOPT'
HIGHS = 'HIGHS'
SCIPY = 'SCIPY'

ENV = {'solvers': ['CLARABEL', 'GLPK_MI', 'SCS'], 'license': True, 'values': None, 'solved': [], 'status': 'optimal'}


class Error(Exception):
    """mosek.Error"""


def installed_solvers():
    return list(ENV['solvers'])


def sparse(a):
    return np.array(a)


def layout(variables, n, h):
    """the variables of a controller with n quantities per step and h steps: (decision vector, generator status or None)"""
    real = [v for v in variables if not v._boolean]
    flag = [v for v in variables if v._boolean]
    if len(real) != 1 or real[0].shape != (n * h,) or len(flag) > 1 or flag and flag[0].shape != (h,):
        raise NotImplementedError()
    return real[0], (flag[0] if flag else None)


def _lift(x):
    if isinstance(x, Expression):
        return x
    return _Const(x)


def _len(x):
    if isinstance(x, np.ndarray) and len(x.shape):
        return len(x)
    return None


class Expression:
    def __add__(self, other):
        return _Op(lambda a, b: a + b, self, _lift(other))

    def __radd__(self, other):
        return _Op(lambda a, b: a + b, _lift(other), self)

    def __sub__(self, other):
        return _Op(lambda a, b: a - b, self, _lift(other))

    def __rsub__(self, other):
        return _Op(lambda a, b: a - b, _lift(other), self)

    def __neg__(self):
        return _Op(lambda a, b: -a, self, _lift(0))

    def __mul__(self, other):
        return _Op(_mul, self, _lift(other))

    def __rmul__(self, other):
        return _Op(_mul, _lift(other), self)

    def __truediv__(self, other):
        return _Op(lambda a, b: a / b, self, _lift(other))

    def __matmul__(self, other):
        return _Op(lambda a, b: np.dot(a, b), self, _lift(other))

    def __rmatmul__(self, other):
        return _Op(lambda a, b: np.dot(a, b), _lift(other), self)

    def __getitem__(self, key):
        return _Op(lambda a, b: a[key], self, _lift(0))

    def __eq__(self, other):
        return Constraint('eq', self, _lift(other))

    def __le__(self, other):
        return Constraint('le', self, _lift(other))

    def __ge__(self, other):
        return Constraint('le', _lift(other), self)

    @property
    def value(self):
        return self._eval()

    @property
    def T(self):
        return self


def _mul(a, b):
    n, m = _len(a), _len(b)
    if n is not None and m is not None:
        raise NotImplementedError()
    return a * b


class _Const(Expression):
    def __init__(self, v):
        self._v = v

    def _eval(self):
        return self._v


class _Op(Expression):
    def __init__(self, f, a, b):
        self._f = f
        self._a = a
        self._b = b

    def _eval(self):
        return self._f(self._a._eval(), self._b._eval())


def _shape(shape):
    if isinstance(shape, int):
        return (shape,)
    return tuple(shape)


class Leaf(Expression):
    def __init__(self, shape=(), name=None, pos=False, nonneg=False, boolean=False, value=None):
        self.shape = _shape(shape)
        self.size = 1
        for n in self.shape:
            self.size = self.size * n
        self._nonneg = pos or nonneg
        self._boolean = boolean
        self._val = value

    @property
    def value(self):
        return self._val

    @value.setter
    def value(self, v):
        if v is not None and not isinstance(v, np.ndarray):
            v = np.array(v)
        if v is not None and tuple(v.shape) != self.shape:
            raise ValueError('Invalid dimensions for value')
        self._val = v

    def _eval(self):
        return self._val


class Variable(Leaf):
    pass


class Parameter(Leaf):
    pass


class Constraint:
    def __init__(self, kind, a, b):
        self.kind = kind
        self._a = a
        self._b = b

    def _rows(self):
        d = self._a._eval() - self._b._eval()
        if _len(d) is None:
            return [(self.kind, d)]
        return [(self.kind, x) for x in d]


def multiply(a, b):
    return _Op(lambda x, y: x * y, _lift(a), _lift(b))


def sum(a):
    return _Op(lambda x, y: np.sum(x), _lift(a), _lift(0))


def hstack(xs):
    raise NotImplementedError()


class Minimize:
    def __init__(self, e):
        self.sign = 1
        self.expr = _lift(e)
        self.args = [self.expr]


class Maximize:
    def __init__(self, e):
        self.sign = -1
        self.expr = _lift(e)
        self.args = [self.expr]


def _leaves(e, out):
    if isinstance(e, Variable):
        if not any(e is x for x in out):
            out.append(e)
    elif isinstance(e, _Op):
        _leaves(e._a, out)
        _leaves(e._b, out)
    return out


class Problem:
    def __init__(self, objective, constraints=None):
        self.objective = objective
        self.constraints = list(constraints or [])
        self.status = None

    def variables(self):
        out = _leaves(self.objective.expr, [])
        for c in self.constraints:
            _leaves(c._a, out)
            _leaves(c._b, out)
        return out

    def is_mixed_integer(self):
        return any([v._boolean for v in self.variables()])

    @property
    def value(self):
        return self.objective.expr._eval()

    def solve(self, solver=None, warm_start=False, verbose=False, **kw):
        if solver == 'MOSEK' and not ENV['license']:
            raise Error('no license')
        vs = self.variables()
        ENV['values'](vs)
        rows = []
        for c in self.constraints:
            rows = rows + c._rows()
        for v in vs:
            if v._nonneg:
                rows = rows + [('le', -x) for x in v.value]
        ENV['solved'].append({'objective': self.objective.sign * self.objective.expr._eval(), 'rows': rows, 'solver': solver})
        self.status = ENV['status']
        return self.objective.expr._eval()
