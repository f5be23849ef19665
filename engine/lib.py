"""Abstract semantics of builtins, numpy and a few libraries (everything else is opaque)."""
import builtins
from fractions import Fraction
from terms import *
import terms as T
import decide
from interp import HObj, Dead, Unsupported, LIBNAMES, mkexc, excname, exc_isa, BUILTIN_EXC, dedupe
from program import FuncInfo

NUMT = (Num, Inf, Nan, Unk)


def isnumleaf(l):
    t = type(l)
    return t in NUMT or l is TRUE or l is FALSE or (t in (Sym, App) and l.sort in ('num', 'int', 'bool'))


def allnum(v):
    return all(isnumleaf(l) for l in leaves(v))


def is_int_num(l):
    if l is TRUE or l is FALSE:
        return True
    if type(l) in (Sym, App):
        return l.sort in ('int', 'bool')
    if type(l) is not Num or l.q != T.PONE:
        return False
    for m, c in l.p:
        if c.denominator != 1:
            return False
        for a, _ in m:
            if getattr(a, 'sort', None) not in ('int', 'bool'):
                return False
    return True


# ------------------------------------------------------------------ elementwise helpers
def opaque(fn, args, sort='any', lo=None, hi=None):
    return mapn(lambda *xs: app(fn, xs, sort, lo, hi), tuple(args))


def _nn(x):
    return tonum(x)


def arith(op, a, b):
    if op == 'Add':
        return vadd(a, b)
    if op == 'Sub':
        return vsub(a, b)
    if op == 'Mult':
        return vmul(a, b)
    if op == 'Div':
        return vdiv(a, b)
    if op == 'FloorDiv':
        return mapn(floordiv, (a, b))
    if op == 'Mod':
        return mapn(modulo, (a, b))
    if op == 'Pow':
        return mapn(power, (a, b))
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        return mapn(lambda x, y: bitop(op, x, y), (a, b))
    raise Unsupported('operator ' + op)


def bitop(op, x, y):
    if x in (TRUE, FALSE) and y in (TRUE, FALSE):
        p, q = x is TRUE, y is TRUE
        return const(p and q if op == 'BitAnd' else (p or q if op == 'BitOr' else p != q))
    if type(x) in (Sym, App, Unk) or type(y) in (Sym, App, Unk):
        bx = T._leaf_truth(x)
        by = T._leaf_truth(y)
        if op == 'BitAnd':
            return band(bx, by)
        if op == 'BitOr':
            return bor(bx, by)
        return ite(bx, bnot(by), by)
    cx, cy = iconst(x), iconst(y)
    if cx is not None and cy is not None:
        return num({'BitAnd': cx & cy, 'BitOr': cx | cy, 'BitXor': cx ^ cy}[op])
    return unk('bit operation')


def vfloor(x):
    return mapn(floor_leaf, (x,))


def floor_leaf(x):
    if type(x) in (Inf, Nan, Unk):
        return x
    x = tonum(x)
    if is_int_num(x):
        return x
    c = nconst(x)
    if c is not None:
        return num(c.numerator // c.denominator)
    lo = hi = None
    if type(x) is Num and x.q == T.PONE:
        l, h = T.pinterval(x.p)
        if l is not None:
            lo = l[0].numerator // l[0].denominator
        if h is not None:
            hi = h[0].numerator // h[0].denominator
            if h[1] and hi == h[0]:
                hi -= 1
        if lo is not None and lo == hi:
            return num(lo)
    return anum(app('floor', (x,), 'int', None if lo is None else (Fraction(lo), False), None if hi is None else (Fraction(hi), False)))


def floor_lemma(atoms):
    """floor(x) <= x < floor(x) + 1"""
    out = []
    for a in atoms:
        if type(a) is App and a.fn == 'floor' and type(a.args[0]) is Num and a.args[0].q == T.PONE:
            x, f = a.args[0].p, T.patom(a)
            out.append((T.padd(f, T.pneg(x)), '<='))
            out.append((T.padd(T.padd(x, T.pneg(f)), T.pconst(Fraction(-1))), '<'))
    return out


decide.lemma_hooks.append(floor_lemma)


def floordiv(x, y):
    x, y = tonum(x), tonum(y)
    if y is ONE:
        return floor_leaf(x)
    return mapn(floor_leaf, (ndiv(x, y),))


def modulo(x, y):
    x, y = tonum(x), tonum(y)
    if Unk in (type(x), type(y)) or Nan in (type(x), type(y)) or Inf in (type(x), type(y)):
        return unk('modulo')
    return mapn(lambda f: nsub(x, nmul(f, y)), (floordiv(x, y),))


def power(x, y):
    x, y = tonum(x), tonum(y)
    k = iconst(y)
    if k is not None and 0 <= k <= 6:
        r = ONE
        for _ in range(k):
            r = nmul(r, x)
        return r
    if k is not None and -6 <= k < 0:
        return ndiv(ONE, power(x, num(-k)))
    if x is ONE:
        return ONE
    return anum(app('pow', (x, y), 'num'))


def vabs(a):
    def f(x):
        x = tonum(x)
        if type(x) is Inf:
            return INF
        if type(x) in (Nan, Unk):
            return x
        return sign_case(x, nneg(x), ZERO, x)
    return mapn(f, (a,))


def vsign(a):
    def f(x):
        x = tonum(x)
        if type(x) is Inf:
            return num(x.s)
        if type(x) in (Nan, Unk):
            return x
        return sign_case(x, num(-1), ZERO, ONE)
    return mapn(f, (a,))


def cmpnum(op, a, b):
    def f(x, y):
        x, y = tonum(x), tonum(y)
        if type(x) is Nan or type(y) is Nan:
            return const(op == 'NotEq')
        n, z, p = {'Lt': (1, 0, 0), 'LtE': (1, 1, 0), 'Gt': (0, 0, 1), 'GtE': (0, 1, 1), 'Eq': (0, 1, 0), 'NotEq': (1, 0, 1)}[op]
        return ncmp(x, y, const(bool(n)), const(bool(z)), const(bool(p)))
    return mapn(f, (a, b))


def isclose_v(a, b, rtol, atol):
    """|a-b| <= atol + rtol*|b| (numpy semantics, reals; equal infinities are close)"""
    def f(x, y):
        x, y = tonum(x), tonum(y)
        if type(x) is Nan or type(y) is Nan:
            return FALSE
        if type(x) is Inf or type(y) is Inf:
            return const(x is y)
        if Unk in (type(x), type(y)):
            return T._leaf_truth(unk('isclose'))
        if x is y:
            return TRUE
        return vle(vabs(nsub(x, y)), vadd(atol, vmul(rtol, vabs(y))))
    return mapn(f, (a, b))


def vround(x):
    """python/numpy round half to even, no digits"""
    def f(l):
        if type(l) in (Inf, Nan, Unk):
            return l
        l = tonum(l)
        if is_int_num(l):
            return l
        c = nconst(l)
        if c is not None:
            return num(round(c))
        return anum(app('round', (l,), 'int'))
    return mapn(f, (x,))


def round_unit(l):
    """round for a value known in [0,1] as a decision"""
    return vcmp(l, num(Fraction(1, 2)), ZERO, ZERO, ONE)


decide.CONC['floor'] = lambda x: Fraction(x.numerator // x.denominator) if isinstance(x, Fraction) else _t()
decide.CONC['round'] = lambda x: Fraction(round(x)) if isinstance(x, Fraction) else _t()
decide.FREE.add('sel')


def _t():
    raise decide.Taint('library value')


def _rows(a):
    if not isinstance(a, tuple) or a[0] != 'S':
        raise decide.Taint('array')
    if a[1] > 12 or a[1] < 1:
        raise decide.Taint('array length')
    return a[2:]


def _agg(fn):
    def g(a):
        vals = [x for r in _rows(a) for x in r]
        if not all(isinstance(v, Fraction) for v in vals):
            raise decide.Taint('array values')
        return fn(vals)
    return g


decide.CONC['amin'] = _agg(min)
decide.CONC['amax'] = _agg(max)
decide.CONC['asum'] = _agg(lambda v: sum(v, Fraction(0)))


def _conc_all(a):
    return all(all(bool(x) for x in r) for r in _rows(a))


def _conc_any(a):
    return any(any(bool(x) for x in r) for r in _rows(a))


decide.CONC['aall'] = _conc_all
decide.CONC['aany'] = _conc_any


def arr_lemma(atoms):
    out = []
    aggs = [a for a in atoms if type(a) is App and a.fn in ('amin', 'amax') and type(a.args[0]) is SArr]
    for g in aggs:
        for body in g.args[0].cols:
            if type(body) is not Num or body.q != T.PONE:
                continue
            inner = [x for x in T.patoms(body.p) if type(x) is App and x.fn == 'sel']
            if len(inner) != 1 or not _mentions(inner[0], I0):
                continue
            i = inner[0]
            for x in atoms:
                if type(x) is App and x.fn == 'sel' and x.args[0] is i.args[0] and x.args[2] is i.args[2] and not _mentions(x, I0):
                    q = decide.psub(body.p, i, T.patom(x))
                    if g.fn == 'amin':
                        out.append((T.padd(T.patom(g), T.pneg(q)), '<='))
                    else:
                        out.append((T.padd(q, T.pneg(T.patom(g))), '<='))
    mins = [a for a in aggs if a.fn == 'amin']
    for m in mins:
        for x in aggs:
            if x.fn == 'amax' and x.args[0] is m.args[0]:
                out.append((T.padd(T.patom(m), T.pneg(T.patom(x))), '<='))
    return out


decide.lemma_hooks.append(arr_lemma)


def arr_links(a):
    if type(a) is not App:
        return ()
    if a.fn == 'sel':
        return ((a.args[0], a.args[2]),)
    if a.fn in ('amin', 'amax') and type(a.args[0]) is SArr:
        out = []
        for body in a.args[0].cols:
            if type(body) is Num:
                out += [(x.args[0], x.args[2]) for x in T.patoms(body.p) if type(x) is App and x.fn == 'sel']
        return out
    return ()


decide.link_hooks.append(arr_links)


def _mentions(v, s, memo=None):
    if v is s:
        return True
    t = type(v)
    if t is Num:
        return any(_mentions(a, s) for a in T.patoms(v.p) | T.patoms(v.q))
    if t is App:
        return any(_mentions(a, s) for a in v.args if isinstance(a, Val))
    if t is Dec:
        if v.atom.kind == 'sign':
            if any(_mentions(a, s) for a in T.patoms(v.atom.p)):
                return True
        elif _mentions(v.atom.leaf, s):
            return True
        return any(_mentions(k, s) for k in v.kids)
    if t in (Tup, ListV, CArr, DictL):
        return any(_mentions(x, s) for x in parts(v))
    if t is SArr:
        return _mentions(v.n, s) or any(_mentions(c, s) for c in v.cols)
    return False


# ------------------------------------------------------------------ array contents
def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            return None
    return tuple(out)


def strides(shape):
    s, k = [], 1
    for d in reversed(shape):
        s.append(k)
        k *= d
    return tuple(reversed(s))


def positions(shape):
    def go(i):
        if i == len(shape):
            yield ()
            return
        for x in range(shape[i]):
            for r in go(i + 1):
                yield (x,) + r
    return go(0)


def bget(c, shape, idx):
    s = c.shape
    off = len(shape) - len(s)
    k = 0
    for d, st_, i in zip(s, strides(s), idx[off:]):
        k += (0 if d == 1 else i) * st_
    return c.items[k]


class ShapeError(Exception):
    pass


def ewise(f, *xs):
    """elementwise over contents (CArr/SArr leaves or scalar diagrams)"""
    if any(type(x) is Unk for x in xs):
        return unk('array operation on unknown')
    if any(type(x) is SArr for x in xs):
        n = [x.n for x in xs if type(x) is SArr]
        ref_ = next(x for x in xs if type(x) is SArr)
        if any(m is not n[0] for m in n):
            return unk('arrays of different symbolic length')
        nd = max(x.ndim for x in xs if type(x) is SArr)
        nc = max([len(x.cols) for x in xs if type(x) is SArr] + [1])
        for x in xs:
            if type(x) is CArr:
                if len(x.shape) == 0:
                    continue
                if nd == 1:
                    return unk('mixed array op') if x.shape != (1,) else _ew1(f, xs, n[0])
                if x.shape == (1, 1) or x.shape == (1,):
                    continue
                if x.shape[-1] not in (nc, 1) and nc != 1:
                    raise ShapeError()
                if len(x.shape) == 2 and x.shape[0] != 1:
                    return unk('mixed array op')
                nc = max(nc, x.shape[-1])
        cols = []
        for j in range(nc):
            args = []
            for x in xs:
                if type(x) is SArr:
                    if x.ndim == 1 and nd == 2:
                        return unk('broadcast 1d symbolic array')
                    args.append(x.cols[j] if len(x.cols) > 1 else x.cols[0])
                elif type(x) is CArr:
                    args.append(x.items[j] if len(x.items) > 1 else x.items[0])
                else:
                    args.append(x)
            cols.append(f(*args))
        return sarr(n[0], cols, nd)
    shape = ()
    for x in xs:
        if type(x) is CArr:
            shape = bshape(shape, x.shape)
            if shape is None:
                raise ShapeError()
    items = []
    for idx in positions(shape):
        items.append(f(*[bget(x, shape, idx) if type(x) is CArr else x for x in xs]))
    return carr(shape, items)


def _ew1(f, xs, n):
    return sarr(n, [f(*[x.cols[0] if type(x) is SArr else (x.items[0] if type(x) is CArr else x) for x in xs])], 1)


def fold(f, items, init=None):
    it = list(items)
    if f is vmin or f is vmax:
        it.sort(key=lambda x: nconst(x) is None)     # known values first: they decide most comparisons
    if init is None:
        acc = it.pop(0)
    else:
        acc = init
    for x in it:
        acc = f(acc, x)
    return acc


def body_bound(cols):
    lo = hi = None
    los, his = [], []
    for c in cols:
        for l in leaves(c):
            if type(l) is Num and l.q == T.PONE:
                a, b = T.pinterval(l.p)
            else:
                a = b = None
            los.append(a)
            his.append(b)
    if los and all(x is not None for x in los):
        m = min(x[0] for x in los)
        lo = (m, all(x[1] or x[0] > m for x in los))
    if his and all(x is not None for x in his):
        m = max(x[0] for x in his)
        hi = (m, all(x[1] or x[0] < m for x in his))
    return lo, hi


def reduce_axis(c, axis, f1):
    """c CArr; f1(list of items)->value ; axis None or int -> value or CArr"""
    if axis is None:
        return f1(list(c.items))
    nd = len(c.shape)
    axis = axis % nd
    out_shape = c.shape[:axis] + c.shape[axis + 1:]
    items = []
    st_ = strides(c.shape)
    for idx in positions(out_shape):
        full = idx[:axis] + (0,) + idx[axis:]
        base = sum(i * s for i, s in zip(full, st_))
        items.append(f1([c.items[base + k * st_[axis]] for k in range(c.shape[axis])]))
    return carr(out_shape, items)


def sagg(name, s, axis):
    """aggregate of a symbolic array"""
    if name in ('amin', 'amax'):
        lo_hi = body_bound
    if axis is None or s.ndim == 1:
        if all(not _mentions(c, I0) for c in s.cols):
            if name == 'amin':
                return fold(vmin, s.cols)
            if name == 'amax':
                return fold(vmax, s.cols)
        if name in ('amin', 'amax'):
            lo, hi = body_bound(s.cols)
            return anum(app(name, (s,), 'num', lo, hi))
        if name == 'asum':
            return anum(app(name, (s,), 'num'))
        return unk('aggregate %s of symbolic array' % name)
    if axis in (0, -2):
        return carr((len(s.cols),), [sagg(name, sarr(s.n, [c], 1), None) for c in s.cols])
    if axis in (1, -1):
        if name == 'asum':
            return sarr(s.n, [fold(vadd, s.cols)], 1)
        if name == 'amin':
            return sarr(s.n, [fold(vmin, s.cols)], 1)
        if name == 'amax':
            return sarr(s.n, [fold(vmax, s.cols)], 1)
    return unk('aggregate axis')


def ball(items):
    r = TRUE
    for x in items:
        r = band(r, mapn(T._leaf_truth, (x,)))
    return r


def bany(items):
    r = FALSE
    for x in items:
        r = bor(r, mapn(T._leaf_truth, (x,)))
    return r


def squant(name, s, axis):
    if axis is None or s.ndim == 1:
        cs = [mapn(T._leaf_truth, (c,)) for c in s.cols]
        if name == 'aall':
            if all(c is TRUE for c in cs):
                return TRUE
        elif all(c is FALSE for c in cs):
            return FALSE
        tot = ball(cs) if name == 'aall' else bany(cs)
        if tot is TRUE or tot is FALSE:
            return tot          # arrays are assumed non-empty
        return case(bool_atom(app(name, (sarr(s.n, [tot], 1),), 'bool')), (TRUE, FALSE))
    if axis in (0, -2):
        return carr((len(s.cols),), [squant(name, sarr(s.n, [c], 1), None) for c in s.cols])
    return sarr(s.n, [ball(s.cols) if name == 'aall' else bany(s.cols)], 1)


def const_arr(shape, v):
    n = 1
    for s in shape:
        n *= s
    return carr(shape, [v] * n)


def slice_parts(k):
    return k.args


def host_gap(cls, name):
    """an attribute Python's builtin type has and the model lacks: undecided, not an error of the program"""
    if hasattr(cls, name):
        raise Unsupported('%s.%s is not modelled' % (cls.__name__, name))


def is_slice(k):
    return type(k) is App and k.fn == 'slice'


class Lib:
    wanted = None
    INTRINSICS = set()
    CONSTS = {'True': TRUE, 'False': FALSE, 'None': NONE, 'NotImplemented': NOTIMPL, 'Ellipsis': ELL,
              '__name__': const('module')}
    STUBS = {
        'collections.UserDict': ('stub_collections', 'UserDict'),
        'collections.UserList': ('stub_collections', 'UserList'),
        'collections.OrderedDict': None,
        'builtins.dict base': ('stub_collections', 'dict_base'), 'builtins.list base': ('stub_collections', 'list_base'),
        'collections.OrderedDict base': ('stub_collections', 'dict_base'),
        'collections.defaultdict': ('stub_collections', 'defaultdict'),
        'gym.Space': ('stub_gym', 'Space'), 'gym.spaces.Space': ('stub_gym', 'Space'), 'gym.spaces.space.Space': ('stub_gym', 'Space'),
        'gym.spaces.Box': ('stub_gym', 'Box'), 'gym.spaces.Dict': ('stub_gym', 'Dict'), 'gym.spaces.Tuple': ('stub_gym', 'Tuple'),
        'gym.spaces.Discrete': ('stub_gym', 'Discrete'), 'gym.Env': ('stub_gym', 'Env'),
        'gym.spaces.flatten_space': ('stub_gym', 'flatten_space'), 'gym.spaces.flatten': ('stub_gym', 'flatten'),
        'gym.spaces.flatdim': ('stub_gym', 'flatdim'), 'gym.spaces.unflatten': ('stub_gym', 'unflatten'),
        'gym.spaces.utils.flatten_space': ('stub_gym', 'flatten_space'), 'gym.spaces.utils.flatten': ('stub_gym', 'flatten'),
        'gym.spaces.utils.flatdim': ('stub_gym', 'flatdim'),
        'pandas.DataFrame': ('stub_pandas', 'DataFrame'), 'pandas.Series': ('stub_pandas', 'Series'),
        'pandas.core.generic.NDFrame': ('stub_pandas', 'NDFrame'),
        'pandas.RangeIndex': ('stub_pandas', 'RangeIndex'), 'pandas.MultiIndex': ('stub_pandas', 'MultiIndex'),
        'pandas.IndexSlice': ('stub_pandas', 'IndexSlice'), 'pandas.concat': ('stub_pandas', 'concat'), 'pandas.Index': ('stub_pandas', 'Index'),
        'pathlib.Path': ('stub_misc', 'Path'),
        'pandas.read_csv': ('stub_yaml', 'read_csv'),
        **{'yaml.' + n: ('stub_yaml', n) for n in ('YAMLObject', 'SafeDumper', 'SafeLoader', 'MappingNode', 'SequenceNode', 'ScalarNode', 'YAMLError',
                                                   'safe_dump', 'safe_load', 'dump', 'load')},
        **{'cvxpy.' + n: ('stub_cvxpy', n) for n in ('Variable', 'Parameter', 'Problem', 'Minimize', 'Maximize', 'installed_solvers', 'multiply', 'sum', 'hstack', 'ENV',
                                                     'MOSEK', 'GLPK_MI', 'GLPK', 'CLARABEL', 'SCS', 'OSQP', 'CVXOPT', 'HIGHS', 'SCIPY', 'layout')},
        'mosek.Error': ('stub_cvxpy', 'Error'), 'scipy.sparse.csr_matrix': ('stub_cvxpy', 'sparse'), 'scipy.sparse.csc_matrix': ('stub_cvxpy', 'sparse'),
        'inspect.Parameter': ('stub_misc', 'Parameter'), 'tqdm.tqdm': ('stub_misc', 'tqdm'),
        'functools.cmp_to_key': ('stub_misc', 'cmp_to_key'),
        'numpy.random.RandomState': ('stub_random', 'Generator'), 'numpy.random.Generator': ('stub_random', 'Generator'),
        'numpy.random.default_rng': ('stub_random', 'default_rng'), 'random.Random': ('stub_random', 'Generator'),
    }

    def __init__(self):
        self.fns = {}
        self.meths = {}
        self.spec_names = {}
        self.opaque_log = {}
        self.register()

    # ------------------------------------------------------------ stubs / names
    def stubclass(self, I, path):
        s = self.STUBS.get(path)
        if s is None:
            return None
        m = I.module(s[0])
        if m is None:
            return None
        from interp import State
        return I.mod_attr(m, s[1], State())

    def spec_global(self, I, name):
        if name in self.spec_names:
            return code('lib', 'spec.' + name)
        return None

    def opaque_base(self, ci):
        for b in ci.libbases_all():
            if b in ('object', 'builtins.object', 'abc.ABC', 'builtins.type'):
                continue
            if isinstance(b, str) and b.startswith('builtins.'):
                continue
            return True
        return False

    def class_hook(self, I, st, ci, args, kw):
        return None

    # ------------------------------------------------------------ generic attribute access
    def lib_attr(self, I, st, l, name):
        p = l.a[0]
        full = p + '.' + name
        if full in LIBCONST:
            return LIBCONST[full]
        if name == '__name__':
            return const(p.split('.')[-1])
        if p.startswith('builtins.') and p.split('.')[1] in ('dict', 'list', 'str', 'set', 'object', 'tuple', 'float', 'int'):
            return code('lib', full)
        return None

    def inst_builtin_attr(self, I, st, l, o, name):
        if name == '__doc__':
            return unk('doc')
        if name == '__module__':
            return const(o.cls.module.name)
        if name in ('__init__', '__repr__', '__str__', '__dir__', '__eq__', '__ne__', '__hash__', '__setattr__', '__getattribute__', '__reduce_ex__'):
            return code('hostfn', 'object.' + name, _object_method(self, name, l))
        if name == '__len__' or name == '__call__':
            return None
        if any(isinstance(b, str) and b == 'numpy.ndarray' for b in o.cls.libbases_all()) and '__arr__' in o.data:
            return I.getattr(o.data['__arr__'], name, st)
        return None

    def class_builtin_attr(self, I, st, ci, name):
        if name == '__init__':
            return code('hostfn', 'object.__init__', lambda I, st, a, k: NONE)
        if name == '__module__':
            return const(ci.module.name)
        if name == '__doc__':
            return unk('doc')
        if name == '__new__':
            return code('hostfn', 'object.__new__', _object_new)
        if name == '__bases__':
            return tup(code('class', b) for b in ci.bases)
        return None

    def super_builtin(self, I, st, cls, selfv, name):
        if name == '__init__':
            return code('hostfn', 'object.__init__', lambda I, st, a, k: NONE)
        if name == '__new__':
            return code('hostfn', 'object.__new__', _object_new)
        if name in ('__repr__', '__str__', '__dir__', '__eq__', '__ne__', '__hash__', '__setattr__', '__getattribute__'):
            return code('hostfn', 'object.' + name, _object_method(self, name, selfv))
        if name == '__init_subclass__':
            return code('hostfn', 'object.__init_subclass__', lambda I, st, a, k: NONE)
        if self.opaque_base(cls):
            return unk('super().%s of library class' % name)
        return None

    def obj_setattr(self, I, st, l, o, name, v):
        if o.kind == 'arr' and name == 'shape':
            raise Unsupported('array shape assignment')
        if o.kind == 'unk':
            return NONE
        I.do_raise(st, mkexc('AttributeError', const(name)))

    def obj_attr(self, I, st, l, o, name):
        k = o.kind
        if name == '__class__':
            return code('lib', {'list': 'builtins.list', 'dict': 'builtins.dict', 'set': 'builtins.set', 'arr': 'numpy.ndarray', 'iter': 'builtins.generator'}.get(k, 'builtins.object'))
        if k == 'arr':
            return self.arr_attr(I, st, l, name)
        if k in ('list', 'dict', 'set', 'iter'):
            if (k, name) in self.meths:
                return code('meth', k + '.' + name, l)
            if name in ('__len__', '__iter__', '__getitem__', '__contains__', '__setitem__') and k != 'iter':
                return code('meth', k + '.' + name, l)
            host_gap({'list': list, 'dict': dict, 'set': set, 'iter': type(x for x in ())}[k], name)
            I.do_raise(st, mkexc('AttributeError', const(name)))
        return unk('attribute %s of %s' % (name, k))

    def leaf_attr(self, I, st, l, name):
        t = type(l)
        if t is Const and isinstance(l.v, str):
            if ('str', name) in self.meths:
                return code('meth', 'str.' + name, l)
            if name in ('__len__', '__iter__', '__getitem__'):
                return code('meth', 'str.' + name, l)
            host_gap(str, name)
            I.do_raise(st, mkexc('AttributeError', const(name)))
        if l is NONE or l is NOTIMPL or l is ELL:
            if name == '__class__':
                return code('lib', 'builtins.NoneType')
            I.do_raise(st, mkexc('AttributeError', const(name)))
        if isnumleaf(l) and t is not Unk:
            if name in ('any', 'all'):
                return code('hostfn', 'scalar.%s:%d' % (name, l.id), lambda I, st, a, k, l=l: I.truth(l, st))
            if name in ('item', 'copy', 'tolist', 'sum', 'min', 'max', 'mean', 'squeeze'):
                # numpy scalars have it, python numbers do not: the value is the same either way
                return code('hostfn', 'scalar.%s:%d' % (name, l.id), lambda I, st, a, k, l=l: l)
            if name == 'astype':
                return code('hostfn', 'scalar.astype:%d' % l.id, lambda I, st, a, k, l=l: l)
            if name in ('real',):
                return l
            if name == 'is_integer':
                return code('hostfn', 'scalar.is_integer:%d' % l.id, lambda I, st, a, k, l=l: cmpnum('Eq', l, vfloor(l)))
            if name == '__class__':
                return code('lib', 'builtins.float')
            if name in ARR_METHODS and not name.startswith('__') or name in ('shape', 'ndim', 'size', 'dtype', 'T'):
                return unk('attribute %s: numpy and python scalars differ' % name)
            if name in LIBNAMES.get('float64', ()):
                raise Unsupported('%s of a number is not modelled' % name)
            host_gap(float, name)
            host_gap(int, name)
            I.do_raise(st, mkexc('AttributeError', const(name)))
        if t is Tup:
            if ('tuple', name) in self.meths:
                return code('meth', 'tuple.' + name, l)
            if name in ('__len__', '__iter__', '__getitem__'):
                return code('meth', 'tuple.' + name, l)
            host_gap(tuple, name)
            I.do_raise(st, mkexc('AttributeError', const(name)))
        if is_slice(l) and name in ('start', 'stop', 'step'):
            return l.args[('start', 'stop', 'step').index(name)]
        if t is App and l.fn.startswith('exc:'):
            if name == 'args':
                return tup(a for a in l.args if isinstance(a, Val))
            if name == '__class__':
                return code('lib', 'builtins.' + l.fn[4:])
            return unk('exception attribute')
        if t in (Sym, App):
            return app('free:attr:' + name, (l,), 'any')
        return unk('attribute %s of %s' % (name, t.__name__))

    # ------------------------------------------------------------ strings
    def to_str(self, I, st, v, fmt=False, own=False):
        def leaf(l):
            if fmt:
                return opaque_leaf('fmt', l)
            if type(l) is Const:
                return const(str(l.v))
            c = nconst(l)
            if c is not None and c.denominator == 1:
                return const(str(int(c)))
            return opaque_leaf('str', l)

        def opaque_leaf(n, l):
            return app(n, (l,), 'any')

        def obj(s, l):
            if type(l) is Ref:
                o = I.hget(s, l.oid)
                if o.kind == 'inst':
                    if I.class_lookup(o.cls, '__str__'):
                        return I.call_method(l, '__str__', [], s)
                    if I.class_lookup(o.cls, '__repr__') and not fmt and (own or o.cls.module.kind != 'repo'):
                        return I.call_method(l, '__repr__', [], s)
                return app('str', (const('object'),), 'any')
            if type(l) is Tup:
                return app('str', (const('tuple'),), 'any') if any(type(x) is Ref for x in l.items) else leaf(l)
            return leaf(l)
        if any(type(l) is Ref for l in leaves(v)):
            return I.per_leaf(st, v, obj)
        return mapn(lambda l: obj(st, l), (v,))

    def str_concat(self, vs):
        def j(*ls):
            out = []
            for l in ls:
                if type(l) is Const and isinstance(l.v, str):
                    if out and type(out[-1]) is Const:
                        out[-1] = const(out[-1].v + l.v)
                        continue
                out.append(l)
            if not out:
                return const('')
            if len(out) == 1 and type(out[0]) is Const:
                return out[0]
            return app('concat', out, 'any')
        return mapn(j, vs)

    # ------------------------------------------------------------ operators
    def unop(self, I, st, op, v):
        def leaf(s, l):
            t = type(l)
            if t is Ref:
                o = I.hget(s, l.oid)
                if o.kind == 'arr':
                    c = self.acontent(I, s, l)
                    if op == 'USub':
                        return I.newarr(s, mapn(lambda x: ewise(vneg, x), (c,)))
                    if op == 'Invert':
                        return I.newarr(s, mapn(lambda x: ewise(lambda y: bnot(mapn(T._leaf_truth, (y,))), x), (c,)))
                    return l
                if o.kind == 'inst':
                    d = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
                    return I.call_method(l, d, [], s)
                I.do_raise(s, mkexc('TypeError', const('bad operand')))
            if isnumleaf(l) or t in (Sym, App):
                if op == 'USub':
                    return vneg(l)
                if op == 'UAdd':
                    return l
                if op == 'Invert':
                    if l is TRUE:
                        return num(-2)
                    return bnot(mapn(T._leaf_truth, (l,)))
            I.do_raise(s, mkexc('TypeError', const('bad operand')))
        if allnum(v) and op != 'Invert':
            return vneg(v) if op == 'USub' else v
        return I.per_leaf(st, v, leaf)

    AUG = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__', 'BitOr': '__ior__'}

    def augop(self, I, st, op, a, b):
        def leaf(s, l):
            if type(l) is Ref:
                o = I.hget(s, l.oid)
                if o.kind == 'list' and op == 'Add':
                    self.call_meth(I, s, 'list.extend', l, [b], {})
                    return l
                if o.kind == 'set' and op == 'BitOr':
                    self.call_meth(I, s, 'set.update', l, [b], {})
                    return l
                if o.kind == 'dict' and op == 'BitOr':
                    self.dict_update(I, s, l, b)
                    return l
                if o.kind == 'arr':
                    r = self.binop(I, s, op, l, b)
                    self.awrite(I, s, l, self.acontent(I, s, r))
                    return l
                if o.kind == 'inst' and op in self.AUG and I.class_lookup(o.cls, self.AUG[op]):
                    return I.call_method(l, self.AUG[op], [b], s)
            return self.binop(I, s, op, l, b)
        if allnum(a):
            return self.binop(I, st, op, a, b)
        return I.per_leaf(st, a, leaf)

    def binop(self, I, st, op, a, b):
        if op == 'Div' and I.handled('ZeroDivisionError') and allnum(a) and allnum(b):
            I.raise_if(st, cmpnum('Eq', b, ZERO), mkexc('ZeroDivisionError'))
            a, b = I.simp(st, a), I.simp(st, b)
        if allnum(a) and allnum(b):
            r = arith(op, I.simp(st, a), I.simp(st, b))
            return r
        return I.per_leaves(st, [a, b], lambda s, x, y: self.bin_leaf(I, s, op, x, y))

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
              'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'MatMult': 'matmul'}

    def kind(self, I, st, l):
        if type(l) is Ref:
            return I.hget(st, l.oid).kind
        return None

    def bin_leaf(self, I, st, op, x, y):
        kx, ky = self.kind(I, st, x), self.kind(I, st, y)
        tx, ty = type(x), type(y)
        if Unk in (tx, ty) and kx != 'inst':
            return unk('operation on unknown')
        if kx == 'inst' or ky == 'inst':
            ox = I.hget(st, x.oid) if kx == 'inst' else None
            oy = I.hget(st, y.oid) if ky == 'inst' else None
            if ox is not None and '__arr__' in ox.data:
                return self.bin_leaf(I, st, op, ox.data['__arr__'], y)
            if oy is not None and '__arr__' in oy.data:
                return self.bin_leaf(I, st, op, x, oy.data['__arr__'])
            if ox is not None and I.class_lookup(ox.cls, '__%s__' % self.DUNDER[op]):
                return I.call_method(x, '__%s__' % self.DUNDER[op], [y], st)
            if oy is not None and I.class_lookup(oy.cls, '__r%s__' % self.DUNDER[op]):
                return I.call_method(y, '__r%s__' % self.DUNDER[op], [x], st)
            if ox is not None:
                I.gap(ox.cls, '__%s__' % self.DUNDER[op])
            if oy is not None:
                I.gap(oy.cls, '__r%s__' % self.DUNDER[op])
            I.do_raise(st, mkexc('TypeError', const('unsupported operand')))
        if kx == 'arr' or ky == 'arr':
            if op == 'MatMult':
                return self.call(I, st, 'numpy.dot', [x, y], {})
            cx = self.as_content(I, st, x)
            cy = self.as_content(I, st, y)
            try:
                return I.newarr(st, mapn(lambda p, q: ewise(lambda u, v: arith(op, u, v), p, q), (cx, cy)))
            except ShapeError:
                I.do_raise(st, mkexc('ValueError', const('broadcast')))
        if isnumleaf(x) and isnumleaf(y):
            return arith(op, x, y)
        if op == 'Add':
            if kx == 'list' and ky == 'list':
                c = mapn(lambda p, q: tup(p.items + q.items) if type(p) is Tup and type(q) is Tup else unk('list'), (I.hget(st, x.oid).data, I.hget(st, y.oid).data))
                return I.alloc(st, 'list', c)
            if tx is Tup and ty is Tup:
                return tup(x.items + y.items)
            if isstr(x) and isstr(y):
                return self.str_concat([x, y])
        if op == 'Mult':
            for p, q, kp in ((x, y, kx), (y, x, ky)):
                if kp == 'list' or type(p) is Tup or (type(p) is Const and isinstance(p.v, str)):
                    n = q
                    if not is_int_num(n):
                        I.do_raise(st, mkexc('TypeError', const('cannot multiply sequence')))
                    k = iconst(n)
                    if k is None:
                        k = self.concrete_int(I, st, n)
                        if k is None:
                            return I.alloc(st, 'list', unk('repeat')) if kp == 'list' else unk('repeat')
                        if isinstance(k, list):
                            return I.branch(st, [(c, lambda s, kk=kk: self.bin_leaf(I, s, 'Mult', p, num(kk))) for c, kk in k])
                    if kp == 'list':
                        c = mapn(lambda l: tup(l.items * max(k, 0)), (I.hget(st, p.oid).data,))
                        return I.alloc(st, 'list', c)
                    if type(p) is Tup:
                        return tup(p.items * max(k, 0))
                    return const(p.v * max(k, 0))
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and kx == 'set':
            return self.set_op(I, st, op, x, y)
        if op == 'BitOr' and kx == 'dict' and ky == 'dict':
            r = I.alloc(st, 'dict', I.hget(st, x.oid).data)
            self.dict_update(I, st, r, y)
            return r
        if op == 'Mod' and isstr(x):
            ys = y.items if ty is Tup else [y]
            py = []
            for z in ys:
                c = nconst(z)
                if type(z) is Const and isinstance(z.v, str):
                    py.append(z.v)
                elif c is not None and c.denominator == 1:
                    py.append(int(c))
                else:
                    break
            if type(x) is Const and len(py) == len(ys):
                try:
                    return const(x.v % tuple(py))
                except (TypeError, ValueError):
                    pass
            return app('format', (x,), 'any')
        if (tx in (Sym, App) or isnumleaf(x)) and (ty in (Sym, App) or isnumleaf(y)):
            return arith(op, x, y)
        I.do_raise(st, mkexc('TypeError', const('unsupported operand %s' % op)))

    def concrete_int(self, I, st, n):
        """n symbolic integer: small set of possible values?"""
        lo, hi = T.pinterval(n.p) if type(n) is Num else T.bound(n)
        if lo is not None and hi is not None and hi[0] - lo[0] <= 8:
            return [(cmpnum('Eq', n, num(k)), k) for k in range(int(lo[0]), int(hi[0]) + 1)]
        return None

    def set_op(self, I, st, op, x, y):
        cy = I.iter_content(y, st)

        def f(a, b):
            if type(a) is not DictL or type(b) is not Tup:
                return unk('set op')
            ka = [k for k, _ in a.pairs]
            kb = list(b.items)
            if op == 'BitOr':
                r = ka + [k for k in kb if k not in ka]
            elif op == 'BitAnd':
                r = [k for k in ka if k in kb]
            elif op == 'Sub':
                r = [k for k in ka if k not in kb]
            else:
                r = [k for k in ka if k not in kb] + [k for k in kb if k not in ka]
            return dictl((k, NONE) for k in dict.fromkeys(r))
        return I.alloc(st, 'set', mapn(f, (I.hget(st, x.oid).data, cy)))

    def cmpop(self, I, st, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_op(I, st, a, b)
            return r if op == 'Is' else bnot(r)
        if op in ('In', 'NotIn'):
            r = self.contains(I, st, b, a)
            return r if op == 'In' else bnot(r)
        if allnum(a) and allnum(b):
            return cmpnum(op, I.simp(st, a), I.simp(st, b))
        return I.per_leaves(st, [a, b], lambda s, x, y: self.cmp_leaf(I, s, op, x, y))

    def is_op(self, I, st, a, b):
        def f(x, y):
            if x is y:
                return TRUE if type(x) is not Unk else T._leaf_truth(unk('is'))
            if Unk in (type(x), type(y)):
                return T._leaf_truth(unk('is'))
            for p, q in ((x, y), (y, x)):
                if p in (NONE, NOTIMPL, ELL, TRUE, FALSE) or type(p) in (Code, Ref):
                    if type(q) is Sym and q.sort == 'any' or type(q) is App and q.sort == 'any' and not q.fn.startswith('exc:'):
                        return case(bool_atom(app('free:is', (q, p), 'bool')), (TRUE, FALSE))
                    return FALSE
            if type(x) is Num and type(y) is Num:
                return cmpnum('Eq', x, y)
            return FALSE
        return mapn(f, (a, b))

    def eq(self, I, st, a, b):
        v = self.cmpop(I, st, 'Eq', a, b)
        return I.truth(v, st)

    def cmp_leaf(self, I, st, op, x, y):
        kx, ky = self.kind(I, st, x), self.kind(I, st, y)
        tx, ty = type(x), type(y)
        if kx == 'inst' and '__arr__' in I.hget(st, x.oid).data:
            return self.cmp_leaf(I, st, op, I.hget(st, x.oid).data['__arr__'], y)
        if (kx == 'arr' or ky == 'arr') and kx != 'inst' and ky != 'inst':
            cx, cy = self.as_content(I, st, x), self.as_content(I, st, y)

            def el(u, v):
                if allnum(u) and allnum(v):
                    return cmpnum(op, u, v)
                return mapn(lambda p, q: self.eq_leaf_pure(op, p, q), (u, v))
            try:
                return I.newarr(st, mapn(lambda p, q: ewise(el, p, q), (cx, cy)))
            except ShapeError:
                if op in ('Eq', 'NotEq'):
                    return const(op == 'NotEq')
                I.do_raise(st, mkexc('ValueError', const('broadcast')))
        if isnumleaf(x) and isnumleaf(y):
            return cmpnum(op, x, y)
        if op in ('Eq', 'NotEq'):
            r = self.eq_leaf(I, st, op, x, y, kx, ky)
            return r
        d = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        rd = {'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}[op]
        if kx == 'inst' or ky == 'inst':
            if kx == 'inst' and I.class_lookup(I.hget(st, x.oid).cls, d):
                return I.call_method(x, d, [y], st)
            if ky == 'inst' and I.class_lookup(I.hget(st, y.oid).cls, rd):
                return I.call_method(y, rd, [x], st)
            if kx == 'inst' and ky == 'inst':
                o = I.hget(st, x.oid)
                if getattr(o.cls, 'is_dataclass', False) and self.dataclass_order(o.cls) and I.hget(st, y.oid).cls is o.cls:
                    fs = [f[0] for c in reversed(o.cls.mro) for f in getattr(c, 'fields', [])]
                    return self.cmp_leaf(I, st, op, tup(I.getattr(x, f, st) for f in fs), tup(I.getattr(y, f, st) for f in fs))
                if self.total_ordering(o.cls):
                    if I.class_lookup(o.cls, '__lt__'):
                        lt = lambda p, q: I.truth(I.call_method(p, '__lt__', [q], st), st)
                        e = lambda: self.eq(I, st, x, y)
                        if op == 'LtE':
                            return bor(lt(x, y), e())
                        if op == 'Gt':
                            return band(bnot(lt(x, y)), bnot(e()))
                        if op == 'GtE':
                            return bnot(lt(x, y))
            for v, k in ((x, kx), (y, ky)):
                if k == 'inst':
                    I.gap(I.hget(st, v.oid).cls, '__lt__')
            I.do_raise(st, mkexc('TypeError', const('comparison not supported')))
        if tx is Const and ty is Const and isinstance(x.v, str) and isinstance(y.v, str):
            return const({'Lt': x.v < y.v, 'LtE': x.v <= y.v, 'Gt': x.v > y.v, 'GtE': x.v >= y.v}[op])
        sx = x.items if tx is Tup else (self.list_items(I, st, x) if kx == 'list' else None)
        sy = y.items if ty is Tup else (self.list_items(I, st, y) if ky == 'list' else None)
        if sx is not None and sy is not None:
            # lexicographic
            def go(i, s):
                if i == len(sx) or i == len(sy):
                    n, m = len(sx), len(sy)
                    return const({'Lt': n < m, 'LtE': n <= m, 'Gt': n > m, 'GtE': n >= m}[op])
                e = self.eq(I, s, sx[i], sy[i])
                if e is TRUE:
                    return go(i + 1, s)
                return I.branch(s, [(e, lambda q: go(i + 1, q)), (bnot(e), lambda q: self.cmpop(I, q, 'Lt' if op in ('Lt', 'LtE') else 'Gt', sx[i], sy[i]))])
            return go(0, st)
        if kx == 'set' and ky == 'set' and op in ('LtE', 'GtE', 'Lt', 'Gt'):
            a, b = set(k for k, _ in I.hget(st, x.oid).data.pairs), set(k for k, _ in I.hget(st, y.oid).data.pairs)
            return const({'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op])
        if Unk in (tx, ty):
            return T._leaf_truth(unk('comparison'))
        if (tx in (Sym, App) or isnumleaf(x)) and (ty in (Sym, App) or isnumleaf(y)):
            return cmpnum(op, x, y)
        I.do_raise(st, mkexc('TypeError', const('%s not supported' % op)))

    def dataclass_order(self, ci):
        import ast
        for d in ci.node.decorator_list:
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg == 'order' and isinstance(k.value, ast.Constant) and k.value.value:
                        return True
        return False

    def total_ordering(self, ci):
        import ast
        for c in ci.mro:
            for d in c.node.decorator_list:
                nm = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '')
                if nm == 'total_ordering':
                    return True
        return False

    def list_items(self, I, st, x):
        d = I.hget(st, x.oid).data
        d = I.simp(st, d)
        return d.items if type(d) is Tup else None

    def eq_leaf_pure(self, op, x, y):
        r = self.eq_simple(x, y)
        return r if op == 'Eq' else bnot(r)

    def eq_simple(self, x, y):
        tx, ty = type(x), type(y)
        if isnumleaf(x) and isnumleaf(y):
            return cmpnum('Eq', x, y)
        if Unk in (tx, ty):
            return T._leaf_truth(unk('equality'))
        if x is y:
            return TRUE
        opaque_ = lambda v: type(v) is Sym and v.sort in ('any', 'fn') or type(v) is App and not v.fn.startswith('exc:') and v.sort == 'any'
        if opaque_(x) or opaque_(y):
            a, b = (x, y) if x.id < y.id else (y, x)
            return case(bool_atom(app('free:eq', (a, b), 'bool')), (TRUE, FALSE))
        if tx is Tup and ty is Tup:
            if len(x.items) != len(y.items):
                return FALSE
            r = TRUE
            for p, q in zip(x.items, y.items):
                r = band(r, mapn(self.eq_simple, (p, q)))
            return r
        return FALSE

    def eq_leaf(self, I, st, op, x, y, kx, ky):
        neg = op == 'NotEq'
        fin = (lambda r: bnot(r)) if neg else (lambda r: r)
        if x is y and kx not in ('inst', 'arr'):
            return fin(TRUE)
        if kx == 'inst' or ky == 'inst':
            for p, q, k in ((x, y, kx), (y, x, ky)):
                if k != 'inst':
                    continue
                o = I.hget(st, p.oid)
                if neg and I.class_lookup(o.cls, '__ne__'):
                    return I.call_method(p, '__ne__', [q], st)
                if I.class_lookup(o.cls, '__eq__'):
                    r = I.call_method(p, '__eq__', [q], st)
                    r = I.simp(st, r)
                    if r is NOTIMPL:
                        continue
                    if any(l is NOTIMPL for l in leaves(r)):
                        r = mapn(lambda l: FALSE if l is NOTIMPL else l, (r,))
                    if any(type(l) is Ref for l in leaves(r)):
                        return r
                    return fin(I.truth(r, st))
                if getattr(o.cls, 'is_dataclass', False) and type(q) is Ref and I.hget(st, q.oid).cls is o.cls:
                    r = TRUE
                    for c in reversed(o.cls.mro):
                        for f in getattr(c, 'fields', []):
                            r = band(r, self.eq(I, st, I.getattr(p, f[0], st), I.getattr(q, f[0], st)))
                    return fin(r)
                if x is not y:
                    I.gap(o.cls, '__eq__')
            return fin(const(x is y))
        if type(x) is Tup and type(y) is Tup or (kx == 'list' and ky == 'list'):
            if kx == 'list':
                cx, cy = I.hget(st, x.oid).data, I.hget(st, y.oid).data
            else:
                cx, cy = x, y

            def seq(s, p, q):
                if type(p) is not Tup or type(q) is not Tup:
                    return T._leaf_truth(unk('list equality'))
                if len(p.items) != len(q.items):
                    return FALSE
                r = TRUE
                for u, v in zip(p.items, q.items):
                    if u is v and type(u) is not Ref:
                        continue
                    r = band(r, self.eq(I, s, u, v))
                return r
            return fin(I.per_leaves(st, [cx, cy], seq))
        if kx == 'dict' and ky == 'dict':
            def deq(s, p, q):
                if type(p) is not DictL or type(q) is not DictL:
                    return T._leaf_truth(unk('dict equality'))
                if {k for k, _ in p.pairs} != {k for k, _ in q.pairs}:
                    return FALSE
                r = TRUE
                for k, v in p.pairs:
                    w = q.get(k)
                    if v is w and type(v) is not Ref:
                        continue
                    r = band(r, self.eq(I, s, v, w))
                return r
            return fin(I.per_leaves(st, [I.hget(st, x.oid).data, I.hget(st, y.oid).data], deq))
        if kx == 'set' and ky == 'set':
            return fin(mapn(lambda p, q: const({k for k, _ in p.pairs} == {k for k, _ in q.pairs}), (I.hget(st, x.oid).data, I.hget(st, y.oid).data)))
        if type(x) is Code and type(y) is Code:
            if x.kind == 'bound' and y.kind == 'bound':
                return fin(const(x is y))
            return fin(const(x is y))
        return fin(self.eq_simple(x, y))

    def contains(self, I, st, cont, x):
        def leaf(s, c):
            t = type(c)
            k = self.kind(I, s, c)
            if k in ('dict', 'set'):
                d = I.hget(s, c.oid).data

                def f(l, kk):
                    if type(l) is not DictL:
                        return T._leaf_truth(unk('membership'))
                    if l.get(kk) is not None:
                        return TRUE
                    if type(kk) is Ref:
                        return FALSE
                    r = FALSE
                    if type(kk) in (Sym, App, Num, Unk, Tup):
                        for a, _ in l.pairs:
                            r = bor(r, self.eq_simple(a, kk))
                    return r
                if any(type(l) is Ref for l in leaves(x)):
                    def refs(s2, kk):
                        if type(kk) is Ref and self.kind(I, s2, kk) in ('list', 'dict', 'set', 'arr'):
                            I.do_raise(s2, mkexc('TypeError', const('unhashable type')))
                        kk = self.hkey(I, s2, kk)
                        return mapn(lambda l: f(l, kk), (d,))
                    return I.per_leaf(s, x, refs)
                return mapn(f, (d, x))
            if k == 'inst':
                o = I.hget(s, c.oid)
                if I.class_lookup(o.cls, '__contains__'):
                    return I.truth(I.call_method(c, '__contains__', [x], s), s)
                return self.contains_seq(I, s, I.iter_content(c, s), x)
            if t is Const and isinstance(c.v, str):
                def g(l):
                    if type(l) is Const and isinstance(l.v, str):
                        return const(l.v in c.v)
                    return T._leaf_truth(app('free:substr', (l, c), 'bool'))
                return mapn(g, (x,))
            if t is Unk:
                return T._leaf_truth(unk('membership'))
            if t is App and not c.fn.startswith('exc:'):
                return mapn(lambda l: T._leaf_truth(app('free:in', (l, c), 'bool')), (x,))
            if k == 'arr':
                cont = self.acontent(I, s, c)
                return mapn(lambda a, e: bany([mapn(self.eq_simple, (i, e)) for i in a.items]) if type(a) is CArr else T._leaf_truth(unk('membership')), (cont, x))
            return self.contains_seq(I, s, I.iter_content(c, s), x)
        return I.per_leaf(st, cont, leaf)

    def contains_seq(self, I, st, content, x):
        def go(s, l):
            items = I.content_items(l)
            r = FALSE
            for i in items:
                if i is x and type(i) is Ref:
                    return TRUE
                e = self.eq(I, s, i, x)
                r = bor(r, e)
                if r is TRUE:
                    break
            return r
        return I.per_leaf(st, content, go)


def isstr(x):
    return type(x) is Const and isinstance(x.v, str) or type(x) is App and x.fn in ('concat', 'str', 'fmt', 'format')


def _object_new(I, st, a, k):
    def go(s, c):
        if type(c) is Code and c.kind == 'class':
            return I.alloc(s, 'inst', {}, c.a[0])
        raise Unsupported('object.__new__')
    return I.per_leaf(st, a[0], go)


OBJ_DIR = ['__class__', '__delattr__', '__dict__', '__dir__', '__doc__', '__eq__', '__hash__', '__init__', '__module__', '__new__', '__reduce__', '__repr__', '__setattr__', '__str__', '__weakref__']


def _object_method(lib, name, selfv):
    def fn(I, st, args, kw):
        if name == '__init__':
            return NONE
        if name == '__dir__':
            o = I.hget(st, selfv.oid)
            names = set(OBJ_DIR)
            for c in o.cls.mro:
                if c.attrs is None:
                    I.fill_class(c)
                names.update(c.attrs)
            names.update(k for k, v in o.data.items() if v is not ABSENT)
            return I.newlist(st, [const(n) for n in sorted(names)])
        if name in ('__repr__', '__str__'):
            return app('str', (const('object'),), 'any')
        if name in ('__eq__', '__ne__'):
            r = lib.is_op(I, st, selfv, args[0])
            return r if name == '__eq__' else bnot(r)
        if name == '__hash__':
            return anum(app('hash', (const(str(selfv)),), 'int'))
        if name == '__setattr__':
            return I.raw_setattr(st, selfv, args[0].v, args[1])
        if name == '__getattribute__':
            return object_getattribute(I, st, selfv, args[0].v)
        raise Unsupported('object.' + name)
    return fn


def object_getattribute(I, st, selfv, name):
    o = I.hget(st, selfv.oid)
    ent = I.class_lookup(o.cls, name)
    if ent is not None and ent[1][0] == 'prop':
        return I.call_func(ent[1][1], None, [selfv], {}, st)
    if name in o.data and o.data[name] is not ABSENT:
        return o.data[name]
    if ent is not None:
        return I.bind_entry(st, ent, selfv, o.cls, name)
    I.do_raise(st, mkexc('AttributeError', const(name)))


LIBCONST = {
    'numpy.inf': INF, 'numpy.Inf': INF, 'numpy.infty': INF, 'math.inf': INF, 'numpy.nan': NAN, 'numpy.NaN': NAN, 'math.nan': NAN,
    'numpy.newaxis': NONE, 'numpy.pi': anum(app('pi', (), 'num', (Fraction(3), True), (Fraction(4), True))),
    'logging.INFO': num(20), 'logging.WARNING': num(30),
    'gym.__version__': const('0.26.2'),
}


def method(f):
    setattr(Lib, f.__name__, f)
    return f


# ------------------------------------------------------------------ containers
@method
def hkey(self, I, st, k):
    if type(k) is Ref:
        o = I.hget(st, k.oid)
        if o.kind in ('list', 'dict', 'set', 'arr'):
            I.do_raise(st, mkexc('TypeError', const('unhashable type')))
    return k


@method
def list_append(self, I, st, r, v):
    o = I.hget(st, r.oid)
    st.put(r.oid, HObj(o.kind, o.cls, mapn(lambda c: tup(c.items + (v,)) if type(c) is Tup else unk('append'), (o.data,))))


def _apart(a, b):
    d = nconst(vsub(a, b))
    return d is not None and d != 0


def dset(c, k, v):
    if type(c) is not DictL:
        return unk('dict store')
    ps = list(c.pairs)
    for i, (a, b) in enumerate(ps):
        if a is k:
            ps[i] = (a, v)
            return dictl(ps)
    if isnumleaf(k) and any(isnumleaf(a) and (nconst(a) is None or nconst(k) is None) and not _apart(a, k) for a, _ in ps):
        raise Unsupported('symbolic dict key')
    ps.append((k, v))
    return dictl(ps)


@method
def dict_set(self, I, st, r, k, v):
    def go(s, kk):
        kk = self.hkey(I, s, kk)
        o = I.hget(s, r.oid)
        s.put(r.oid, HObj(o.kind, o.cls, mapn(lambda c: dset(c, kk, v), (o.data,))))
        return NONE
    I.per_leaf(st, k, go)


@method
def mapping_content(self, I, st, v):
    """diagram of DictL for any mapping-like value"""
    def go(s, l):
        k = self.kind(I, s, l)
        if k == 'dict':
            return I.hget(s, l.oid).data
        if type(l) is DictL:
            return l
        if k == 'inst':
            ks = I.call_method(l, 'keys', [], s)

            def build(s2, items):
                r = I.newdict(s2, ())
                for x in items:
                    self.dict_set(I, s2, r, x, I.getitem(l, x, s2))
                return I.hget(s2, r.oid).data
            return I.items_of(ks, s, build)
        if type(l) is Unk:
            return unk('mapping')
        I.do_raise(s, mkexc('TypeError', const('not a mapping')))
    return I.per_leaf(st, v, go)


@method
def dict_update(self, I, st, r, other):
    def go(s, l):
        k = self.kind(I, s, l)
        is_map = k == 'dict' or (k == 'inst' and I.class_lookup(I.hget(s, l.oid).cls, 'keys'))
        if is_map:
            c = self.mapping_content(I, s, l)
            o = I.hget(s, r.oid)

            def merge_(a, b):
                if type(a) is not DictL or type(b) is not DictL:
                    return unk('dict update')
                for kk, vv in b.pairs:
                    a = dset(a, kk, vv)
                return a
            s.put(r.oid, HObj(o.kind, o.cls, mapn(merge_, (o.data, c))))
            return NONE

        def pairs_(s2, items):
            for it in items:
                cc = I.iter_content(it, s2)

                def put(s3, t):
                    its = I.content_items(t)
                    if len(its) != 2:
                        I.do_raise(s3, mkexc('ValueError', const('dict update sequence')))
                    self.dict_set(I, s3, r, its[0], its[1])
                    return NONE
                I.per_leaf(s2, cc, put)
            return NONE
        return I.items_of(l, s, pairs_)
    I.per_leaf(st, other, go)


@method
def dict_get(self, I, st, c, k):
    """value or ABSENT (diagram)"""
    def f(l, kk):
        if type(l) is not DictL:
            return unk('dict lookup')
        v = l.get(kk)
        if v is not None:
            return v
        if type(kk) in (Unk,):
            return unk('dict lookup with unknown key')
        if type(kk) in (Sym, App) or type(kk) is Num and nconst(kk) is None or type(kk) is Tup:
            r = ABSENT
            for a, b in l.pairs:
                e = self.eq_simple(a, kk)
                if e is not FALSE:
                    r = ite(e, b, r)
            return r
        return ABSENT
    return mapn(f, (c, k))


@method
def seq_index(self, I, st, items, k, what='list'):
    """items: python list of values; k leaf int"""
    n = len(items)
    i = iconst(k)
    if i is not None:
        if i < -n or i >= n:
            I.do_raise(st, mkexc('IndexError', const('%s index out of range' % what)))
        return items[i]
    if not isnumleaf(k) and type(k) not in (Sym, App):
        I.do_raise(st, mkexc('TypeError', const('list indices')))
    if type(k) is Unk:
        return unk('index')
    if not is_int_num(k) and type(k) is Num:
        if nconst(k) is not None:
            I.do_raise(st, mkexc('TypeError', const('list indices')))
    I.raise_if(st, bor(cmpnum('GtE', k, num(n)), cmpnum('Lt', k, num(-n))), mkexc('IndexError', const('%s index out of range' % what)))
    if not n:
        raise Dead()
    r = items[n - 1]
    for j in range(n - 2, -1, -1):
        r = ite(cmpnum('Eq', k, num(j)), items[j], r)
    for j in range(1, n + 1):
        r = ite(cmpnum('Eq', k, num(-j)), items[-j], r)
    return I.simp(st, r)


@method
def seq_slice(self, I, st, items, k):
    a, b, c = k.args
    vals = []
    for x in (a, b, c):
        x = I.simp(st, x)
        if x is NONE:
            vals.append(None)
        else:
            i = iconst(x)
            if i is None:
                return None
            vals.append(i)
    return items[slice(*vals)]


def split_slice(self, I, st, k, n):
    """slice with symbolic bounds on a sequence of n items: [(cond, concrete slice)]"""
    out = [(TRUE, [])]
    for x in k.args:
        x = I.simp(st, x)
        new = []
        for c, vs in out:
            for c2, l in alternatives(x):
                i = iconst(l)
                if l is NONE or i is not None:
                    new.append((band(c, c2), vs + [None if l is NONE else i]))
                elif isnumleaf(l) and type(l) is not Unk:
                    new.append((band(band(c, c2), cmpnum('LtE', l, num(-n))), vs + [-n]))
                    for j in range(-n + 1, n):
                        new.append((band(band(c, c2), cmpnum('Eq', l, num(j))), vs + [j]))
                    new.append((band(band(c, c2), cmpnum('GtE', l, num(n))), vs + [n]))
                else:
                    raise Unsupported('slice bound')
        out = new
    return [(c, slice(*v)) for c, v in out]


@method
def getitem(self, I, st, l, k):
    t = type(l)
    kd = self.kind(I, st, l)
    if kd == 'dict':
        def dk(s, kk):
            kk = self.hkey(I, s, kk)
            v = self.dict_get(I, s, I.hget(s, l.oid).data, kk)
            v = I.simp(s, v)
            if v is ABSENT:
                I.do_raise(s, mkexc('KeyError', kk))
            if type(v) is Dec and ABSENT in leaves(v):
                I.raise_if(s, cond_is(v, ABSENT), mkexc('KeyError', kk))
                v = I.simp(s, v)
            return v
        if any(type(x) is Ref for x in leaves(k)):
            return I.per_leaf(st, k, dk)
        return dk(st, I.simp(st, k)) if type(I.simp(st, k)) is not Dec else I.per_leaf(st, k, dk)
    if kd == 'list' or t is Tup or t is ListV or (t is Const and isinstance(l.v, str)):
        if kd == 'list':
            content = I.hget(st, l.oid).data
        elif t is Const:
            content = tup(const(ch) for ch in l.v)
        else:
            content = tup(l.items)

        def go(s, c, kk):
            if type(c) is not Tup:
                return unk('index into unknown list')
            if is_slice(kk):
                def fin(s2, its):
                    if t is Const:
                        return const(''.join(x.v for x in its))
                    return I.newlist(s2, its) if kd == 'list' else tup(its)
                r = self.seq_slice(I, s, c.items, kk)
                if r is not None:
                    return fin(s, r)
                return I.branch(s, [(cc, lambda s2, sl=sl: fin(s2, c.items[sl])) for cc, sl in split_slice(self, I, s, kk, len(c.items))])
            if type(kk) is Const and kk not in (TRUE, FALSE) or type(kk) is Tup or kk is NONE or type(kk) is Ref:
                I.do_raise(s, mkexc('TypeError', const('list indices must be integers')))
            return self.seq_index(I, s, c.items, kk)
        return I.per_leaves(st, [content, k], go)
    if kd == 'arr':
        return self.arr_getitem(I, st, l, k)
    if kd == 'inst':
        o = I.hget(st, l.oid)
        if I.class_lookup(o.cls, '__getitem__'):
            return I.call_method(l, '__getitem__', [k], st)
        if '__arr__' in o.data:
            return I.getitem(o.data['__arr__'], k, st)
        I.gap(o.cls, '__getitem__')
        I.do_raise(st, mkexc('TypeError', const('not subscriptable')))
    if t is DictL:
        v = self.dict_get(I, st, l, k)
        if v is ABSENT:
            I.do_raise(st, mkexc('KeyError', k))
        return v
    if isnumleaf(l) and t is not Unk or l in (NONE, NOTIMPL):
        I.do_raise(st, mkexc('TypeError', const('not subscriptable')))
    if t is Code:
        if l.kind == 'class' or l.kind == 'lib' and l.a[0].split('.')[0] in ('typing', 'builtins', 'collections'):
            return l     # typing subscripts
        if l.kind == 'lib':
            return unk('subscript of ' + l.a[0])
        I.do_raise(st, mkexc('TypeError', const('not subscriptable')))
    if t in (Sym, App) and not (t is App and l.fn.startswith('exc:')):
        return opaque('free:getitem', (l, k), 'any')
    if kd in ('set', 'iter'):
        I.do_raise(st, mkexc('TypeError', const('not subscriptable')))
    return unk('getitem on %s' % t.__name__)


@method
def setitem(self, I, st, l, k, v):
    kd = self.kind(I, st, l)
    if kd == 'dict':
        self.dict_set(I, st, l, k, v)
        return NONE
    if kd == 'list':
        def go(s, c, kk):
            if type(c) is not Tup:
                s.put(l.oid, HObj('list', None, unk('list store')))
                return NONE
            items = list(c.items)
            if is_slice(kk):
                sl = self.seq_slice(I, s, list(range(len(items))), kk)
                if sl is None:
                    raise Unsupported('slice store')
                new = I.iter_content(v, s)
                if type(new) is not Tup:
                    raise Unsupported('slice store')
                args = [None if x is NONE else iconst(x) for x in kk.args]
                items[slice(*args)] = list(new.items)
                s.put(l.oid, HObj('list', None, tup(items)))
                return NONE
            i = iconst(kk)
            n = len(items)
            if i is not None:
                if i < -n or i >= n:
                    I.do_raise(s, mkexc('IndexError', const('assignment index out of range')))
                items[i] = v
            else:
                I.raise_if(s, bor(cmpnum('GtE', kk, num(n)), cmpnum('Lt', kk, num(-n))), mkexc('IndexError', const('assignment index out of range')))
                items = [ite(bor(cmpnum('Eq', kk, num(j)), cmpnum('Eq', kk, num(j - n))), v, x) for j, x in enumerate(items)]
            s.put(l.oid, HObj('list', None, tup(items)))
            return NONE
        I.per_leaves(st, [I.hget(st, l.oid).data, k], go)
        return NONE
    if kd == 'arr':
        self.arr_setitem(I, st, l, k, v)
        return NONE
    if kd == 'inst':
        o = I.hget(st, l.oid)
        if I.class_lookup(o.cls, '__setitem__'):
            I.call_method(l, '__setitem__', [k, v], st)
            return NONE
        if '__arr__' in o.data:
            return self.setitem(I, st, o.data['__arr__'], k, v)
        I.gap(o.cls, '__setitem__')
    if kd == 'unk' or type(l) is Unk:
        return NONE
    I.do_raise(st, mkexc('TypeError', const('item assignment')))


@method
def delitem(self, I, st, o, k):
    def go(s, l):
        kd = self.kind(I, s, l)
        if kd == 'dict':
            self.call_meth(I, s, 'dict.pop', l, [k], {})
            return NONE
        if kd == 'list':
            def dl(s2, c, kk):
                items = list(c.items)
                if is_slice(kk):
                    args = [None if x is NONE else iconst(x) for x in kk.args]
                    del items[slice(*args)]
                else:
                    i = iconst(kk)
                    if i is None:
                        return self.list_pop_at(I, s2, l, c, kk)
                    if i < -len(items) or i >= len(items):
                        I.do_raise(s2, mkexc('IndexError', const('index out of range')))
                    del items[i]
                s2.put(l.oid, HObj('list', None, tup(items)))
                return NONE
            return I.per_leaves(s, [I.hget(s, l.oid).data, k], dl)
        if kd == 'inst':
            return I.call_method(l, '__delitem__', [k], s)
        raise Unsupported('del item')
    I.per_leaf(st, o, go)


@method
def list_pop_at(self, I, st, l, c, kk):
    n = len(c.items)
    I.raise_if(st, bor(cmpnum('GtE', kk, num(n)), cmpnum('Lt', kk, num(-n))), mkexc('IndexError', const('pop index out of range')))

    def one(s, j):
        items = list(c.items)
        v = items.pop(j)
        s.put(l.oid, HObj('list', None, tup(items)))
        return v
    return I.branch(st, [(bor(cmpnum('Eq', kk, num(j)), cmpnum('Eq', kk, num(j - n))), lambda s, j=j: one(s, j)) for j in range(n)])


# ------------------------------------------------------------------ arrays
@method
def acontent(self, I, st, r):
    o = I.hget(st, r.oid)
    if o.kind == 'inst' and '__arr__' in o.data:
        return self.acontent(I, st, o.data['__arr__'])
    if o.cls is None:
        return I.simp(st, o.data)
    # view
    _, base, pos, shape, snap = o.cls
    bc = self.acontent(I, st, ref(base))
    if bc is snap or bc is I.simp(st, snap):
        return I.simp(st, o.data)
    if pos is None:
        return unk('view of a modified array')
    return mapn(lambda c: carr(shape, [c.items[p] for p in pos]) if type(c) is CArr else unk('view of a modified array'), (bc,))


@method
def awrite(self, I, st, r, content):
    """replace content of array object r (writes through views)"""
    o = I.hget(st, r.oid)
    old = self.acontent(I, st, r)
    content = I.simp(st, content)
    if content is old:
        return
    if o.cls is not None:
        _, base, pos, shape, snap = o.cls
        bc = self.acontent(I, st, ref(base))
        if pos is not None and type(bc) is CArr and type(content) is CArr:
            items = list(bc.items)
            for p, v in zip(pos, content.items):
                items[p] = v
            new = carr(bc.shape, items)
        else:
            v = decide.compare(st.guard, I.reify(content, st), I.reify(old, st))
            if v.status == 'PROVED':
                return
            new = unk('array written through a view')
        self.awrite(I, st, ref(base), new)
        o2 = I.hget(st, r.oid)
        st.put(r.oid, HObj('arr', ('view', base, pos, shape, self.acontent(I, st, ref(base))), content))
        return
    st.put(r.oid, HObj('arr', None, content))


@method
def newview(self, I, st, base, content, pos, shape):
    o = I.new_oid()
    st.put(o, HObj('arr', ('view', base.oid, pos, shape, self.acontent(I, st, base)), content))
    return ref(o)


@method
def as_content(self, I, st, v):
    """content (CArr/SArr diagram or scalar) of an array-like value, without conversion of scalars"""
    def go(s, l):
        k = self.kind(I, s, l)
        if k == 'arr' or k == 'inst' and '__arr__' in I.hget(s, l.oid).data:
            return self.acontent(I, s, l)
        if k == 'list' or type(l) in (Tup, ListV):
            return self.np_array_content(I, s, l)
        if k == 'inst' and I.class_lookup(I.hget(s, l.oid).cls, '__array__'):
            return self.acontent(I, s, I.call_method(l, '__array__', [], s))
        return l
    if type(v) is not Dec and type(v) not in (Ref, Tup, ListV):
        return v
    if type(v) is Dec and not any(type(l) in (Ref, Tup, ListV) for l in leaves(v)):
        return v
    return I.per_leaf(st, v, go)


def stack(I, cs):
    """list of contents -> content with a new leading axis"""
    def j(*xs):
        if not xs:
            return carr((0,), ())
        if any(type(x) is Unk for x in xs):
            return unk('array of unknown')
        if all(type(x) is CArr for x in xs):
            if any(x.shape != xs[0].shape for x in xs):
                raise ShapeError()
            return carr((len(xs),) + xs[0].shape, [i for x in xs for i in x.items])
        if any(type(x) in (CArr, SArr) for x in xs):
            if all(type(x) in (SArr,) for x in xs):
                return unk('stack of symbolic arrays')
            raise ShapeError()
        return None
    return j


@method
def np_array_content(self, I, st, v):
    def go(s, l):
        k = self.kind(I, s, l)
        if k == 'arr' or k == 'inst' and '__arr__' in I.hget(s, l.oid).data:
            return self.acontent(I, s, l)
        if k == 'inst' and I.class_lookup(I.hget(s, l.oid).cls, '__array__'):
            return self.acontent(I, s, I.call_method(l, '__array__', [], s))
        if k in ('list', 'iter') or type(l) in (Tup, ListV) or (k == 'inst' and I.class_lookup(I.hget(s, l.oid).cls, '__len__') and I.class_lookup(I.hget(s, l.oid).cls, '__iter__')):
            def build(s2, items):
                cs = []
                for x in items:
                    c = self.np_array_content(I, s2, x)
                    cs.append(c)
                if all(isscalar_c(c) for c in cs):
                    return carr((len(cs),), [c.items[0] if type(c) is CArr else c for c in cs])
                try:
                    return mapn(lambda *xs: stack(I, xs)(*xs), cs)
                except ShapeError:
                    I.do_raise(s2, mkexc('ValueError', const('inhomogeneous shape')))
            return I.items_of(l, s, build)
        if type(l) is Unk:
            return l
        return carr((), [l])
    if type(v) is Dec and not any(type(l) in (Ref, Tup, ListV) for l in leaves(v)):
        return carr((), [v])
    return I.per_leaf(st, v, go)


def isscalar_c(c):
    return all(type(l) is CArr and l.shape == () for l in leaves(c))


def norm_index(i, n):
    return i + n if i < 0 else i


def carr_index(c, key):
    """key: tuple of concrete entries: int | slice(py) | None | list of ints -> (shape, positions)"""
    shape = c.shape
    st_ = strides(shape)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        nreal = len([k for k in key if k is not None and k is not Ellipsis])
        key = tuple(key[:i]) + (slice(None),) * (len(shape) - nreal) + tuple(key[i + 1:])
    nreal = len([k for k in key if k is not None])
    if nreal > len(shape):
        raise IndexError('too many indices')
    key = tuple(key) + (slice(None),) * (len(shape) - nreal)
    sel = []          # list of (positions list or int)
    out_shape = []
    axis = 0
    for k in key:
        if k is None:
            out_shape.append(1)
            sel.append(('new',))
            continue
        n = shape[axis]
        if isinstance(k, int):
            if k < -n or k >= n:
                raise IndexError('index out of bounds')
            sel.append(('i', norm_index(k, n) * st_[axis]))
        elif isinstance(k, slice):
            r = list(range(n))[k]
            sel.append(('s', [x * st_[axis] for x in r]))
            out_shape.append(len(r))
        else:
            for x in k:
                if x < -n or x >= n:
                    raise IndexError('index out of bounds')
            sel.append(('s', [norm_index(x, n) * st_[axis] for x in k]))
            out_shape.append(len(k))
        axis += 1
    pos = [0]
    for s in sel:
        if s[0] == 'i':
            pos = [p + s[1] for p in pos]
        elif s[0] == 's':
            pos = [p + x for p in pos for x in s[1]]
    return tuple(out_shape), pos


@method
def index_key(self, I, st, k):
    """leaf key -> tuple of entries (int / slice / None / list / ('sym', leaf) / ('mask', content))"""
    ents = k.items if type(k) is Tup else (k,)
    out = []
    for e in ents:
        e = I.simp(st, e)
        if e is NONE:
            out.append(None)
        elif e is ELL:
            out.append(Ellipsis)
        elif is_slice(e):
            vs = []
            for x in e.args:
                x = I.simp(st, x)
                if x is NONE:
                    vs.append(None)
                else:
                    i = iconst(x)
                    vs.append(i if i is not None else ('sym', x))
            out.append(slice(*vs) if not any(isinstance(x, tuple) for x in vs) else ('symslice', vs))
        elif type(e) is Ref:
            kd = self.kind(I, st, e)
            if kd in ('list', 'arr', 'set', 'iter') or kd == 'inst':
                c = self.as_content(I, st, e)
                c = I.simp(st, c)
                if type(c) is not CArr:
                    if type(c) is SArr:
                        out.append(('smask', c))
                        continue
                    if type(c) is Dec:
                        out.append(('deccontent', c))
                        continue
                    raise Unsupported('array index')
                if c.items and all(allbool(x) for x in c.items):
                    out.append(('mask', c))
                else:
                    ii = [iconst(x) for x in c.items]
                    if any(x is None for x in ii):
                        raise Unsupported('symbolic fancy index')
                    out.append(ii)
            else:
                raise Unsupported('array index')
        elif e is TRUE or e is FALSE:
            raise Unsupported('bool index')
        else:
            i = iconst(e)
            if i is not None:
                out.append(i)
            elif isnumleaf(e):
                out.append(('sym', e))
            elif type(e) is Const:
                I.do_raise(st, mkexc('IndexError', const('only integers, slices are valid indices')))
            elif type(e) is Dec:
                out.append(('dec', e))
            else:
                raise Unsupported('array index %s' % show(e)[:40])
    return tuple(out)


def allbool(x):
    return all(l is TRUE or l is FALSE or type(l) in (Sym, App) and l.sort == 'bool' for l in leaves(x))


@method
def arr_getitem(self, I, st, l, k):
    content = self.acontent(I, st, l)
    # decisions inside the key are split first
    if type(k) is Tup and any(type(I.simp(st, e)) is Dec for e in k.items):
        return I.per_leaves(st, [I.simp(st, e) for e in k.items], lambda s, *es: self.arr_getitem(I, s, l, tup(es)))
    if type(k) is Dec:
        return I.per_leaf(st, k, lambda s, e: self.arr_getitem(I, s, l, e))
    if is_slice(k) and any(type(I.simp(st, e)) is Dec for e in k.args):
        return I.per_leaves(st, [I.simp(st, e) for e in k.args], lambda s, *es: self.arr_getitem(I, s, l, app('slice', es)))
    if type(k) is Tup and any(is_slice(e) and any(type(I.simp(st, x)) is Dec for x in e.args) for e in k.items):
        for idx, e in enumerate(k.items):
            if is_slice(e) and any(type(I.simp(st, x)) is Dec for x in e.args):
                return I.per_leaves(st, [I.simp(st, x) for x in e.args], lambda s, *es: self.arr_getitem(
                    I, s, l, tup(k.items[:idx] + (app('slice', es),) + k.items[idx + 1:])))

    def go(s, c):
        if type(c) is Unk:
            return unk('element of unknown array')
        key = self.index_key(I, s, k)
        if type(c) is SArr:
            return self.sarr_getitem(I, s, l, c, key)
        return self.carr_getitem(I, s, l, c, key)
    return I.per_leaf(st, content, go)


@method
def carr_getitem(self, I, st, l, c, key):
    for j, e in enumerate(key):
        if isinstance(e, tuple) and e[0] == 'deccontent':
            def sub(s, cc):
                if type(cc) is not CArr:
                    raise Unsupported('array index')
                return self.carr_getitem(I, s, l, c, key[:j] + (('mask', cc) if cc.items and all(allbool(x) for x in cc.items) else [iconst(x) for x in cc.items],) + key[j + 1:])
            return I.per_leaf(st, e[1], sub)
    if len(key) == 1 and isinstance(key[0], tuple) and key[0][0] == 'mask':
        return self.mask_get(I, st, c, key[0][1])
    if any(isinstance(e, tuple) and e[0] == 'mask' for e in key):
        ne = []
        for ax, e in enumerate(key):
            if isinstance(e, tuple) and e[0] == 'mask':
                if not all(x in (TRUE, FALSE) for x in e[1].items):
                    raise Unsupported('symbolic mask with axes')
                ne.append([i for i, x in enumerate(e[1].items) if x is TRUE])
            else:
                ne.append(e)
        key = tuple(ne)
    for j, e in enumerate(key):
        if isinstance(e, tuple) and e[0] == 'symslice':
            n = c.shape[j]
            alts = split_slice(self, I, st, app('slice', [NONE if x is None else (x[1] if isinstance(x, tuple) else num(x)) for x in e[1]]), n)
            return I.branch(st, [(cc, lambda s, sl=sl: self.carr_getitem(I, s, l, c, key[:j] + (sl,) + key[j + 1:])) for cc, sl in alts])
        if isinstance(e, tuple) and e[0] == 'sym':
            ax = len([x for x in key[:j] if x is not None])
            n = c.shape[ax]
            kk = e[1]
            I.raise_if(st, bor(cmpnum('GtE', kk, num(n)), cmpnum('Lt', kk, num(-n))), mkexc('IndexError', const('index out of bounds')))
            if not n:
                raise Dead()
            alts = [(bor(cmpnum('Eq', kk, num(i)), cmpnum('Eq', kk, num(i - n))), i) for i in range(n)]
            return I.branch(st, [(cc, lambda s, i=i: self.carr_getitem(I, s, l, c, key[:j] + (i,) + key[j + 1:])) for cc, i in alts])
    fancy = any(isinstance(e, list) for e in key)
    try:
        if sum(1 for e in key if isinstance(e, list)) > 1:
            return self.fancy_get(I, st, c, key)
        shape, pos = carr_index(c, key)
    except IndexError:
        I.do_raise(st, mkexc('IndexError', const('index out of bounds')))
    if shape == ():
        return c.items[pos[0]]
    out = carr(shape, [c.items[p] for p in pos])
    if fancy:
        return I.newarr(st, out)
    return self.newview(I, st, l, out, tuple(pos), shape)


@method
def fancy_get(self, I, st, c, key):
    n = max(len(e) for e in key if isinstance(e, list))
    items = []
    for i in range(n):
        kk = tuple((e[i] if len(e) > 1 else e[0]) if isinstance(e, list) else e for e in key)
        s, p = carr_index(c, kk)
        if s != ():
            raise Unsupported('fancy index')
        items.append(c.items[p[0]])
    return I.newarr(st, carr((n,), items))


@method
def mask_get(self, I, st, c, mask):
    if mask.shape != c.shape:
        if len(mask.shape) == 1 and mask.shape[0] == c.shape[0] and all(x in (TRUE, FALSE) for x in mask.items):
            shape, pos = carr_index(c, ([i for i, x in enumerate(mask.items) if x is TRUE],))
            return I.newarr(st, carr(shape, [c.items[p] for p in pos]))
        if len(mask.shape) == 1 and mask.shape[0] == c.shape[0]:
            pass
        else:
            I.do_raise(st, mkexc('IndexError', const('boolean index did not match')))
    if all(x in (TRUE, FALSE) for x in mask.items):
        it = [x for x, m in zip(c.items, mask.items) if m is TRUE]
        return I.newarr(st, carr((len(it),), it))
    if len(mask.items) <= 6:
        # split into the concrete selections
        def go(s, i, chosen):
            if i == len(mask.items):
                step = len(c.items) // max(len(mask.items), 1)
                it = []
                for j in chosen:
                    it.extend(c.items[j * step:(j + 1) * step])
                if mask.shape == c.shape:
                    return self._masked(I, s, carr((len(it),), it), mask, c)
                return I.newarr(s, carr((len(chosen),) + c.shape[1:], it))
            m = I.simp(s, mask.items[i])
            if m is TRUE:
                return go(s, i + 1, chosen + [i])
            if m is FALSE:
                return go(s, i + 1, chosen)
            return I.branch(s, [(m, lambda q: go(q, i + 1, chosen + [i])), (bnot(m), lambda q: go(q, i + 1, chosen))])
        if mask.shape == c.shape:
            r = I.newarr(st, app('masked', (mask, c), 'any'))
            return r
        return go(st, 0, [])
    return I.newarr(st, app('masked', (mask, c), 'any'))


@method
def _masked(self, I, st, content, mask, c):
    return I.newarr(st, content)


def expand_masked(a):
    """masked(mask, c) content -> diagram of compressed CArr"""
    mask, c = a.args

    def go(i, acc):
        if i == len(mask.items):
            return carr((len(acc),), acc)
        m = mask.items[i]
        y = go(i + 1, acc + [c.items[i]]) if m is not FALSE else None
        n = go(i + 1, acc) if m is not TRUE else None
        if y is None:
            return n
        if n is None:
            return y
        return ite(m, y, n)
    if len(mask.items) > 8:
        return unk('boolean selection')
    return go(0, [])


@method
def sarr_getitem(self, I, st, l, c, key):
    if len(key) > c.ndim + sum(1 for k in key if k is None or k is Ellipsis):
        I.do_raise(st, mkexc('IndexError', const('too many indices')))
    if any(k is None for k in key):
        raise Unsupported('newaxis on symbolic array')
    if key and key[0] is Ellipsis:
        key = (slice(None),) * (c.ndim - len(key) + 1) + key[1:]
    if key and key[-1] is Ellipsis:
        key = key[:-1]
    row = key[0]
    cols = list(range(len(c.cols)))
    scalar_col = c.ndim == 1
    if c.ndim == 2 and len(key) == 2:
        k1 = key[1]
        if isinstance(k1, int):
            if k1 < -len(cols) or k1 >= len(cols):
                I.do_raise(st, mkexc('IndexError', const('index out of bounds')))
            cols = [cols[k1]]
            scalar_col = True
        elif isinstance(k1, slice):
            cols = cols[k1]
        elif isinstance(k1, list):
            cols = [cols[x] for x in k1]
        elif k1 is Ellipsis:
            pass
        else:
            raise Unsupported('column index')
    bodies = [c.cols[j] for j in cols]
    n = c.n
    if isinstance(row, int) or isinstance(row, tuple) and row[0] == 'sym':
        i = num(row) if isinstance(row, int) else row[1]
        if not is_int_num(i) and not isinstance(row, int):
            pass
        I.raise_if(st, bor(cmpnum('GtE', i, n), cmpnum('Lt', vadd(i, n), ZERO)), mkexc('IndexError', const('index out of bounds')))
        idx = I.simp(st, ite(cmpnum('Lt', i, ZERO), vadd(i, n), i))
        vals = [subst(b, {I0: idx}) if type(idx) is not Dec else mapn(lambda q, b=b: subst(b, {I0: q}), (idx,)) for b in bodies]
        if scalar_col:
            return vals[0]
        return self.newview(I, st, l, carr((len(vals),), vals), None, None)
    if isinstance(row, slice) or isinstance(row, tuple) and row[0] == 'symslice':
        if isinstance(row, slice):
            a, b, step = row.start, row.stop, row.step
        else:
            a, b, step = row[1]
        lift = lambda x, d: d if x is None else (num(x) if isinstance(x, int) else x[1])
        if step not in (None, 1):
            raise Unsupported('strided symbolic slice')
        if a is None and b is None:
            return self.newview(I, st, l, sarr(n, bodies, 1 if scalar_col else 2), None, None)
        av, bv = lift(a, ZERO), lift(b, None)
        return self.sarr_slice(I, st, l, n, bodies, av, bv, scalar_col)
    raise Unsupported('index of symbolic array')


@method
def sarr_slice(self, I, st, l, n, bodies, a, b, scalar_col):
    nd = 1 if scalar_col else 2

    def mk(s, start, length):
        k = iconst(length)
        if k is not None:
            k = max(k, 0)
            items = []
            for j in range(k):
                for bd in bodies:
                    items.append(subst(bd, {I0: vadd(start, num(j))}))
            cont = carr((k,) if scalar_col else (k, len(bodies)), items)
        else:
            cont = sarr(length, [subst(bd, {I0: vadd(start, anum(I0))}) for bd in bodies], nd)
        return self.newview(I, s, l, cont, None, None)

    def clip(x):
        """normalise an index into [0, n]"""
        x = ite(cmpnum('Lt', x, ZERO), vadd(x, n), x)
        x = ite(cmpnum('Lt', x, ZERO), ZERO, x)
        return ite(cmpnum('Gt', x, n), n, x)
    d = iconst(vsub(b, a)) if b is not None else None
    if d == 0:
        # same start and stop: empty whatever the clipping does
        return mk(st, a, ZERO)
    if d is not None and d >= 0:
        lo, hi = T.pinterval(a.p) if type(a) is Num else (None, None)
        if lo is not None and lo[0] >= 0:
            # rows a .. a+d, shortened by the end of the array
            room = vsub(n, a)
            alts = [(cmpnum('GtE', room, num(d)), d)] + [(cmpnum('Eq', room, num(j)), j) for j in range(d - 1, 0, -1)]
            if d > 0:
                alts.append((cmpnum('LtE', room, ZERO), 0))
            # room is an integer, so these alternatives are exhaustive
            return I.branch(st, [(c, lambda s, j=j: mk(s, a, num(j))) for c, j in alts])
    start = I.simp(st, clip(a))
    stop = I.simp(st, clip(b) if b is not None else n)

    def go(s, x, y):
        length = vsub(y, x)
        neg = cmpnum('LtE', length, ZERO)
        return I.branch(s, [(neg, lambda q: mk(q, x, ZERO)), (bnot(neg), lambda q: mk(q, x, length))])
    return I.per_leaves(st, [start, stop], go)


@method
def arr_setitem(self, I, st, l, k, v):
    content = self.acontent(I, st, l)
    val = self.as_content(I, st, v)

    def go(s, c):
        if type(c) is Unk:
            return NONE
        key = self.index_key(I, s, k) if type(k) is not Dec else None
        if key is None:
            return I.per_leaf(s, k, lambda q, e: self.arr_setitem(I, q, l, e, v) or NONE)
        if type(c) is SArr:
            return self.sarr_setitem(I, s, l, c, key, val)
        if len(key) == 1 and isinstance(key[0], tuple) and key[0][0] == 'deccontent':
            # mask computed as a decision between masks
            def subm(q, mc):
                return self.mask_set(I, q, l, c, mc, val)
            return I.per_leaf(s, key[0][1], subm)
        if len(key) == 1 and isinstance(key[0], tuple) and key[0][0] == 'mask':
            return self.mask_set(I, s, l, c, key[0][1], val)
        for j, e in enumerate(key):
            if isinstance(e, tuple) and e[0] in ('sym', 'symslice'):
                ax = len([x for x in key[:j] if x is not None])
                n = c.shape[ax]
                if e[0] == 'sym':
                    kk = e[1]
                    I.raise_if(s, bor(cmpnum('GtE', kk, num(n)), cmpnum('Lt', kk, num(-n))), mkexc('IndexError', const('index out of bounds')))
                    alts = [(bor(cmpnum('Eq', kk, num(i)), cmpnum('Eq', kk, num(i - n))), num(i)) for i in range(n)]
                else:
                    alts = [(cc, app('slice', [NONE if x is None else num(x) for x in (sl.start, sl.stop, sl.step)])) for cc, sl in
                            split_slice(self, I, s, app('slice', [NONE if x is None else (x[1] if isinstance(x, tuple) else num(x)) for x in e[1]]), n)]
                ks = list(k.items) if type(k) is Tup else [k]

                def rec(q, i):
                    self.arr_setitem(I, q, l, tup(ks[:j] + [i] + ks[j + 1:]), v)
                    return NONE
                return I.branch(s, [(cc, lambda q, i=i: rec(q, i)) for cc, i in alts])
        try:
            shape, pos = carr_index(c, key)
        except IndexError:
            I.do_raise(s, mkexc('IndexError', const('index out of bounds')))

        def store(q, w):
            items = list(c.items)
            if type(w) is CArr:
                bs = bshape(shape, w.shape)
                if bs is None or (bs != shape and len(w.items) != len(pos)):
                    I.do_raise(q, mkexc('ValueError', const('could not broadcast')))
                if bs != shape:
                    vals = list(w.items)
                else:
                    vals = [bget(w, shape, idx) for idx in positions(shape)] if shape != () else [w.items[0]]
                for p, x in zip(pos, vals):
                    items[p] = x
            elif type(w) in (SArr, Unk):
                for p in pos:
                    items[p] = unk('array store')
            else:
                for p in pos:
                    items[p] = w
            self.awrite(I, q, l, carr(c.shape, items))
            return NONE
        if type(val) is Dec and any(type(x) in (CArr, SArr) for x in leaves(val)):
            return I.per_leaf(s, val, store)
        return store(s, val)
    I.per_leaf(st, content, go)


@method
def mask_set(self, I, st, l, c, mask, val):
    if mask.shape != c.shape:
        if len(mask.shape) == 1 and mask.shape[0] == c.shape[0]:
            step = len(c.items) // max(mask.shape[0], 1)
            mask = carr(c.shape, [m for m in mask.items for _ in range(step)])
        else:
            I.do_raise(st, mkexc('IndexError', const('boolean index did not match')))

    def one(s, w):
        if type(w) is App and w.fn == 'masked':
            m2, src = w.args
            if m2 is mask and src.shape == c.shape:
                self.awrite(I, s, l, carr(c.shape, [ite(m, x, o) for m, x, o in zip(mask.items, src.items, c.items)]))
                return NONE
            w = expand_masked(w)
            if type(w) is Dec:
                return I.per_leaf(s, w, one)
        if type(w) is CArr and len(w.items) != 1:
            # compressed values in order
            def go(q, i, taken, items):
                if i == len(mask.items):
                    if taken != len(w.items):
                        I.do_raise(q, mkexc('ValueError', const('cannot assign')))
                    self.awrite(I, q, l, carr(c.shape, items))
                    return NONE
                m = I.simp(q, mask.items[i])
                alts = []
                if m is not FALSE:
                    alts.append((m, lambda z: go(z, i + 1, taken + 1, items + [w.items[taken]]) if taken < len(w.items) else I.do_raise(z, mkexc('ValueError', const('cannot assign')))))
                if m is not TRUE:
                    alts.append((bnot(m), lambda z: go(z, i + 1, taken, items + [c.items[i]])))
                return I.branch(q, alts)
            return go(s, 0, 0, [])
        x = w.items[0] if type(w) is CArr else w
        if type(w) in (SArr, Unk):
            x = unk('masked store')
        self.awrite(I, s, l, carr(c.shape, [ite(mapn(T._leaf_truth, (m,)), x, o) for m, o in zip(mask.items, c.items)]))
        return NONE
    if type(val) is Dec and any(type(x) in (CArr, SArr) for x in leaves(val)):
        return I.per_leaf(st, val, one)
    return one(st, val)


@method
def sarr_setitem(self, I, st, l, c, key, val):
    def fail():
        self.awrite(I, st, l, unk('store into symbolic array'))
        return NONE
    if len(key) == 1 and isinstance(key[0], tuple) and key[0][0] == 'smask':
        m = key[0][1]
        if m.n is c.n and len(m.cols) == len(c.cols) and type(val) not in (CArr, SArr):
            self.awrite(I, st, l, sarr(c.n, [ite(mapn(T._leaf_truth, (a,)), val, b) for a, b in zip(m.cols, c.cols)], c.ndim))
            return NONE
        return fail()
    row = key[0]
    cols = list(range(len(c.cols)))
    if len(key) == 2 and c.ndim == 2:
        if isinstance(key[1], int):
            cols = [cols[key[1]]]
            one = True
        elif isinstance(key[1], slice):
            cols = cols[key[1]]
            one = False
        elif isinstance(key[1], list):
            cols = [cols[j] for j in key[1]]
            one = False
        else:
            return fail()
    else:
        one = c.ndim == 1
    if isinstance(row, slice) and row == slice(None):
        new = list(c.cols)
        if type(val) is SArr:
            if val.n is not c.n or (len(val.cols) != len(cols) and len(val.cols) != 1):
                return fail()
            for i, j in enumerate(cols):
                new[j] = val.cols[i] if len(val.cols) > 1 else val.cols[0]
        elif type(val) is CArr:
            if len(val.items) not in (1, len(cols)):
                return fail()
            for i, j in enumerate(cols):
                new[j] = val.items[i] if len(val.items) > 1 else val.items[0]
        else:
            for j in cols:
                new[j] = val
        self.awrite(I, st, l, sarr(c.n, new, c.ndim))
        return NONE
    if isinstance(row, int) or isinstance(row, tuple) and row[0] == 'sym':
        i = num(row) if isinstance(row, int) else row[1]
        I.raise_if(st, bor(cmpnum('GtE', i, c.n), cmpnum('Lt', vadd(i, c.n), ZERO)), mkexc('IndexError', const('index out of bounds')))
        i = ite(cmpnum('Lt', i, ZERO), vadd(i, c.n), i)
        if type(val) is SArr:
            return fail()
        hit = cmpnum('Eq', anum(I0), i)
        new = list(c.cols)
        for q, j in enumerate(cols):
            x = val if type(val) is not CArr else (val.items[q] if len(val.items) > 1 else val.items[0])
            new[j] = ite(hit, x, new[j])
        self.awrite(I, st, l, sarr(c.n, new, c.ndim))
        return NONE
    return fail()


@method
def arr_rows(self, I, st, data):
    def f(c):
        if type(c) is App and c.fn == 'masked':
            return mapn(f, (expand_masked(c),))
        if type(c) is not CArr:
            return unk('iteration over array of symbolic length')
        if c.shape == ():
            return unk('iteration over 0-d array')
        if len(c.shape) == 1:
            return tup(c.items)
        n = c.shape[0]
        w = len(c.items) // n if n else 0
        return tup(I.newarr(st, carr(c.shape[1:], c.items[i * w:(i + 1) * w])) for i in range(n))
    return mapn(f, (data,))


def reshape_shape(n, shape):
    shape = list(shape)
    if -1 in shape:
        k = 1
        for s in shape:
            if s != -1:
                k *= s
        if k == 0:
            if n != 0:
                return None
            return None if shape.count(-1) > 1 else tuple(0 if s == -1 else s for s in shape)
        if n % k:
            return None
        shape[shape.index(-1)] = n // k
    k = 1
    for s in shape:
        k *= s
    return tuple(shape) if k == n else None


@method
def arr_reshape(self, I, st, l, args):
    if len(args) == 1 and (type(args[0]) is not Num):
        shp = I.iter_content(args[0], st) if not isnumleaf(args[0]) or type(args[0]) is Dec else tup(args)
    else:
        shp = tup(args)
    content = self.acontent(I, st, l)

    def go(s, c, sh):
        if type(c) is App and c.fn == 'masked':
            return I.per_leaf(s, expand_masked(c), lambda q, cc: go(q, cc, sh))
        dims = [I.simp(s, d) for d in sh.items]
        di = [iconst(d) for d in dims]
        if type(c) is SArr:
            if len(dims) == 1 and (di[0] == -1 or dims[0] is c.n) and (len(c.cols) == 1):
                return self.newview(I, s, l, sarr(c.n, c.cols, 1), None, None)
            if len(dims) == 2 and di[1] == len(c.cols) and (di[0] == -1 or dims[0] is c.n):
                return self.newview(I, s, l, sarr(c.n, c.cols, 2), None, None)
            if len(dims) == 2 and di[1] == -1 and dims[0] is c.n:
                return self.newview(I, s, l, sarr(c.n, c.cols, 2), None, None)
            raise Unsupported('reshape of symbolic array')
        if type(c) is not CArr:
            return unk('reshape')
        if any(d is None for d in di):
            for j, d in enumerate(dims):
                if type(d) is Dec:
                    return I.per_leaf(s, d, lambda q, dd: go(q, c, tup(sh.items[:j] + (dd,) + sh.items[j + 1:])))
            raise Unsupported('symbolic reshape')
        ns = reshape_shape(len(c.items), di)
        if ns is None:
            I.do_raise(s, mkexc('ValueError', const('cannot reshape')))
        return self.newview(I, s, l, carr(ns, c.items), tuple(range(len(c.items))), ns)
    return I.per_leaves(st, [content, shp], go)


ARR_METHODS = {'item', 'reshape', 'min', 'max', 'sum', 'mean', 'all', 'any', 'astype', 'copy', 'tolist', 'squeeze', 'flatten', 'ravel', 'round', 'clip',
               'dot', 'fill', 'argmin', 'argmax', 'cumsum', 'prod', 'transpose', 'view', 'std', 'nonzero', 'sort', '__len__', '__getitem__', '__iter__', '__array__', 'repeat', 'take'}


@method
def arr_attr(self, I, st, l, name):
    if name in ARR_METHODS:
        return code('meth', 'arr.' + name, l)
    c = self.acontent(I, st, l)
    if name in ('shape', 'size', 'ndim', 'T', 'dtype', 'values', 'nbytes', 'flat'):
        if name == 'shape':
            def sh(x):
                if type(x) is App and x.fn == 'masked':
                    return mapn(sh, (expand_masked(x),))
                if type(x) is CArr:
                    return tup(num(d) for d in x.shape)
                if type(x) is SArr:
                    return tup([x.n] + ([num(len(x.cols))] if x.ndim == 2 else []))
                return unk('shape')
            return mapn(sh, (c,))
        if name == 'size':
            def sz(x):
                if type(x) is App and x.fn == 'masked':
                    return mapn(sz, (expand_masked(x),))
                if type(x) is CArr:
                    return num(len(x.items))
                if type(x) is SArr:
                    return vmul(x.n, num(len(x.cols) if x.ndim == 2 else 1))
                return unk('size')
            return mapn(sz, (c,))
        if name == 'ndim':
            return mapn(lambda x: num(len(x.shape)) if type(x) is CArr else (num(x.ndim) if type(x) is SArr else unk('ndim')), (c,))
        if name == 'dtype':
            return code('lib', 'numpy.float64')
        if name == 'T':
            def tr(s, x):
                if type(x) is CArr:
                    if len(x.shape) < 2:
                        return l
                    r, q = x.shape
                    pos = tuple(i * q + j for j in range(q) for i in range(r))
                    return self.newview(I, s, l, carr((q, r), [x.items[p] for p in pos]), pos, (q, r))
                if type(x) is SArr and x.ndim == 1:
                    return l
                return I.newarr(s, app('transpose', (x,), 'any'))
            return I.per_leaf(st, c, tr)
        if name == 'values':
            I.do_raise(st, mkexc('AttributeError', const(name)))
        return unk('array attr')
    if name in LIBNAMES['ndarray']:
        raise Unsupported('ndarray.%s is not modelled' % name)
    I.do_raise(st, mkexc('AttributeError', const(name)))
