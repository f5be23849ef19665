"""Library semantics, part 2: builtins, container methods, numpy, copy, inspect, ..."""
import ast
import builtins
import math
from fractions import Fraction
from terms import *
import terms as T
import decide
from interp import HObj, Dead, Unsupported, mkexc, excname, exc_isa, BUILTIN_EXC, State
from program import FuncInfo, ClassInfo
from lib import *
from lib import Lib, method, _mentions, _t
import lib as L

FNS = {}
METHS = {}


def fn(*names):
    def d(f):
        for n in names:
            FNS[n] = f
        return f
    return d


def np_fn(*names):
    return fn(*['numpy.' + n for n in names])


def meth(kind, *names):
    def d(f):
        for n in names:
            METHS[(kind, n)] = f
        return f
    return d


def A(args, kw, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    return kw.get(name, default)


@method
def register(self):
    self.fns = FNS
    self.meths = METHS


# ------------------------------------------------------------------ events / attempts
@method
def event(self, I, st, name, v):
    if self.wanted is not None and name not in self.wanted:
        return
    key = ('ev', name)
    o = st.heap.get(key)
    data = o.data if o else tup(())
    st.put(key, HObj('list', None, mapn(lambda c: tup(c.items + (v,)), (data,))))


@method
def attempt(self, I, st, fnc, names):
    """run fnc(state); -> ([(state, value)] , [(state, exc)]) for exceptions in names; others propagate"""
    col = []
    I.exc.append(col)
    I.tries.append(list(names))
    s = st.copy()
    ok = []
    try:
        try:
            v = fnc(s)
            ok.append((s, v))
        except Dead:
            pass
    finally:
        I.exc.pop()
        I.tries.pop()
    bad = []
    for s2, e, w in col:
        if any(n is None or exc_isa(excname(e) or 'Exception', n) for n in names):
            bad.append((s2, e))
        else:
            I.exc[-1].append((s2, e, w))
    return ok, bad


@method
def join(self, I, st, pairs):
    if not pairs:
        raise Dead()
    s, v = I.merge_vals(pairs)
    st.become(s)
    return v


# ------------------------------------------------------------------ dispatch
NOOP_PREFIX = ('logging.', 'matplotlib.', 'IPython.', 'plotly.', 'warnings.')


@method
def call(self, I, st, path, args, kw):
    f = self.fns.get(path)
    if f is None and path.startswith('builtins.'):
        nm = path[9:]
        if nm in BUILTIN_EXC:
            return mkexc(nm, *args)
        if '.' in nm:
            tn, mn = nm.split('.', 1)
            return self.unbound(I, st, tn, mn, args, kw)
    if f is None and path.startswith('spec.'):
        f = self.spec_names.get(path[5:])
    if f is not None:
        return f(self, I, st, list(args), dict(kw))
    if path.startswith(NOOP_PREFIX):
        return NONE
    self.opaque_log[path] = self.opaque_log.get(path, 0) + 1
    if path.startswith(RANDOM_SOURCES):
        self.event(I, st, 'rng', const(path + ' @ ' + ('%s:%s' % (I.loc()[0], I.loc()[1]) if I.loc() else '')))
    return unk('library call %s' % path)


@method
def unbound(self, I, st, tn, mn, args, kw):
    if tn == 'dict' and mn == 'fromkeys':
        r = I.newdict(st, ())
        dv = A(args, kw, 1, 'value', NONE)

        def go(s, items):
            for x in items:
                self.dict_set(I, s, r, x, dv)
            return NONE
        I.items_of(args[0], st, go)
        return r
    if tn == 'object':
        if mn == '__init__':
            return NONE
        if mn == '__new__':
            return L._object_new(I, st, args, kw)
        return I.call(code('hostfn', 'object.' + mn, L._object_method(self, mn, args[0])), args[1:], kw, st)
    if tn == 'str' and mn == 'maketrans':
        return unk('str')
    return I.call(I.getattr(args[0], mn, st), args[1:], kw, st)


@method
def call_meth(self, I, st, name, ref_, args, kw):
    kind, m = name.split('.', 1)
    if kind == 'arr':
        return self.arr_method(I, st, ref_, m, list(args), dict(kw))
    f = self.meths.get((kind, m))
    if f is not None:
        return f(self, I, st, ref_, list(args), dict(kw))
    if m == '__len__':
        return self.call(I, st, 'builtins.len', [ref_], {})
    if m == '__iter__':
        return self.call(I, st, 'builtins.iter', [ref_], {})
    if m == '__getitem__':
        return I.getitem(ref_, args[0], st)
    if m == '__setitem__':
        I.setitem(ref_, args[0], args[1], st)
        return NONE
    if m == '__contains__':
        return self.contains(I, st, ref_, args[0])
    raise Unsupported('method %s' % name)


@method
def call_opaque(self, I, st, f, args, kw):
    if type(f) is Sym:
        name = 'free:call:' + f.name
        meta = f.meta or {}
    else:
        name, meta = 'free:call', {}
    rargs = [I.reify(a, st) for a in args]
    for k in sorted(kw):
        rargs += [const(k), I.reify(kw[k], st)]
    if type(f) is not Sym:
        rargs = [f] + rargs
    self.event(I, st, 'opaque', tup([const(name)] + rargs))
    sort = meta.get('sort', 'any')
    if 'shape' in meta:
        shp = meta['shape']
        n = 1
        for d in shp:
            n *= d
        items = [mapn(lambda *xs, j=j: anum(app(name, xs + (num(j),), 'num')), rargs) for j in range(n)]
        return I.newarr(st, carr(shp, items))
    r = mapn(lambda *xs: app(name, xs, sort, meta.get('lo'), meta.get('hi')), rargs)
    if sort in ('num', 'int'):
        return mapn(anum, (r,))
    return r


# ------------------------------------------------------------------ content helpers
def is_arr_content(l):
    return type(l) in (CArr, SArr) or type(l) is App and l.fn in ('masked', 'transpose')


def has_arr(c):
    return any(is_arr_content(l) for l in leaves(c))


def wrap(I, st, c):
    """content diagram -> value (scalars stay scalars, 0-d becomes scalar)"""
    def one(s, l):
        if type(l) is CArr and l.shape == ():
            return l.items[0]
        if is_arr_content(l) or type(l) is Unk:
            return I.newarr(s, l) if type(l) is not Unk else l
        return l
    if not has_arr(c):
        return c
    if all(type(l) is CArr and l.shape != () or type(l) is SArr for l in leaves(c)):
        return I.newarr(st, c)
    return I.per_leaf(st, c, one)


def ex(I, st, c):
    """expand masked contents into plain ones"""
    def f(l):
        if type(l) is App and l.fn == 'masked':
            return expand_masked(l)
        return l
    if any(type(l) is App and l.fn == 'masked' for l in leaves(c)):
        return mapn(f, (c,))
    return c


def el(lib, I, st, f, *vs):
    """elementwise numpy function"""
    cs = [ex(I, st, lib.as_content(I, st, v)) for v in vs]
    if not any(has_arr(c) for c in cs):
        return f(*cs)
    try:
        return wrap(I, st, mapn(lambda *xs: ewise(f, *xs) if any(is_arr_content(x) for x in xs) else f(*xs), cs))
    except ShapeError:
        I.do_raise(st, mkexc('ValueError', const('operands could not be broadcast')))


def arr_of(lib, I, st, v):
    return ex(I, st, lib.np_array_content(I, st, v))


def axis_of(v):
    if v is None or v is NONE:
        return None
    i = iconst(v)
    if i is None:
        raise Unsupported('symbolic axis')
    return i


def reduce_(lib, I, st, v, axis, f1, sname, empty=None, keepdims=False):
    c = arr_of(lib, I, st, v)
    ax = axis_of(axis)

    def go(s, l):
        if type(l) is Unk:
            return unk('reduction of unknown')
        if type(l) is SArr:
            if sname is None:
                return unk('reduction of symbolic array')
            r = squant(sname, l, ax) if sname in ('aall', 'aany') else sagg(sname, l, ax)
            return wrap(I, s, r) if is_arr_content(r) else r
        if type(l) is not CArr:
            return unk('reduction')
        if not l.items and empty is None and ax is None:
            I.do_raise(s, mkexc('ValueError', const('zero-size array')))
        g = (lambda xs: f1(xs) if xs else empty)
        r = g(list(l.items)) if ax is None else reduce_axis(l, ax, g)
        if keepdims is TRUE:
            sh = tuple(1 if ax is None or i == ax % len(l.shape) else d for i, d in enumerate(l.shape))
            r = carr(sh, r.items if type(r) is CArr else [r])
        return wrap(I, s, r) if type(r) is CArr else r
    return I.per_leaf(st, c, go)


# ------------------------------------------------------------------ builtins
@fn('builtins.len')
def b_len(lib, I, st, args, kw):
    def go(s, l):
        t = type(l)
        if t in (Tup, ListV):
            return num(len(l.items))
        if t is Const and isinstance(l.v, str):
            return num(len(l.v))
        if t is DictL:
            return num(len(l.pairs))
        if t is Ref:
            o = I.hget(s, l.oid)
            if o.kind in ('list', 'dict', 'set'):
                return mapn(lambda c: num(len(c.items)) if type(c) is Tup else (num(len(c.pairs)) if type(c) is DictL else unk('len')), (o.data,))
            if o.kind == 'arr':
                def n(c):
                    if type(c) is CArr:
                        return num(c.shape[0]) if c.shape else unk('len of 0-d')
                    if type(c) is SArr:
                        return c.n
                    return unk('len')
                return mapn(n, (ex(I, s, lib.acontent(I, s, l)),))
            if o.kind == 'inst':
                if I.class_lookup(o.cls, '__len__'):
                    return I.call_method(l, '__len__', [], s)
                if '__arr__' in o.data:
                    return b_len(lib, I, s, [o.data['__arr__']], {})
            I.do_raise(s, mkexc('TypeError', const('object has no len()')))
        if t is Unk:
            return unk('len')
        if t is App and not l.fn.startswith('exc:') or t is Sym and l.sort in ('any', 'fn'):
            return anum(app('free:len', (l,), 'int', (Fraction(0), False)))
        I.do_raise(s, mkexc('TypeError', const('object has no len()')))
    return I.per_leaf(st, args[0], go)


@fn('builtins.range')
def b_range(lib, I, st, args, kw):
    def go(s, *ls):
        ks = []
        for j, l in enumerate(ls):
            k = iconst(l)
            if k is None:
                if type(l) is Const or l is NONE or type(l) in (Ref, Tup, Inf):
                    I.do_raise(s, mkexc('TypeError', const('range')))
                c = lib.concrete_int(I, s, l) if type(l) in (Num, Sym, App) else None
                if c is None:
                    c = bounded_ints(I, s, l)
                if c is None:
                    raise Unsupported('range over symbolic bound')
                return I.branch(s, [(cc, lambda q, kk=kk: go(q, *(ls[:j] + (num(kk),) + ls[j + 1:]))) for cc, kk in c])
            ks.append(k)
        r = range(*ks)
        if len(r) > 10000:
            raise Unsupported('long range')
        return I.newlist(s, [num(i) for i in r])
    return I.per_leaves(st, args, lambda s, *ls: go(s, *ls))


def bounded_ints(I, st, l, lo=-3, hi=9):
    """possible values of a symbolic integer under the guard, if all lie in [lo, hi]"""
    if not is_int_num(l):
        return None
    if I.feasible(band(st.guard, cmpnum('Lt', l, num(lo)))) or I.feasible(band(st.guard, cmpnum('Gt', l, num(hi)))):
        return None
    return [(cmpnum('Eq', l, num(k)), k) for k in range(lo, hi + 1)]


def seqs(lib, I, st, vs, fnc):
    """items of several iterables jointly"""
    def go(s, done, rest):
        if not rest:
            return fnc(s, *done)
        return I.items_of(rest[0], s, lambda s2, it: go(s2, done + [it], rest[1:]))
    return go(st, [], list(vs))


@fn('builtins.zip')
def b_zip(lib, I, st, args, kw):
    return seqs(lib, I, st, args, lambda s, *its: I.alloc(s, 'iter', tup(tup(x) for x in zip(*its))))


@fn('builtins.enumerate')
def b_enumerate(lib, I, st, args, kw):
    start = A(args, kw, 1, 'start', ZERO)
    return seqs(lib, I, st, args[:1], lambda s, its: I.alloc(s, 'iter', tup(tup((vadd(start, num(i)), x)) for i, x in enumerate(its))))


@fn('builtins.map')
def b_map(lib, I, st, args, kw):
    def go(s, *its):
        r = I.newlist(s, ())
        for xs in zip(*its):
            lib.list_append(I, s, r, I.call(args[0], list(xs), {}, s))
        s.put(r.oid, HObj('iter', None, I.hget(s, r.oid).data))
        return r
    return seqs(lib, I, st, args[1:], go)


@fn('builtins.filter')
def b_filter(lib, I, st, args, kw):
    def go(s, its):
        r = I.newlist(s, ())
        for x in its:
            c = I.truth(x if args[0] is NONE else I.call(args[0], [x], {}, s), s)
            I.fork(s, c, lambda q: lib.list_append(I, q, r, x), lambda q: None)
        s.put(r.oid, HObj('iter', None, I.hget(s, r.oid).data))
        return r
    return seqs(lib, I, st, args[1:], go)


@fn('builtins.sum')
def b_sum(lib, I, st, args, kw):
    start = A(args, kw, 1, 'start', ZERO)

    def go(s, its):
        acc = start
        for x in its:
            acc = lib.binop(I, s, 'Add', acc, x)
        return acc
    if arrlike(lib, I, st, args[0]):
        return reduce_(lib, I, st, args[0], ZERO, lambda xs: fold(vadd, xs, ZERO), 'asum', ZERO)
    return seqs(lib, I, st, args[:1], go)


def arrlike(lib, I, st, v):
    return type(v) is Ref and I.hget(st, v.oid).kind == 'arr' and any(type(l) is SArr for l in leaves(lib.acontent(I, st, v)))


def minmax(name):
    def f(lib, I, st, args, kw):
        key = kw.get('key')
        if len(args) == 1:
            if arrlike(lib, I, st, args[0]):
                return reduce_(lib, I, st, args[0], None, lambda xs: fold(vmin if name == 'min' else vmax, xs), 'a' + name)

            def go(s, its):
                if not its:
                    if 'default' in kw:
                        return kw['default']
                    I.do_raise(s, mkexc('ValueError', const('empty sequence')))
                return best(s, its)
        else:
            def go(s, its):
                return best(s, its)

        def best(s, its):
            acc = its[0]
            ka = acc if key is None else I.call(key, [acc], {}, s)
            for x in its[1:]:
                kx = x if key is None else I.call(key, [x], {}, s)
                c = I.truth(lib.cmpop(I, s, 'Lt' if name == 'min' else 'Gt', kx, ka), s)
                acc, ka = ite(c, x, acc), ite(c, kx, ka)
            return acc
        if len(args) == 1:
            return I.items_of(args[0], st, go)
        return go(st, list(args))
    return f


FNS['builtins.min'] = minmax('min')
FNS['builtins.max'] = minmax('max')


@fn('builtins.abs', 'math.fabs')
def b_abs(lib, I, st, args, kw):
    v = args[0]

    def go(s, l):
        if type(l) is Ref and I.hget(s, l.oid).kind == 'inst' and I.class_lookup(I.hget(s, l.oid).cls, '__abs__'):
            return I.call_method(l, '__abs__', [], s)
        return el(lib, I, s, vabs, l)
    if allnum(v):
        return vabs(v)
    return I.per_leaf(st, v, go)


def unit_round(l):
    """round(l): decided exactly on [0, 1], opaque elsewhere"""
    def f(x):
        if type(x) in (Inf, Nan, Unk):
            return x
        x = tonum(x)
        if is_int_num(x):
            return x
        c = nconst(x)
        if c is not None:
            return num(round(c))
        inu = band(cmpnum('GtE', x, ZERO), cmpnum('LtE', x, ONE))
        if inu is FALSE:
            return vround(x)
        return ite(inu, round_unit(x), vround(x))
    return mapn(f, (l,))


def round_digits(l, nd):
    if iconst(l) is not None:
        return l
    c, d = nconst(l), iconst(nd) if not isinstance(nd, int) else nd
    if c is not None and d is not None:
        return num(Fraction(str(round(float(c), d))))
    return anum(app('round_digits', (l, nd), 'num'))


def _conc_round_digits(x, nd):
    if isinstance(x, Fraction) and nd == int(nd):
        return Fraction(round(x, int(nd)))
    raise TypeError


decide.CONC['round_digits'] = _conc_round_digits


def parsed(l):
    """a number read back by a parser that may miss the last digit"""
    if not isnumleaf(l) or nconst(l) is not None or type(l) in (Nan, Inf, Unk) or is_int_num(tonum(l)):
        return l
    return anum(app('parsed', (l,), 'num'))


def _conc_parsed(x):
    if isinstance(x, Fraction):
        return x if x.denominator == 1 else x * (1 + Fraction(1, 2 ** 52))
    raise TypeError


decide.CONC['parsed'] = _conc_parsed


@fn('numpy.inexactly_parsed')
def b_parsed(lib, I, st, args, kw):
    return el(lib, I, st, lambda x: mapn(parsed, (x,)), args[0])


@fn('builtins.round')
def b_round(lib, I, st, args, kw):
    nd = A(args, kw, 1, 'ndigits', NONE)
    if nd is NONE:
        return el(lib, I, st, unit_round, args[0])
    return el(lib, I, st, lambda x: mapn(lambda l: round_digits(l, nd), (x,)), args[0])


@fn('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.int')
def b_int(lib, I, st, args, kw):
    if not args:
        return ZERO

    def f(s, l):
        if l is TRUE:
            return ONE
        if l is FALSE:
            return ZERO
        if isnumleaf(l):
            if type(l) in (Nan, Inf):
                I.do_raise(s, mkexc('ValueError', const('cannot convert')))
            if type(l) is Unk:
                return l
            l = tonum(l)
            if is_int_num(l):
                return l
            # truncation
            return ite(cmpnum('Lt', l, ZERO), vneg(vfloor(vneg(l))), vfloor(l))
        if type(l) is Const and isinstance(l.v, str):
            try:
                return num(int(l.v))
            except ValueError:
                I.do_raise(s, mkexc('ValueError', const('invalid literal')))
        if type(l) is Ref and lib.kind(I, s, l) in ('arr',):
            return b_int(lib, I, s, [lib.arr_method(I, s, l, 'item', [], {})], {})
        if type(l) in (Unk, App, Sym):
            return anum(app('int', (l,), 'int'))
        I.do_raise(s, mkexc('TypeError', const('int() argument')))
    return I.per_leaf(st, args[0], f)


@fn('builtins.float', 'numpy.float64', 'numpy.float32', 'numpy.float')
def b_float(lib, I, st, args, kw):
    if not args:
        return ZERO

    def f(s, l):
        if l is TRUE:
            return ONE
        if l is FALSE:
            return ZERO
        if isnumleaf(l):
            return tonum(l)
        if type(l) is Const and isinstance(l.v, str):
            try:
                return num(float(l.v))
            except ValueError:
                I.do_raise(s, mkexc('ValueError', const('could not convert string to float')))
        if type(l) is Ref and lib.kind(I, s, l) == 'arr':
            return lib.arr_method(I, s, l, 'item', [], {})
        if type(l) is Ref and lib.kind(I, s, l) == 'inst' and '__arr__' in I.hget(s, l.oid).data:
            return lib.arr_method(I, s, I.hget(s, l.oid).data['__arr__'], 'item', [], {})
        if type(l) is Ref and lib.kind(I, s, l) == 'inst' and I.class_lookup(I.hget(s, l.oid).cls, '__float__'):
            return I.call_method(l, '__float__', [], s)
        if type(l) in (Unk, App, Sym):
            return anum(app('float', (l,), 'num'))
        I.do_raise(s, mkexc('TypeError', const('float() argument')))
    if allnum(args[0]):
        return mapn(tonum, (args[0],))
    return I.per_leaf(st, args[0], f)


@fn('builtins.bool', 'numpy.bool_')
def b_bool(lib, I, st, args, kw):
    return I.truth(args[0], st) if args else FALSE


@fn('builtins.str', 'builtins.repr', 'builtins.format', 'builtins.ascii')
def b_str(lib, I, st, args, kw):
    return lib.to_str(I, st, args[0], own=True) if args else const('')


@fn('builtins.list')
def b_list(lib, I, st, args, kw):
    if not args:
        return I.newlist(st, ())
    c = I.iter_content(args[0], st)
    return I.alloc(st, 'list', c)


@fn('builtins.tuple')
def b_tuple(lib, I, st, args, kw):
    if not args:
        return tup(())
    return I.iter_content(args[0], st)


@fn('builtins.dict', 'collections.OrderedDict')
def b_dict(lib, I, st, args, kw):
    r = I.newdict(st, ())
    if args:
        lib.dict_update(I, st, r, args[0])
    for k, v in kw.items():
        lib.dict_set(I, st, r, const(k), v)
    return r


@fn('builtins.set', 'builtins.frozenset')
def b_set(lib, I, st, args, kw):
    r = I.alloc(st, 'set', dictl(()))
    if args:
        def go(s, its):
            for x in its:
                lib.dict_set(I, s, r, x, NONE)
            return NONE
        I.items_of(args[0], st, go)
    return r


def sort_items(lib, I, st, its, key, rev, fin):
    """stable sort; fin(st, items) receives every ordering"""
    ks = [x if key is None or key is NONE else I.call(key, [x], {}, st) for x in its]
    if all(type(k) is Const and isinstance(k.v, str) for k in ks) or all(nconst(k) is not None for k in ks):
        kv = [k.v if type(k) is Const else nconst(k) for k in ks]
        order = sorted(range(len(its)), key=lambda i: kv[i], reverse=rev)
        return fin(st, [its[i] for i in order])

    def insert(s, done, i):
        if i == len(its):
            return fin(s, [its[j] for j in done])

        def place(s2, pos):
            if pos == 0:
                return insert(s2, [i] + done, i + 1)
            p = done[pos - 1]
            # strictly before p?
            if rev:
                c = lib.cmpop(I, s2, 'Lt', ks[p], ks[i])
            else:
                c = lib.cmpop(I, s2, 'Lt', ks[i], ks[p])
            c = I.simp(s2, I.truth(c, s2))
            if c is TRUE:
                return place(s2, pos - 1)
            if c is FALSE:
                return insert(s2, done[:pos] + [i] + done[pos:], i + 1)
            return I.branch(s2, [(c, lambda q: place(q, pos - 1)), (bnot(c), lambda q: insert(q, done[:pos] + [i] + done[pos:], i + 1))])
        return place(s, len(done))
    return insert(st, [], 0)


@fn('builtins.sorted')
def b_sorted(lib, I, st, args, kw):
    key = kw.get('key')
    rv = kw.get('reverse', FALSE)
    if rv not in (TRUE, FALSE) and iconst(rv) is None:
        raise Unsupported('symbolic reverse')
    rev = rv is TRUE or iconst(rv) == 1
    r = I.newlist(st, ())

    def fin(s, its):
        s.put(r.oid, HObj('list', None, tup(its)))
        return NONE
    I.items_of(args[0], st, lambda s, its: sort_items(lib, I, s, its, key, rev, fin))
    return r


@fn('builtins.reversed')
def b_reversed(lib, I, st, args, kw):
    return I.items_of(args[0], st, lambda s, its: I.alloc(s, 'iter', tup(reversed(its))))


@fn('builtins.any')
def b_any(lib, I, st, args, kw):
    if arrlike(lib, I, st, args[0]):
        return reduce_(lib, I, st, args[0], None, bany, 'aany', FALSE)

    def go(s, its):
        r = FALSE
        for x in its:
            r = bor(r, I.truth(x, s))
            if r is TRUE:
                break
        return r
    return I.items_of(args[0], st, go)


@fn('builtins.all')
def b_all(lib, I, st, args, kw):
    if arrlike(lib, I, st, args[0]):
        return reduce_(lib, I, st, args[0], None, ball, 'aall', TRUE)

    def go(s, its):
        r = TRUE
        for x in its:
            r = band(r, I.truth(x, s))
            if r is FALSE:
                break
        return r
    return I.items_of(args[0], st, go)


# ---- types
SUBTYPES = {
    'builtins.bool': ['builtins.int'],
    'collections.OrderedDict': ['builtins.dict'],
}
KIND_TYPE = {'list': 'builtins.list', 'dict': 'builtins.dict', 'set': 'builtins.set', 'arr': 'numpy.ndarray', 'iter': 'builtins.generator'}
ABSTRACT = {
    'collections.abc.Iterable': ('list', 'dict', 'set', 'arr', 'iter', 'tuple', 'str'),
    'collections.abc.Sequence': ('list', 'tuple', 'str'),
    'collections.abc.Mapping': ('dict',),
    'typing.Iterable': ('list', 'dict', 'set', 'arr', 'iter', 'tuple', 'str'),
    'collections.abc.Callable': (),
}


def isinst(lib, I, st, l, c):
    """leaf value l, leaf class c -> boolean diagram"""
    t = type(l)
    if type(c) is Tup:
        r = FALSE
        for x in c.items:
            r = bor(r, isinst(lib, I, st, l, x))
        return r
    if type(c) is Ref and lib.kind(I, st, c) in ('list',):
        I.do_raise(st, mkexc('TypeError', const('isinstance arg 2')))
    if t is Unk or type(c) is Unk:
        return T._leaf_truth(unk('isinstance'))
    if type(c) is not Code:
        return T._leaf_truth(unk('isinstance'))
    if c.kind == 'class':
        ci = c.a[0]
        if t is Ref:
            o = I.hget(st, l.oid)
            if o.kind == 'inst':
                return const(ci in o.cls.mro)
            return FALSE
        if t in (App, Sym) and getattr(l, 'sort', None) == 'any' and not (t is App and l.fn.startswith('exc:')):
            return case(bool_atom(app('free:isinstance', (l, const(ci.name)), 'bool')), (TRUE, FALSE))
        return FALSE
    if c.kind == 'lib':
        p = c.a[0]
        if p in ('builtins.object', 'typing.Any'):
            return TRUE
        if t is App and l.fn == 'slice' or p == 'builtins.slice':
            return const(t is App and l.fn == 'slice' and p == 'builtins.slice')
        if t is Ref:
            o = I.hget(st, l.oid)
            if o.kind == 'inst':
                bases = o.cls.libbases_all()
                if p in ('collections.abc.Iterable', 'typing.Iterable'):
                    return const(bool(I.class_lookup(o.cls, '__iter__')) or '__arr__' in o.data)
                if p in ('collections.abc.Mapping',):
                    return const(any(k.name in ('UserDict',) for k in o.cls.mro))
                if p in ('collections.abc.Callable', 'typing.Callable'):
                    return const(bool(I.class_lookup(o.cls, '__call__')))
                return const(p in bases)
            if p in ABSTRACT:
                return const(o.kind in ABSTRACT[p])
            return const(KIND_TYPE.get(o.kind) == p)
        if t is App and l.fn.startswith('exc:'):
            return const(p.startswith('builtins.') and exc_isa(l.fn[4:], p[9:]))
        if l is TRUE or l is FALSE or t in (Sym, App) and l.sort == 'bool':
            return const(p in ('builtins.bool', 'builtins.int', 'numpy.bool_', 'numbers.Number', 'numbers.Integral', 'numbers.Real'))
        if isnumleaf(l):
            isint = is_int_num(tonum(l)) if t not in (Inf, Nan) else False
            if p in ('builtins.int', 'numpy.integer', 'numbers.Integral', 'numpy.int64'):
                return const(isint and (p != 'numpy.integer' and p != 'numpy.int64'))
            if p in ('builtins.float', 'numbers.Number', 'numbers.Real'):
                return const(not isint or p != 'builtins.float')
            if p in ('numpy.floating', 'numpy.float64', 'numpy.number', 'numpy.generic'):
                return FALSE
            return FALSE
        if t in (Tup, ListV):
            return const(p == 'builtins.tuple' or 'tuple' in ABSTRACT.get(p, ()))
        if t is Const and isinstance(l.v, str):
            return const(p == 'builtins.str' or 'str' in ABSTRACT.get(p, ()))
        if t is App and l.fn in ('concat', 'str', 'fmt', 'format'):
            return const(p == 'builtins.str')
        if l is NONE:
            return const(p == 'builtins.NoneType')
        if t is Code:
            if p in ('builtins.type',):
                return const(l.kind == 'class' or l.kind == 'lib' and l.a[0].startswith('builtins.'))
            if p in ('collections.abc.Callable', 'typing.Callable', 'types.FunctionType'):
                return const(l.kind in ('func', 'closure', 'bound', 'hostfn', 'partial', 'class'))
            if p == 'builtins.property':
                return const(l.kind == 'property')
            return FALSE
        if t in (App, Sym):
            return case(bool_atom(app('free:isinstance', (l, const(p)), 'bool')), (TRUE, FALSE))
        return FALSE
    return T._leaf_truth(unk('isinstance'))


@fn('builtins.isinstance')
def b_isinstance(lib, I, st, args, kw):
    return I.per_leaves(st, [args[0], args[1]], lambda s, l, c: isinst(lib, I, s, l, c))


@fn('builtins.issubclass')
def b_issubclass(lib, I, st, args, kw):
    def go(s, a, b):
        if type(b) is Tup:
            r = FALSE
            for x in b.items:
                r = bor(r, go(s, a, x))
            return r
        if type(a) is Code and a.kind == 'class' and type(b) is Code:
            if b.kind == 'class':
                return const(b.a[0] in a.a[0].mro)
            return const(b.a[0] in a.a[0].libbases_all() or b.a[0] == 'builtins.object')
        if type(a) is Code and type(b) is Code:
            return const(a is b)
        return T._leaf_truth(unk('issubclass'))
    return I.per_leaves(st, args[:2], go)


@fn('builtins.type')
def b_type(lib, I, st, args, kw):
    if len(args) == 3:
        raise Unsupported('type()')

    def go(s, l):
        if type(l) is Ref:
            o = I.hget(s, l.oid)
            if o.kind == 'inst':
                return code('class', o.cls)
            return code('lib', KIND_TYPE.get(o.kind, 'builtins.object'))
        if l in (TRUE, FALSE):
            return code('lib', 'builtins.bool')
        if isnumleaf(l) and type(l) is not Unk:
            return code('lib', 'builtins.int' if type(l) is Num and is_int_num(l) else 'builtins.float')
        if type(l) is Const and isinstance(l.v, str):
            return code('lib', 'builtins.str')
        if type(l) is Tup:
            return code('lib', 'builtins.tuple')
        if l is NONE:
            return code('lib', 'builtins.NoneType')
        if type(l) is App and l.fn.startswith('exc:'):
            return code('lib', 'builtins.' + l.fn[4:])
        if type(l) is Code:
            return code('lib', 'builtins.type' if l.kind == 'class' else 'builtins.function')
        return unk('type of unknown')
    return I.per_leaf(st, args[0], go)


@fn('builtins.callable')
def b_callable(lib, I, st, args, kw):
    def go(s, l):
        if type(l) is Code:
            return const(l.kind in ('func', 'closure', 'bound', 'class', 'lib', 'meth', 'hostfn', 'partial', 'super'))
        if type(l) is Ref:
            o = I.hget(s, l.oid)
            return const(o.kind == 'inst' and bool(I.class_lookup(o.cls, '__call__')))
        if type(l) is Sym and l.sort == 'fn':
            return TRUE
        if type(l) in (App, Unk) or type(l) is Sym and l.sort == 'any':
            return case(bool_atom(app('free:callable', (l,), 'bool') if type(l) is not Unk else unk('callable')), (TRUE, FALSE))
        return FALSE
    return I.per_leaf(st, args[0], go)


def pyname(v):
    if type(v) is Const and isinstance(v.v, str):
        return v.v
    raise Unsupported('symbolic attribute name')


@fn('builtins.hasattr')
def b_hasattr(lib, I, st, args, kw):
    def go(s, nm):
        ok, bad = lib.attempt(I, s, lambda q: I.getattr(args[0], pyname(nm), q), ['AttributeError'])
        return lib.join(I, s, [(q, TRUE) for q, _ in ok] + [(q, FALSE) for q, _ in bad])
    return I.per_leaf(st, args[1], go)


@fn('builtins.getattr')
def b_getattr(lib, I, st, args, kw):
    def go(s, nm):
        if len(args) < 3:
            return I.getattr(args[0], pyname(nm), s)
        ok, bad = lib.attempt(I, s, lambda q: I.getattr(args[0], pyname(nm), q), ['AttributeError'])
        return lib.join(I, s, ok + [(q, args[2]) for q, _ in bad])
    return I.per_leaf(st, args[1], go)


@fn('builtins.setattr')
def b_setattr(lib, I, st, args, kw):
    def go(s, nm):
        I.setattr(args[0], pyname(nm), args[2], s)
        return NONE
    return I.per_leaf(st, args[1], go)


@fn('builtins.delattr')
def b_delattr(lib, I, st, args, kw):
    return I.per_leaf(st, args[0], lambda s, l: I.raw_setattr(s, l, pyname(args[1]), ABSENT))


@fn('builtins.id', 'builtins.hash')
def b_id(lib, I, st, args, kw):
    def go(s, l):
        if type(l) is Ref:
            o = I.hget(s, l.oid)
            if o.kind == 'inst' and I.class_lookup(o.cls, '__hash__'):
                return I.call_method(l, '__hash__', [], s)
            return anum(app('id', (const(repr(l.oid)),), 'int'))
        return anum(app('free:hash', (l,), 'int'))
    return I.per_leaf(st, args[0], go)


@fn('builtins.dir')
def b_dir(lib, I, st, args, kw):
    return I.call_method(args[0], '__dir__', [], st)


@fn('builtins.vars')
def b_vars(lib, I, st, args, kw):
    return I.getattr(args[0], '__dict__', st)


@fn('builtins.print', 'builtins.display', 'builtins.globals', 'builtins.locals', 'builtins.open', 'builtins.input', 'time.time', 'time.sleep',
    'builtins.help', 'sys.exit')
def b_noop(lib, I, st, args, kw):
    return NONE


@fn('builtins.iter')
def b_iter(lib, I, st, args, kw):
    def go(s, l):
        if type(l) is Ref and I.hget(s, l.oid).kind == 'iter':
            return l
        c = I.iter_content(l, s)
        return I.alloc(s, 'iter', c)
    return I.per_leaf(st, args[0], go)


@fn('builtins.next')
def b_next(lib, I, st, args, kw):
    def go(s, l):
        if type(l) is Ref:
            o = I.hget(s, l.oid)
            if o.kind == 'iter':
                def one(s2, c):
                    its = I.content_items(c)
                    if not its:
                        if len(args) > 1:
                            return args[1]
                        I.do_raise(s2, mkexc('StopIteration'))
                    s2.put(l.oid, HObj('iter', None, tup(its[1:])))
                    return its[0]
                return I.per_leaf(s, o.data, one)
            if o.kind == 'inst':
                return I.call_method(l, '__next__', [], s)
        return unk('next')
    return I.per_leaf(st, args[0], go)


@fn('builtins.super')
def b_super(lib, I, st, args, kw):
    def go(s, c, o):
        return code('super', c.a[0], o)
    return I.per_leaves(st, args[:2], go)


@fn('builtins.object')
def b_object(lib, I, st, args, kw):
    return app('object', (num(I.new_oid()),), 'any')


@fn('builtins.property')
def b_property(lib, I, st, args, kw):
    return code('property', args[0], A(args, kw, 1, 'fset', NONE))


@fn('builtins.staticmethod', 'abc.abstractmethod', 'functools.lru_cache', 'functools.cache', 'dataclasses.dataclass', 'functools.total_ordering')
def b_ident(lib, I, st, args, kw):
    return args[0] if args else code('lib', 'builtins.staticmethod')


@fn('builtins.divmod')
def b_divmod(lib, I, st, args, kw):
    return tup([lib.binop(I, st, 'FloorDiv', args[0], args[1]), lib.binop(I, st, 'Mod', args[0], args[1])])


@fn('builtins.pow')
def b_pow(lib, I, st, args, kw):
    return lib.binop(I, st, 'Pow', args[0], args[1])


@fn('builtins.slice')
def b_slice(lib, I, st, args, kw):
    if len(args) == 1:
        return app('slice', (NONE, args[0], NONE))
    return app('slice', (args[0], args[1], args[2] if len(args) > 2 else NONE))


# ------------------------------------------------------------------ list methods
def upd(lib, I, st, r, f):
    """replace content (diagram) of r by f(st, content leaf) -> (new content, result)"""
    def go(s, c):
        new, res = f(s, c)
        o = I.hget(s, r.oid)
        s.put(r.oid, HObj(o.kind, o.cls, new))
        return res
    return I.per_leaf(st, I.hget(st, r.oid).data, go)


@meth('list', 'append')
def l_append(lib, I, st, r, args, kw):
    lib.list_append(I, st, r, args[0])
    return NONE


@meth('list', 'extend')
def l_extend(lib, I, st, r, args, kw):
    c = I.iter_content(args[0], st)
    o = I.hget(st, r.oid)
    st.put(r.oid, HObj(o.kind, o.cls, mapn(lambda a, b: tup(a.items + b.items) if type(a) is Tup and type(b) is Tup else unk('extend'), (o.data, c))))
    return NONE


@meth('list', 'insert')
def l_insert(lib, I, st, r, args, kw):
    def go(s, c, k):
        i = iconst(k)
        if i is None:
            raise Unsupported('symbolic insert')
        its = list(c.items)
        its.insert(i, args[1])
        s.put(r.oid, HObj('list', None, tup(its)))
        return NONE
    return I.per_leaves(st, [I.hget(st, r.oid).data, args[0]], go)


@meth('list', 'pop')
def l_pop(lib, I, st, r, args, kw):
    k = args[0] if args else num(-1)

    def go(s, c, kk):
        if not c.items:
            I.do_raise(s, mkexc('IndexError', const('pop from empty list')))
        i = iconst(kk)
        if i is None:
            return lib.list_pop_at(I, s, r, c, kk)
        if i < -len(c.items) or i >= len(c.items):
            I.do_raise(s, mkexc('IndexError', const('pop index out of range')))
        its = list(c.items)
        v = its.pop(i)
        s.put(r.oid, HObj('list', None, tup(its)))
        return v
    return I.per_leaves(st, [I.hget(st, r.oid).data, k], go)


def find_in(lib, I, st, items, x, found, missing):
    def go(s, i):
        if i == len(items):
            return missing(s)
        e = TRUE if items[i] is x else I.simp(s, lib.eq(I, s, items[i], x))
        if e is TRUE:
            return found(s, i)
        if e is FALSE:
            return go(s, i + 1)
        return I.branch(s, [(e, lambda q: found(q, i)), (bnot(e), lambda q: go(q, i + 1))])
    return go(st, 0)


@meth('list', 'remove')
def l_remove(lib, I, st, r, args, kw):
    def go(s, c):
        def fnd(q, i):
            q.put(r.oid, HObj('list', None, tup(c.items[:i] + c.items[i + 1:])))
            return NONE
        return find_in(lib, I, s, c.items, args[0], fnd, lambda q: I.do_raise(q, mkexc('ValueError', const('list.remove'))))
    return I.per_leaf(st, I.hget(st, r.oid).data, go)


@meth('list', 'index')
def l_index(lib, I, st, r, args, kw):
    return I.per_leaf(st, I.hget(st, r.oid).data, lambda s, c: find_in(
        lib, I, s, c.items, args[0], lambda q, i: num(i), lambda q: I.do_raise(q, mkexc('ValueError', const('not in list')))))


@meth('tuple', 'index')
def t_index(lib, I, st, r, args, kw):
    return find_in(lib, I, st, r.items, args[0], lambda q, i: num(i), lambda q: I.do_raise(q, mkexc('ValueError', const('not in tuple'))))


def count_in(lib, I, s, items, x):
    n = ZERO
    for i in items:
        n = vadd(n, ite(lib.eq(I, s, i, x), ONE, ZERO))
    return n


@meth('list', 'count')
def l_count(lib, I, st, r, args, kw):
    return I.per_leaf(st, I.hget(st, r.oid).data, lambda s, c: count_in(lib, I, s, c.items, args[0]))


@meth('tuple', 'count')
def t_count(lib, I, st, r, args, kw):
    return count_in(lib, I, st, r.items, args[0])


@meth('list', 'sort')
def l_sort(lib, I, st, r, args, kw):
    n = b_sorted(lib, I, st, [r], kw)
    st.put(r.oid, HObj('list', None, I.hget(st, n.oid).data))
    return NONE


@meth('list', 'reverse')
def l_reverse(lib, I, st, r, args, kw):
    o = I.hget(st, r.oid)
    st.put(r.oid, HObj('list', None, mapn(lambda c: tup(reversed(c.items)), (o.data,))))
    return NONE


@meth('list', 'clear')
def l_clear(lib, I, st, r, args, kw):
    st.put(r.oid, HObj('list', None, tup(())))
    return NONE


@meth('list', 'copy')
def l_copy(lib, I, st, r, args, kw):
    return I.alloc(st, 'list', I.hget(st, r.oid).data)


@meth('iter', '__next__')
def it_next(lib, I, st, r, args, kw):
    return b_next(lib, I, st, [r], {})


@meth('iter', '__iter__')
def it_iter(lib, I, st, r, args, kw):
    return r


# ------------------------------------------------------------------ dict methods
@meth('dict', 'get')
def d_get(lib, I, st, r, args, kw):
    dflt = A(args, kw, 1, 'default', NONE)

    def go(s, k):
        k = lib.hkey(I, s, k)
        v = lib.dict_get(I, s, I.hget(s, r.oid).data, k)
        return mapn(lambda l: l, (ite(cond_is(v, ABSENT), dflt, v) if ABSENT in leaves(v) else v,))
    return I.per_leaf(st, args[0], go)


@meth('dict', 'setdefault')
def d_setdefault(lib, I, st, r, args, kw):
    dflt = A(args, kw, 1, 'default', NONE)

    def go(s, k):
        v = I.simp(s, lib.dict_get(I, s, I.hget(s, r.oid).data, k))
        if ABSENT not in leaves(v):
            return v
        c = cond_is(v, ABSENT)

        def put(q):
            lib.dict_set(I, q, r, k, dflt)
            return dflt
        return I.branch(s, [(c, put), (bnot(c), lambda q: restrict(v, bnot(c)))])
    return I.per_leaf(st, args[0], go)


def _without(c, k):
    return dictl((a, b) for a, b in c.pairs if a is not k)


@meth('dict', 'pop')
def d_pop(lib, I, st, r, args, kw):
    has_d = len(args) > 1 or 'default' in kw
    dflt = A(args, kw, 1, 'default', NONE)

    def go(s, k):
        k = lib.hkey(I, s, k)

        def one(s2, c):
            if type(c) is not DictL:
                return unk('pop')
            v = c.get(k)
            if v is None:
                if has_d:
                    return dflt
                I.do_raise(s2, mkexc('KeyError', k))
            s2.put(r.oid, HObj('dict', None, _without(c, k)))
            return v
        return I.per_leaf(s, I.hget(s, r.oid).data, one)
    return I.per_leaf(st, args[0], go)


@meth('dict', 'popitem')
def d_popitem(lib, I, st, r, args, kw):
    def one(s2, c):
        if not c.pairs:
            I.do_raise(s2, mkexc('KeyError'))
        k, v = c.pairs[-1]
        s2.put(r.oid, HObj('dict', None, _without(c, k)))
        return tup((k, v))
    return I.per_leaf(st, I.hget(st, r.oid).data, one)


@meth('dict', 'items')
def d_items(lib, I, st, r, args, kw):
    return I.alloc(st, 'list', mapn(lambda c: tup(tup(p) for p in c.pairs) if type(c) is DictL else unk('items'), (I.hget(st, r.oid).data,)))


@meth('dict', 'values')
def d_values(lib, I, st, r, args, kw):
    return I.alloc(st, 'list', mapn(lambda c: tup(b for _, b in c.pairs) if type(c) is DictL else unk('values'), (I.hget(st, r.oid).data,)))


@meth('dict', 'keys')
def d_keys(lib, I, st, r, args, kw):
    v = I.alloc(st, 'set', mapn(lambda c: dictl((a, NONE) for a, _ in c.pairs) if type(c) is DictL else unk('keys'), (I.hget(st, r.oid).data,)))
    I.views.add(v.oid)
    return v


@meth('dict', 'update')
def d_update(lib, I, st, r, args, kw):
    for a in args:
        lib.dict_update(I, st, r, a)
    for k, v in kw.items():
        lib.dict_set(I, st, r, const(k), v)
    return NONE


@meth('dict', 'copy')
def d_copy(lib, I, st, r, args, kw):
    return I.alloc(st, 'dict', I.hget(st, r.oid).data)


@meth('dict', 'clear')
def d_clear(lib, I, st, r, args, kw):
    st.put(r.oid, HObj('dict', None, dictl(())))
    return NONE


# ------------------------------------------------------------------ set methods
@meth('set', 'add')
def s_add(lib, I, st, r, args, kw):
    lib.dict_set(I, st, r, args[0], NONE)
    return NONE


@meth('set', 'update')
def s_update(lib, I, st, r, args, kw):
    for a in args:
        n = lib.set_op(I, st, 'BitOr', r, a)
        st.put(r.oid, HObj('set', None, I.hget(st, n.oid).data))
    return NONE


def _setop(op):
    def f(lib, I, st, r, args, kw):
        x = I.alloc(st, 'set', I.hget(st, r.oid).data)
        for a in args:
            x = lib.set_op(I, st, op, x, a)
        return x
    return f


for _n, _o in (('union', 'BitOr'), ('intersection', 'BitAnd'), ('difference', 'Sub'), ('symmetric_difference', 'BitXor')):
    METHS[('set', _n)] = _setop(_o)


@meth('set', 'copy')
def s_copy(lib, I, st, r, args, kw):
    return I.alloc(st, 'set', I.hget(st, r.oid).data)


@meth('set', 'discard', 'remove')
def s_discard(lib, I, st, r, args, kw):
    def go(s, k):
        o = I.hget(s, r.oid)
        s.put(r.oid, HObj('set', None, mapn(lambda c: _without(c, k), (o.data,))))
        return NONE
    return I.per_leaf(st, args[0], go)


@meth('set', 'issubset')
def s_issubset(lib, I, st, r, args, kw):
    c = I.iter_content(args[0], st)
    return mapn(lambda a, b: const(all(k in b.items for k, _ in a.pairs)), (I.hget(st, r.oid).data, c))


@meth('set', 'issuperset')
def s_issuperset(lib, I, st, r, args, kw):
    c = I.iter_content(args[0], st)
    return mapn(lambda a, b: const(all(any(k is x for k, _ in a.pairs) for x in b.items)), (I.hget(st, r.oid).data, c))


@meth('set', 'isdisjoint')
def s_isdisjoint(lib, I, st, r, args, kw):
    c = I.iter_content(args[0], st)
    return mapn(lambda a, b: const(not any(k in b.items for k, _ in a.pairs)), (I.hget(st, r.oid).data, c))


# ------------------------------------------------------------------ str methods
def _strm(name):
    def f(lib, I, st, r, args, kw):
        def go(s, *ls):
            if all(type(l) is Const or iconst(l) is not None for l in ls):
                pa = [l.v if type(l) is Const else iconst(l) for l in ls]
                try:
                    res = getattr(r.v, name)(*pa)
                except Exception as e:
                    I.do_raise(s, mkexc(type(e).__name__))
                return lift(I, s, res)
            if any(type(l) is Tup for l in ls) and name in ('startswith', 'endswith'):
                return const(getattr(r.v, name)(tuple(x.v for x in ls[0].items)))
            return app('strm:' + name, (r,) + tuple(ls), 'any')
        return I.per_leaves(st, args, go)
    return f


def lift(I, st, v):
    if isinstance(v, list):
        return I.newlist(st, [lift(I, st, x) for x in v])
    if isinstance(v, tuple):
        return tup([lift(I, st, x) for x in v])
    if v is None:
        return NONE
    return const(v)


for _n in ('lower', 'upper', 'split', 'rsplit', 'startswith', 'endswith', 'replace', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'partition', 'rpartition',
           'isdigit', 'zfill', 'count', 'find', 'index', 'isnumeric', 'isalpha', 'splitlines', 'isidentifier', 'removeprefix', 'removesuffix', 'center', 'ljust', 'rjust'):
    METHS[('str', _n)] = _strm(_n)


@meth('str', 'join')
def st_join(lib, I, st, r, args, kw):
    def go(s, its):
        out = []
        for i, x in enumerate(its):
            if i:
                out.append(r)
            out.append(x)
        return lib.str_concat(out) if out else const('')
    return I.items_of(args[0], st, go)


@meth('str', 'format')
def st_format(lib, I, st, r, args, kw):
    if all(type(a) is Const or iconst(a) is not None for a in list(args) + list(kw.values())):
        try:
            return const(r.v.format(*[a.v if type(a) is Const else iconst(a) for a in args], **{k: (a.v if type(a) is Const else iconst(a)) for k, a in kw.items()}))
        except Exception:
            pass
    return app('format', (r,), 'any')


@meth('str', '__add__')
def st_add(lib, I, st, r, args, kw):
    return lib.binop(I, st, 'Add', r, args[0])


# ------------------------------------------------------------------ copy
def deepcopy(lib, I, st, v, memo=None):
    memo = {} if memo is None else memo

    def val(x):
        t = type(x)
        if t is Dec:
            return mapn(val, (x,))
        if t is Ref:
            return obj(x)
        if t in (Tup, ListV, CArr):
            return rebuild(x, [val(y) for y in T.parts(x)])
        if t is DictL:
            return dictl((val(k), val(w)) for k, w in x.pairs)
        if t is Code and x.kind == 'bound' and type(x.a[1]) is Ref:
            return code('bound', x.a[0], val(x.a[1]))
        if t is Code and x.kind == 'partial':
            return code('partial', val(x.a[0]), val(x.a[1]), val(x.a[2]))
        return x

    def obj(r):
        if r.oid in memo:
            return memo[r.oid]
        o = I.hget(st, r.oid)
        if o.kind == 'inst':
            dc = I.class_lookup(o.cls, '__deepcopy__')
            if dc is not None:
                md = I.newdict(st, ())
                n = I.call(I.bind_entry(st, dc, r, o.cls, '__deepcopy__'), [md], {}, st)
                memo[r.oid] = n
                return n
            n = I.alloc(st, 'inst', {}, o.cls)
            memo[r.oid] = n
            data = {k: val(w) for k, w in o.data.items()}
            st.put(n.oid, HObj('inst', o.cls, data))
            return n
        if o.kind == 'arr':
            n = I.newarr(st, val_content(lib.acontent(I, st, r)))
            memo[r.oid] = n
            return n
        n = I.alloc(st, o.kind, NONE)
        memo[r.oid] = n
        st.put(n.oid, HObj(o.kind, None, val(o.data)))
        return n

    def val_content(c):
        return mapn(lambda l: rebuild(l, [val(y) for y in l.items]) if type(l) is CArr else l, (c,))
    return val(v)


@fn('copy.deepcopy')
def f_deepcopy(lib, I, st, args, kw):
    return deepcopy(lib, I, st, args[0])


@fn('copy.copy')
def f_copy(lib, I, st, args, kw):
    def go(s, l):
        if type(l) is not Ref:
            return l
        o = I.hget(s, l.oid)
        if o.kind == 'inst':
            c = I.class_lookup(o.cls, '__copy__')
            if c is not None:
                return I.call(I.bind_entry(s, c, l, o.cls, '__copy__'), [], {}, s)
            return I.alloc(s, 'inst', dict(o.data), o.cls)
        if o.kind == 'arr':
            return I.newarr(s, lib.acontent(I, s, l))
        return I.alloc(s, o.kind, o.data)
    return I.per_leaf(st, args[0], go)


# ------------------------------------------------------------------ misc library
@fn('warnings.warn')
def f_warn(lib, I, st, args, kw):
    lib.event(I, st, 'warn', const(str(len(I.where)) and '%s:%s' % (I.loc()[0], I.loc()[1]) if I.loc() else ''))
    return NONE


@fn('logging.getLogger')
def f_logger(lib, I, st, args, kw):
    return code('lib', 'logging.Logger')


@fn('functools.partial')
def f_partial(lib, I, st, args, kw):
    return code('partial', args[0], tup(args[1:]), dictl((const(k), v) for k, v in kw.items()))


@fn('functools.wraps')
def f_wraps(lib, I, st, args, kw):
    return code('lib', 'builtins.staticmethod')


@fn('functools.reduce')
def f_reduce(lib, I, st, args, kw):
    def go(s, its):
        its = list(its)
        acc = args[2] if len(args) > 2 else its.pop(0)
        for x in its:
            acc = I.call(args[0], [acc, x], {}, s)
        return acc
    return I.items_of(args[1], st, go)


@fn('itertools.chain')
def f_chain(lib, I, st, args, kw):
    return seqs(lib, I, st, args, lambda s, *its: I.alloc(s, 'iter', tup(x for it in its for x in it)))


@fn('itertools.chain.from_iterable')
def f_chain_fi(lib, I, st, args, kw):
    return I.items_of(args[0], st, lambda s, its: f_chain(lib, I, s, its, {}))


@fn('itertools.product')
def f_product(lib, I, st, args, kw):
    import itertools
    rep = iconst(kw['repeat']) if 'repeat' in kw else 1
    return seqs(lib, I, st, args, lambda s, *its: I.alloc(s, 'iter', tup(tup(x) for x in itertools.product(*its, repeat=rep))))


@fn('itertools.permutations', 'itertools.combinations')
def f_perm(lib, I, st, args, kw):
    import itertools
    k = A(args, kw, 1, 'r', NONE)
    return seqs(lib, I, st, args[:1], lambda s, its: I.alloc(s, 'iter', tup(tup(x) for x in itertools.permutations(its, None if k is NONE else iconst(k)))))


FNS['itertools.combinations'] = lambda lib, I, st, args, kw: seqs(lib, I, st, args[:1], lambda s, its: I.alloc(s, 'iter', tup(
    tup(x) for x in __import__('itertools').combinations(its, iconst(args[1])))))


@fn('itertools.repeat')
def f_irepeat(lib, I, st, args, kw):
    k = iconst(A(args, kw, 1, 'times', NONE))
    if k is None:
        raise Unsupported('endless repeat')
    return I.alloc(st, 'iter', tup([args[0]] * k))


@fn('itertools.zip_longest')
def f_zl(lib, I, st, args, kw):
    import itertools
    return seqs(lib, I, st, args, lambda s, *its: I.alloc(s, 'iter', tup(tup(x) for x in itertools.zip_longest(*its, fillvalue=kw.get('fillvalue', NONE)))))


@fn('itertools.accumulate')
def f_acc(lib, I, st, args, kw):
    def go(s, its):
        out = []
        for x in its:
            out.append(x if not out else (lib.binop(I, s, 'Add', out[-1], x) if len(args) < 2 else I.call(args[1], [out[-1], x], {}, s)))
        return I.alloc(s, 'iter', tup(out))
    return I.items_of(args[0], st, go)


def _oper(op):
    return lambda lib, I, st, args, kw: lib.binop(I, st, op, args[0], args[1])


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('pow', 'Pow'), ('or_', 'BitOr'), ('and_', 'BitAnd')):
    FNS['operator.' + _n] = _oper(_o)


def _ocmp(op):
    return lambda lib, I, st, args, kw: lib.cmpop(I, st, op, args[0], args[1])


for _n, _o in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq'), ('is_', 'Is')):
    FNS['operator.' + _n] = _ocmp(_o)
FNS['operator.neg'] = lambda lib, I, st, args, kw: lib.unop(I, st, 'USub', args[0])
FNS['operator.getitem'] = lambda lib, I, st, args, kw: I.getitem(args[0], args[1], st)


@fn('operator.itemgetter')
def f_itemgetter(lib, I, st, args, kw):
    ks = tuple(args)

    def g(I, s, a, k):
        vs = [I.getitem(a[0], x, s) for x in ks]
        return vs[0] if len(vs) == 1 else tup(vs)
    return code('hostfn', 'itemgetter:%s' % ','.join(str(k.id) for k in ks), HostFn.get(('itemgetter', ks), g))


@fn('operator.attrgetter')
def f_attrgetter(lib, I, st, args, kw):
    ks = tuple(args)

    def g(I, s, a, k):
        vs = []
        for x in ks:
            o = a[0]
            for part in x.v.split('.'):
                o = I.getattr(o, part, s)
            vs.append(o)
        return vs[0] if len(vs) == 1 else tup(vs)
    return code('hostfn', 'attrgetter:%s' % ','.join(str(k.id) for k in ks), HostFn.get(('attrgetter', ks), g))


@fn('operator.methodcaller')
def f_methodcaller(lib, I, st, args, kw):
    def g(I, s, a, k):
        return I.call(I.getattr(a[0], args[0].v, s), args[1:], kw, s)
    return code('hostfn', 'methodcaller:%d' % I.new_oid(), g)


class HostFn:
    table = {}

    @classmethod
    def get(cls, key, f):
        return cls.table.setdefault(key, f)


@fn('inspect.signature')
def f_signature(lib, I, st, args, kw):
    def go(s, f):
        skip = 0
        cl = None
        while type(f) is Code and f.kind == 'bound':
            f = f.a[0]
            skip = 1
        if type(f) is Code and f.kind == 'class':
            init = I.find_init(f.a[0], s)
            if init is None:
                fi = None
            else:
                f = init
                skip = 1
        if type(f) is Ref:
            o = I.hget(s, f.oid)
            ent = I.class_lookup(o.cls, '__call__') if o.kind == 'inst' else None
            if ent is None:
                I.do_raise(s, mkexc('TypeError', const('not callable')))
            f = code('func', ent[1][1])
            skip = 1
        pm = I.module('stub_misc')
        P = I.mod_attr(pm, 'Parameter', s)
        S = I.mod_attr(pm, 'Signature', s)
        d = I.newdict(s, ())
        if type(f) is Sym and f.sort == 'fn':
            for i in range((f.meta or {}).get('nargs', 1)):
                lib.dict_set(I, s, d, const('a%d' % i), I.call(P, [const('a%d' % i)], {}, s))
        elif type(f) is Code and f.kind in ('func', 'closure'):
            fi = f.a[0]
            closure = f.a[1] if f.kind == 'closure' else None
            a = fi.node.args
            pos = a.posonlyargs + a.args
            nd = len(pos) - len(a.defaults)
            for i, p in enumerate(pos):
                if i < skip:
                    continue
                kws = {'default': I.default(fi, a.defaults[i - nd], ('p', i), s, closure)} if i >= nd else {}
                lib.dict_set(I, s, d, const(p.arg), I.call(P, [const(p.arg)], kws, s))
            if a.vararg:
                lib.dict_set(I, s, d, const(a.vararg.arg), I.call(P, [const(a.vararg.arg)], {'kind': num(2)}, s))
            for i, p in enumerate(a.kwonlyargs):
                kws = {'kind': num(3)}
                if a.kw_defaults[i] is not None:
                    kws['default'] = I.default(fi, a.kw_defaults[i], ('k', i), s, closure)
                lib.dict_set(I, s, d, const(p.arg), I.call(P, [const(p.arg)], kws, s))
            if a.kwarg:
                lib.dict_set(I, s, d, const(a.kwarg.arg), I.call(P, [const(a.kwarg.arg)], {'kind': num(4)}, s))
        elif type(f) is Code and f.kind == 'class':
            pass
        elif type(f) is Code and f.kind == 'hostfn' and f.a[0] == 'object.__init__':
            lib.dict_set(I, s, d, const('args'), I.call(P, [const('args')], {'kind': num(2)}, s))
            lib.dict_set(I, s, d, const('kwargs'), I.call(P, [const('kwargs')], {'kind': num(4)}, s))
        else:
            raise Unsupported('signature of %s' % show(f)[:60])
        return I.call(S, [d], {}, s)
    return I.per_leaf(st, args[0], go)


@fn('pandas.api.types.is_list_like')
def f_list_like(lib, I, st, args, kw):
    def go(s, l):
        k = lib.kind(I, s, l)
        if k in ('list', 'dict', 'set', 'arr', 'iter'):
            return TRUE
        if k == 'inst':
            o = I.hget(s, l.oid)
            return const(bool(I.class_lookup(o.cls, '__iter__')) or '__arr__' in o.data)
        if type(l) is Tup:
            return TRUE
        if type(l) in (Unk,):
            return T._leaf_truth(unk('is_list_like'))
        if type(l) in (App, Sym) and l.sort == 'any':
            return case(bool_atom(app('free:is_list_like', (l,), 'bool')), (TRUE, FALSE))
        return FALSE
    return I.per_leaf(st, args[0], go)


@fn('pandas.api.types.is_number', 'numpy.isscalar')
def f_is_number(lib, I, st, args, kw):
    def go(s, l):
        if isnumleaf(l) and type(l) is not Unk:
            return TRUE
        if type(l) is Unk:
            return T._leaf_truth(unk('is_number'))
        return FALSE
    return I.per_leaf(st, args[0], go)


@fn('pandas.api.types.is_numeric_dtype')
def f_is_numeric(lib, I, st, args, kw):
    def go(s, l):
        if type(l) is Ref:
            k = lib.kind(I, s, l)
            if k == 'arr':
                return TRUE
            return FALSE
        if type(l) is Code and l.kind == 'lib' and l.a[0].startswith('numpy.float'):
            return TRUE
        return T._leaf_truth(unk('is_numeric')) if type(l) is Unk else FALSE
    return I.per_leaf(st, args[0], go)


@fn('pandas.isna', 'pandas.isnull', 'numpy.isnan', 'math.isnan')
def f_isnan(lib, I, st, args, kw):
    def f(x):
        return mapn(lambda l: TRUE if type(l) is Nan else (T._leaf_truth(unk('isnan')) if type(l) is Unk else FALSE), (x,))
    return el(lib, I, st, f, args[0])


@np_fn('isinf')
def f_isinf(lib, I, st, args, kw):
    return el(lib, I, st, lambda x: mapn(lambda l: const(type(l) is Inf), (x,)), args[0])


@np_fn('isfinite')
def f_isfinite(lib, I, st, args, kw):
    return el(lib, I, st, lambda x: mapn(lambda l: const(type(l) not in (Inf, Nan)), (x,)), args[0])


@fn('json.dumps')
def f_dumps(lib, I, st, args, kw):
    return app('json', (I.reify(args[0], st),), 'any') if type(I.reify(args[0], st)) is not Dec else unk('json')


@fn('_yaml.sort_keys')
def f_ysort(lib, I, st, args, kw):
    def go(s, its):
        ks = [k.v if type(k) is Const else nconst(k) for k in its]
        if any(k is None for k in ks) and not any(type(k) is Const and k.v is None for k in its):
            return I.alloc(s, 'list', tup(its))
        try:
            order = sorted(range(len(ks)), key=lambda i: ks[i])
        except TypeError:
            order = range(len(ks))
        return I.alloc(s, 'list', tup(tuple(its[i] for i in order)))
    return I.per_leaf(st, args[0], lambda s, l: I.items_of(l, s, go))


@fn('_yaml.defines')
def f_ydefines(lib, I, st, args, kw):
    def go(s, l):
        if type(l) is Ref and I.hget(s, l.oid).kind == 'inst':
            return TRUE if I.class_lookup(I.hget(s, l.oid).cls, args[1].v) is not None else FALSE
        return FALSE
    return I.per_leaf(st, args[0], go)


@fn('_yaml.class_for')
def f_yclass(lib, I, st, args, kw):
    """the class of the package that registered the tag"""
    def go(s, l):
        if type(l) is not Const:
            return unk('yaml tag')
        found = []
        for name in sorted(I.prog.modules):
            m = I.prog.modules[name]
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef) and any(
                        isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'yaml_tag' for t in b.targets) for b in n.body):
                    c = I.mod_attr(m, n.name, s)
                    t = I.getattr(c, 'yaml_tag', s)
                    if t is l:
                        found.append(c)
        if len(found) > 1:
            return unk('ambiguous yaml tag')
        return found[0] if found else NONE
    return I.per_leaf(st, args[0], go)


# ------------------------------------------------------------------ numpy creation
@np_fn('array', 'asarray', 'asfarray', 'ascontiguousarray', 'asanyarray')
def n_array(lib, I, st, args, kw):
    v = A(args, kw, 0, 'object')

    def go(s, l):
        c = lib.np_array_content(I, s, l)
        return I.newarr(s, c)
    if type(v) is Dec and any(type(l) is Ref for l in leaves(v)):
        return I.per_leaf(st, v, go)
    return go(st, v)


def n_asarray(lib, I, st, args, kw):
    v = args[0]
    if type(v) is Ref and I.hget(st, v.oid).kind == 'arr':
        return v
    return n_array(lib, I, st, args, kw)


FNS['numpy.asarray'] = FNS['numpy.asanyarray'] = FNS['numpy.ascontiguousarray'] = n_asarray


def shape_of(lib, I, st, v, fnc):
    """fnc(st, tuple of leaf dims)"""
    def go(s, l):
        if isnumleaf(l):
            dims = [l]
        else:
            c = I.iter_content(l, s)
            return I.per_leaf(s, c, lambda q, t: I.per_leaves(q, list(t.items), lambda q2, *ds: fnc(q2, tuple(ds))))
        return fnc(s, tuple(dims))
    return I.per_leaf(st, v, go)


def mk_const(lib, I, st, shp, v):
    def go(s, dims):
        ds = [iconst(d) for d in dims]
        if all(d is not None for d in ds):
            if any(d < 0 for d in ds):
                I.do_raise(s, mkexc('ValueError', const('negative dimensions')))
            n = 1
            for d in ds:
                n *= d
            if n > 20000:
                raise Unsupported('large array')
            return I.newarr(s, const_arr(tuple(ds), v))
        for j, d in enumerate(ds):
            if d is None:
                b = bounded_ints(I, s, dims[j]) if type(dims[j]) is Num else None
                if b is not None:
                    return I.branch(s, [(c, lambda q, k=k: go(q, dims[:j] + (num(k),) + dims[j + 1:])) for c, k in b])
                break
        if len(ds) == 1 or len(ds) == 2 and ds[1] is not None and ds[0] is None:
            return I.newarr(s, sarr(dims[0], [v] * (1 if len(ds) == 1 else ds[1]), len(ds)))
        raise Unsupported('array of symbolic shape')
    return shape_of(lib, I, st, shp, go)


@np_fn('zeros', 'empty')
def n_zeros(lib, I, st, args, kw):
    return mk_const(lib, I, st, A(args, kw, 0, 'shape'), ZERO)


@np_fn('ones')
def n_ones(lib, I, st, args, kw):
    return mk_const(lib, I, st, A(args, kw, 0, 'shape'), ONE)


@np_fn('full')
def n_full(lib, I, st, args, kw):
    v = A(args, kw, 1, 'fill_value')
    c = lib.as_content(I, st, v)
    if has_arr(c):
        r = mk_const(lib, I, st, A(args, kw, 0, 'shape'), ZERO)
        return lib.binop(I, st, 'Add', r, v)
    return mk_const(lib, I, st, A(args, kw, 0, 'shape'), v)


def like(v):
    def f(lib, I, st, args, kw):
        fv = v if v is not None else A(args, kw, 1, 'fill_value')
        return el(lib, I, st, lambda x: fv, args[0])
    return f


FNS['numpy.zeros_like'] = FNS['numpy.empty_like'] = like(ZERO)
FNS['numpy.ones_like'] = like(ONE)
FNS['numpy.full_like'] = like(None)


@np_fn('arange')
def n_arange(lib, I, st, args, kw):
    try:
        r = b_range(lib, I, st, args, {})
    except Unsupported:
        if len(args) == 1:
            return I.newarr(st, sarr(args[0], [anum(I0)], 1))
        if len(args) == 2:
            return I.newarr(st, sarr(I.simp(st, vsub(args[1], args[0])), [vadd(args[0], anum(I0))], 1))
        raise
    return n_array(lib, I, st, [r], {})


@np_fn('eye', 'identity')
def n_eye(lib, I, st, args, kw):
    n = iconst(args[0])
    return I.newarr(st, carr((n, n), [ONE if i == j else ZERO for i in range(n) for j in range(n)]))


@np_fn('linspace')
def n_linspace(lib, I, st, args, kw):
    n = iconst(A(args, kw, 2, 'num', num(50)))
    if n is None or n > 60 or not allnum(args[0]):
        return unk('linspace')
    step = vdiv(vsub(args[1], args[0]), num(max(n - 1, 1)))
    return I.newarr(st, carr((n,), [vadd(args[0], vmul(step, num(i))) for i in range(n)]))


# ------------------------------------------------------------------ numpy elementwise
def _el(name, f):
    FNS['numpy.' + name] = lambda lib, I, st, args, kw: el(lib, I, st, f, *args[:1])


def _el2(name, f):
    FNS['numpy.' + name] = lambda lib, I, st, args, kw: el(lib, I, st, f, *args[:2])


_el('abs', vabs)
_el('absolute', vabs)
_el('fabs', vabs)
_el('sign', vsign)
_el('negative', vneg)
_el('floor', vfloor)
_el('ceil', lambda x: vneg(vfloor(vneg(x))))
FNS['math.floor'] = FNS['numpy.floor']
FNS['math.ceil'] = FNS['numpy.ceil']
_el('square', lambda x: vmul(x, x))
_el('logical_not', lambda x: bnot(mapn(T._leaf_truth, (x,))))
_el2('minimum', vmin)
_el2('maximum', vmax)
_el2('fmin', vmin)
_el2('fmax', vmax)
_el2('add', vadd)
_el2('subtract', vsub)
_el2('multiply', vmul)
_el2('divide', vdiv)
_el2('true_divide', vdiv)
_el2('logical_and', lambda x, y: band(mapn(T._leaf_truth, (x,)), mapn(T._leaf_truth, (y,))))
_el2('logical_or', lambda x, y: bor(mapn(T._leaf_truth, (x,)), mapn(T._leaf_truth, (y,))))
for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    FNS['numpy.' + _n] = (lambda o: lambda lib, I, st, args, kw: lib.cmpop(I, st, o, args[0], args[1]))(_o)
def elementary(n, l):
    """exp, log, ... of a constant is its value to nine digits, of anything else an opaque number"""
    if type(l) in (Unk, Nan):
        return l
    c = nconst(l)
    if c is not None:
        try:
            return num(Fraction(round(getattr(math, n)(c), 9)))
        except (ValueError, OverflowError):
            pass
    if n == 'log1p':
        return elementary('log', vadd(l, ONE))
    return anum(app(n, (tonum(l),), 'num'))


for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'log10', 'log2', 'tanh', 'log1p', 'expm1'):
    _el(_n, (lambda n: lambda x: mapn(lambda l: elementary(n, l), (x,)))(_n))
    FNS['math.' + _n] = FNS['numpy.' + _n]


@np_fn('round', 'around', 'round_')
def n_round(lib, I, st, args, kw):
    nd = A(args, kw, 1, 'decimals', ZERO)
    if nd is ZERO:
        return el(lib, I, st, unit_round, args[0])
    return b_round(lib, I, st, [args[0], nd], {})


@np_fn('clip')
def n_clip(lib, I, st, args, kw):
    lo = A(args, kw, 1, 'a_min', NONE)
    hi = A(args, kw, 2, 'a_max', NONE)
    v = A(args, kw, 0, 'a')
    if lo is not NONE:
        v = el(lib, I, st, vmax, v, lo)
    if hi is not NONE:
        v = el(lib, I, st, vmin, v, hi)
    return v


@np_fn('where')
def n_where(lib, I, st, args, kw):
    if len(args) == 1:
        return unk('np.where indices')
    return el(lib, I, st, lambda c, a, b: ite(mapn(T._leaf_truth, (c,)), a, b), *args)


@np_fn('isclose')
def n_isclose(lib, I, st, args, kw):
    rt = A(args, kw, 2, 'rtol', num(Fraction(1, 10 ** 5)))
    at = A(args, kw, 3, 'atol', num(Fraction(1, 10 ** 8)))
    return el(lib, I, st, lambda a, b: isclose_v(a, b, rt, at), args[0], args[1])


@fn('math.isclose')
def m_isclose(lib, I, st, args, kw):
    rt = kw.get('rel_tol', num(Fraction(1, 10 ** 9)))
    at = kw.get('abs_tol', ZERO)
    a, b = args
    m = vmax(vabs(a), vabs(b))
    return vle(vabs(vsub(a, b)), vmax(vmul(rt, m), at))


@np_fn('allclose')
def n_allclose(lib, I, st, args, kw):
    r = n_isclose(lib, I, st, args, kw)
    if not any(type(l) is Ref for l in leaves(r)):
        return r
    return reduce_(lib, I, st, r, None, ball, 'aall', TRUE)


@np_fn('array_equal')
def n_array_equal(lib, I, st, args, kw):
    a, b = arr_of(lib, I, st, args[0]), arr_of(lib, I, st, args[1])

    def f(x, y):
        if type(x) is CArr and type(y) is CArr:
            if x.shape != y.shape:
                return FALSE
            return ball([mapn(lib.eq_simple, (p, q)) for p, q in zip(x.items, y.items)])
        if type(x) is SArr and type(y) is SArr:
            if x is y:
                return TRUE
            if len(x.cols) != len(y.cols) or x.ndim != y.ndim:
                return FALSE
            if x.n is y.n:
                return squant('aall', ewise(lambda p, q: cmpnum('Eq', p, q), x, y), None)
        return T._leaf_truth(unk('array_equal'))
    return mapn(f, (a, b))


# ------------------------------------------------------------------ numpy reductions
def _vsum(xs):
    return fold(vadd, xs, ZERO)


def _vprod(xs):
    return fold(vmul, xs, ONE)


def _red(names, f1, sname, empty=None):
    def g(lib, I, st, args, kw):
        return reduce_(lib, I, st, args[0], A(args, kw, 1, 'axis', NONE), f1, sname, empty, kw.get('keepdims', FALSE))
    for n in names:
        FNS['numpy.' + n] = g


_red(('sum', 'nansum'), _vsum, 'asum', ZERO)
_red(('min', 'amin', 'nanmin'), lambda xs: fold(vmin, xs), 'amin')
_red(('max', 'amax', 'nanmax'), lambda xs: fold(vmax, xs), 'amax')
_red(('all', 'alltrue'), ball, 'aall', TRUE)
_red(('any',), bany, 'aany', FALSE)
_red(('prod', 'product'), _vprod, None, ONE)
def _median(xs):
    xs = list(xs)
    n = len(xs)
    if n == 0 or n > 6:
        return unk('median')
    for i in range(n):
        for j in range(n - 1 - i):
            xs[j], xs[j + 1] = vmin(xs[j], xs[j + 1]), vmax(xs[j], xs[j + 1])
    return xs[n // 2] if n % 2 else vdiv(vadd(xs[n // 2 - 1], xs[n // 2]), num(2))


_red(('median',), _median, None)
_red(('mean', 'average'), lambda xs: vdiv(_vsum(xs), num(len(xs))), None, NAN)


@np_fn('argmin', 'argmax')
def n_argmin(lib, I, st, args, kw):
    return unk('argmin')


@np_fn('count_nonzero')
def n_count(lib, I, st, args, kw):
    return reduce_(lib, I, st, args[0], None, lambda xs: _vsum([ite(mapn(T._leaf_truth, (x,)), ONE, ZERO) for x in xs]), None, ZERO)


@np_fn('cumsum')
def n_cumsum(lib, I, st, args, kw):
    c = arr_of(lib, I, st, args[0])

    def f(l):
        if type(l) is not CArr:
            return unk('cumsum')
        out, acc = [], ZERO
        for x in l.items:
            acc = vadd(acc, x)
            out.append(acc)
        return carr((len(out),), out)
    return wrap(I, st, mapn(f, (c,)))


@np_fn('diff')
def n_diff(lib, I, st, args, kw):
    c = arr_of(lib, I, st, args[0])
    return wrap(I, st, mapn(lambda l: carr((len(l.items) - 1,), [vsub(b, a) for a, b in zip(l.items, l.items[1:])]) if type(l) is CArr and len(l.shape) == 1 else unk('diff'), (c,)))


# ------------------------------------------------------------------ numpy joining
def concat(xs, axis):
    if any(type(x) is Unk for x in xs):
        return unk('concatenate')
    if all(type(x) is CArr for x in xs):
        nd = len(xs[0].shape)
        if any(len(x.shape) != nd for x in xs) or nd == 0:
            raise ShapeError()
        axis = axis % nd
        for x in xs:
            if any(x.shape[d] != xs[0].shape[d] for d in range(nd) if d != axis):
                raise ShapeError()
        if axis == 0:
            return carr((sum(x.shape[0] for x in xs),) + xs[0].shape[1:], [i for x in xs for i in x.items])
        if nd == 2:
            r = xs[0].shape[0]
            items = []
            for i in range(r):
                for x in xs:
                    w = x.shape[1]
                    items.extend(x.items[i * w:(i + 1) * w])
            return carr((r, sum(x.shape[1] for x in xs)), items)
        return unk('concatenate')
    if all(type(x) is SArr for x in xs) and xs[0].ndim == 2 and axis in (1, -1):
        if any(x.n is not xs[0].n or x.ndim != 2 for x in xs):
            return unk('concatenate')
        return sarr(xs[0].n, [c for x in xs for c in x.cols], 2)
    xs = [x for x in xs if not (type(x) is CArr and x.shape[0] == 0)]
    if len(xs) == 1:
        return xs[0]
    return unk('concatenate of symbolic arrays')


def _join(lib, I, st, seq, f):
    def go(s, its):
        cs = [arr_of(lib, I, s, x) for x in its]
        if not cs:
            I.do_raise(s, mkexc('ValueError', const('need at least one array')))
        if all(c is cs[0] for c in cs) and type(cs[0]) is SArr:
            pass
        try:
            return wrap(I, s, mapn(lambda *xs: f(list(xs)), cs))
        except ShapeError:
            I.do_raise(s, mkexc('ValueError', const('dimensions must match')))
    return I.items_of(seq, st, go)


@np_fn('concatenate')
def n_concat(lib, I, st, args, kw):
    ax = axis_of(A(args, kw, 1, 'axis', ZERO))

    def f(xs):
        if ax is None:
            xs = [carr((len(x.items),), x.items) if type(x) is CArr else x for x in xs]
        return concat(xs, ax or 0)
    return _join(lib, I, st, args[0], f)


def at_least(x, nd):
    if type(x) is CArr:
        while len(x.shape) < nd:
            x = carr((1,) + x.shape, x.items)
    return x


@np_fn('hstack')
def n_hstack(lib, I, st, args, kw):
    def f(xs):
        xs = [at_least(x, 1) for x in xs]
        if all(type(x) is CArr and len(x.shape) == 1 for x in xs):
            return concat(xs, 0)
        if all(type(x) is SArr and x.ndim == 1 for x in xs):
            return unk('hstack')
        return concat(xs, 1)
    return _join(lib, I, st, args[0], f)


@np_fn('vstack')
def n_vstack(lib, I, st, args, kw):
    return _join(lib, I, st, args[0], lambda xs: concat([at_least(x, 2) for x in xs], 0))


@np_fn('column_stack')
def n_cstack(lib, I, st, args, kw):
    def f(xs):
        if all(type(x) is CArr for x in xs):
            return concat([carr((x.shape[0], 1), x.items) if len(x.shape) == 1 else x for x in xs], 1)
        if all(type(x) is SArr for x in xs):
            return concat([sarr(x.n, x.cols, 2) for x in xs], 1)
        return unk('column_stack')
    return _join(lib, I, st, args[0], f)


@np_fn('stack')
def n_stack(lib, I, st, args, kw):
    ax = axis_of(A(args, kw, 1, 'axis', ZERO))

    def f(xs):
        if all(type(x) is CArr for x in xs):
            if ax == 0:
                return concat([carr((1,) + x.shape, x.items) for x in xs], 0)
            if ax in (1, -1) and all(len(x.shape) == 1 for x in xs):
                return concat([carr(x.shape + (1,), x.items) for x in xs], 1)
        if all(type(x) is SArr and x.ndim == 1 for x in xs) and ax in (1, -1):
            return concat([sarr(x.n, x.cols, 2) for x in xs], 1)
        return unk('stack')
    return _join(lib, I, st, args[0], f)


@np_fn('append')
def n_append(lib, I, st, args, kw):
    ax = A(args, kw, 2, 'axis', NONE)
    if ax is NONE:
        a = n_array(lib, I, st, [args[0]], {})
        b = n_array(lib, I, st, [args[1]], {})
        return _join(lib, I, st, tup([a, b]), lambda xs: concat([carr((len(x.items),), x.items) if type(x) is CArr else x for x in xs], 0))
    return n_concat(lib, I, st, [tup(args[:2]), ax], {})


@np_fn('block')
def n_block(lib, I, st, args, kw):
    def go(s, rows):
        rr = []
        for r in rows:
            if lib.kind(I, s, r) == 'list' or type(r) is Tup:
                rr.append(n_hstack(lib, I, s, [r], {}))
            else:
                rr.append(r)
        first_nested = any(lib.kind(I, s, r) == 'list' for r in rows)
        if first_nested:
            return n_vstack(lib, I, s, [tup(rr)], {})
        return n_hstack(lib, I, s, [tup(rr)], {})
    return I.items_of(args[0], st, go)


@np_fn('repeat')
def n_repeat(lib, I, st, args, kw):
    c = arr_of(lib, I, st, args[0])
    k = A(args, kw, 1, 'repeats')
    ax = axis_of(A(args, kw, 2, 'axis', NONE))

    def go(s, l, n):
        i = iconst(n)
        if i is None:
            if isnumleaf(n) and type(l) is CArr and len(l.items) == 1:
                return I.newarr(s, sarr(n, [l.items[0]], 1))
            raise Unsupported('symbolic repeat')
        if type(l) is not CArr:
            return unk('repeat')
        if ax is None or len(l.shape) <= 1:
            return I.newarr(s, carr((len(l.items) * i,), [x for x in l.items for _ in range(i)]))
        if ax == 0:
            w = len(l.items) // max(l.shape[0], 1)
            return I.newarr(s, carr((l.shape[0] * i,) + l.shape[1:], [x for r in range(l.shape[0]) for _ in range(i) for x in l.items[r * w:(r + 1) * w]]))
        if ax in (1, -1) and len(l.shape) == 2:
            return I.newarr(s, carr((l.shape[0], l.shape[1] * i), [x for x in l.items for _ in range(i)]))
        return unk('repeat')
    return I.per_leaves(st, [c, k], go)


@np_fn('tile')
def n_tile(lib, I, st, args, kw):
    c = arr_of(lib, I, st, args[0])

    def go(s, l, n):
        if type(l) is not CArr:
            return unk('tile')
        if type(n) is Tup and len(n.items) == 2 and len(l.shape) == 1:
            a, b = iconst(n.items[0]), iconst(n.items[1])
            if a is None or b is None:
                raise Unsupported('symbolic tile')
            return I.newarr(s, carr((a, len(l.items) * b), list(l.items) * (a * b)))
        i = iconst(n)
        if i is None or len(l.shape) != 1:
            raise Unsupported('tile')
        return I.newarr(s, carr((len(l.items) * i,), l.items * i))
    return I.per_leaves(st, [c, args[1]], go)


@np_fn('outer')
def n_outer(lib, I, st, args, kw):
    a, b = arr_of(lib, I, st, args[0]), arr_of(lib, I, st, args[1])

    def f(x, y):
        if type(x) is CArr and type(y) is CArr:
            return carr((len(x.items), len(y.items)), [vmul(p, q) for p in x.items for q in y.items])
        if type(x) is SArr and type(y) is CArr and x.ndim == 1:
            return sarr(x.n, [vmul(x.cols[0], q) for q in y.items], 2)
        return unk('outer')
    return wrap(I, st, mapn(f, (a, b)))


@np_fn('dot', 'matmul', 'inner', 'vdot')
def n_dot(lib, I, st, args, kw):
    a, b = arr_of(lib, I, st, args[0]), arr_of(lib, I, st, args[1])

    def f(x, y):
        if type(x) is CArr and type(y) is CArr:
            if x.shape == () or y.shape == ():
                return ewise(vmul, x, y)
            if len(x.shape) == 1 and len(y.shape) == 1:
                if x.shape != y.shape:
                    raise ShapeError()
                return carr((), [_vsum([vmul(p, q) for p, q in zip(x.items, y.items)])])
            if len(x.shape) == 2 and len(y.shape) == 1:
                r, c = x.shape
                return carr((r,), [_vsum([vmul(x.items[i * c + k], y.items[k]) for k in range(c)]) for i in range(r)])
            if len(x.shape) == 2 and len(y.shape) == 2:
                r, c = x.shape
                c2, q = y.shape
                return carr((r, q), [_vsum([vmul(x.items[i * c + k], y.items[k * q + j]) for k in range(c)]) for i in range(r) for j in range(q)])
        if type(x) is SArr and type(y) is SArr and x.ndim == 1 and y.ndim == 1 and x.n is y.n:
            return sagg('asum', ewise(vmul, x, y), None)
        return unk('dot')
    try:
        return wrap(I, st, mapn(f, (a, b)))
    except ShapeError:
        I.do_raise(st, mkexc('ValueError', const('shapes not aligned')))


@np_fn('atleast_1d')
def n_al1(lib, I, st, args, kw):
    c = arr_of(lib, I, st, args[0])
    return I.newarr(st, mapn(lambda l: at_least(l, 1), (c,)))


@np_fn('atleast_2d')
def n_al2(lib, I, st, args, kw):
    c = arr_of(lib, I, st, args[0])
    return I.newarr(st, mapn(lambda l: at_least(l, 2), (c,)))


@np_fn('expand_dims')
def n_expand(lib, I, st, args, kw):
    ax = axis_of(A(args, kw, 1, 'axis'))
    c = arr_of(lib, I, st, args[0])

    def f(l):
        if type(l) is CArr:
            sh = list(l.shape)
            sh.insert(ax if ax >= 0 else len(sh) + 1 + ax, 1)
            return carr(sh, l.items)
        if type(l) is SArr and l.ndim == 1 and ax in (1, -1):
            return sarr(l.n, l.cols, 2)
        return unk('expand_dims')
    return I.newarr(st, mapn(f, (c,)))


@np_fn('ravel')
def n_ravel(lib, I, st, args, kw):
    return lib.arr_method(I, st, n_asarray(lib, I, st, args, {}), 'ravel', [], {})


@np_fn('reshape')
def n_reshape(lib, I, st, args, kw):
    return lib.arr_method(I, st, n_asarray(lib, I, st, args[:1], {}), 'reshape', args[1:], kw)


@np_fn('squeeze')
def n_squeeze(lib, I, st, args, kw):
    return lib.arr_method(I, st, n_asarray(lib, I, st, args[:1], {}), 'squeeze', args[1:], kw)


@np_fn('transpose')
def n_transpose(lib, I, st, args, kw):
    return I.getattr(n_asarray(lib, I, st, args[:1], {}), 'T', st)


@np_fn('shape')
def n_shape(lib, I, st, args, kw):
    return I.getattr(n_asarray(lib, I, st, args[:1], {}), 'shape', st)


@np_fn('size')
def n_size(lib, I, st, args, kw):
    return I.getattr(n_asarray(lib, I, st, args[:1], {}), 'size', st)


@np_fn('ndim')
def n_ndim(lib, I, st, args, kw):
    return I.getattr(n_asarray(lib, I, st, args[:1], {}), 'ndim', st)


@np_fn('copy')
def n_copy(lib, I, st, args, kw):
    return n_array(lib, I, st, args, {})


@np_fn('diag')
def n_diag(lib, I, st, args, kw):
    c = arr_of(lib, I, st, args[0])

    def f(l):
        if type(l) is CArr and len(l.shape) == 1:
            n = len(l.items)
            return carr((n, n), [l.items[i] if i == j else ZERO for i in range(n) for j in range(n)])
        return unk('diag')
    return wrap(I, st, mapn(f, (c,)))


@np_fn('roll')
def n_roll(lib, I, st, args, kw):
    c = arr_of(lib, I, st, args[0])
    k = iconst(A(args, kw, 1, 'shift'))

    def f(l):
        if type(l) is CArr and len(l.shape) == 1 and k is not None and l.items:
            n = len(l.items)
            return carr((n,), [l.items[(i - k) % n] for i in range(n)])
        return unk('roll')
    return wrap(I, st, mapn(f, (c,)))


@np_fn('isin')
def n_isin(lib, I, st, args, kw):
    vals = arr_of(lib, I, st, args[1])
    if type(vals) is not CArr:
        return unk('isin')
    return el(lib, I, st, lambda x: bany([mapn(lib.eq_simple, (x, v)) for v in vals.items]), args[0])


@np_fn('unique')
def n_unique(lib, I, st, args, kw):
    return unk('unique')


# ------------------------------------------------------------------ array methods
@method
def arr_method(self, I, st, l, m, args, kw):
    lib = self
    if m == 'reshape':
        return self.arr_reshape(I, st, l, args)
    if m in ('min', 'max', 'sum', 'all', 'any', 'mean', 'prod'):
        return self.fns['numpy.' + m](lib, I, st, [l] + args, kw)
    if m in ('round', 'clip', 'dot', 'repeat', 'cumsum'):
        return self.fns['numpy.' + m](lib, I, st, [l] + args, {('a_min' if k == 'min' else ('a_max' if k == 'max' else k)): v for k, v in kw.items()})
    if m == 'item':
        c = ex(I, st, self.acontent(I, st, l))

        def it(s, x):
            if type(x) is Unk:
                return x
            if args:
                return I.getitem(n_ravel(lib, I, s, [l], {}), args[0], s)
            if type(x) is CArr:
                if len(x.items) != 1:
                    I.do_raise(s, mkexc('ValueError', const('can only convert an array of size 1')))
                return x.items[0]
            if type(x) is SArr:
                raise Unsupported('item of symbolic array')
            return unk('item')
        return I.per_leaf(st, c, it)
    if m == 'astype':
        to = args[0] if args else kw.get('dtype')
        if type(to) is Code and to.a and to.a[0] in ('builtins.int', 'numpy.int64', 'numpy.int32'):
            return el(lib, I, st, lambda x: mapn(lambda q: tonum(q) if is_int_num(tonum(q)) else ite(cmpnum('Lt', tonum(q), ZERO), vneg(vfloor(vneg(tonum(q)))), vfloor(tonum(q))), (x,)), l)
        if type(to) is Code and to.a and to.a[0] in ('builtins.bool', 'numpy.bool_'):
            return el(lib, I, st, lambda x: mapn(T._leaf_truth, (x,)), l)
        return el(lib, I, st, lambda x: mapn(lambda q: tonum(q) if q in (TRUE, FALSE) else q, (x,)), l)
    if m == 'copy':
        return I.newarr(st, self.acontent(I, st, l))
    if m == 'tolist':
        c = ex(I, st, self.acontent(I, st, l))

        def tl(s, x):
            if type(x) is not CArr:
                return unk('tolist')
            if x.shape == ():
                return x.items[0]

            def build(shape, items):
                if len(shape) == 1:
                    return I.newlist(s, items)
                w = len(items) // shape[0] if shape[0] else 0
                return I.newlist(s, [build(shape[1:], items[i * w:(i + 1) * w]) for i in range(shape[0])])
            return build(x.shape, x.items)
        return I.per_leaf(st, c, tl)
    if m in ('flatten', 'ravel'):
        c = ex(I, st, self.acontent(I, st, l))

        def fl(s, x):
            if type(x) is CArr:
                r = carr((len(x.items),), x.items)
                return I.newarr(s, r) if m == 'flatten' else self.newview(I, s, l, r, tuple(range(len(x.items))), r.shape)
            if type(x) is SArr and (x.ndim == 1 or len(x.cols) == 1):
                r = sarr(x.n, x.cols, 1)
                return I.newarr(s, r) if m == 'flatten' else self.newview(I, s, l, r, None, None)
            return unk('flatten')
        return I.per_leaf(st, c, fl)
    if m == 'squeeze':
        c = ex(I, st, self.acontent(I, st, l))

        def sq(s, x):
            if type(x) is CArr:
                sh = tuple(d for d in x.shape if d != 1)
                return self.newview(I, s, l, carr(sh, x.items), tuple(range(len(x.items))), sh)
            if type(x) is SArr and len(x.cols) == 1:
                return self.newview(I, s, l, sarr(x.n, x.cols, 1), None, None)
            if type(x) is SArr:
                return l
            return unk('squeeze')
        return I.per_leaf(st, c, sq)
    if m == 'transpose':
        return I.getattr(l, 'T', st)
    if m == 'fill':
        c = self.acontent(I, st, l)
        self.awrite(I, st, l, mapn(lambda x: ewise(lambda y: args[0], x), (c,)))
        return NONE
    if m == 'view':
        if args and type(args[0]) is Code and args[0].kind == 'class':
            return I.alloc(st, 'inst', {'__arr__': l}, args[0].a[0])
        return l
    if m == '__len__':
        return b_len(lib, I, st, [l], {})
    if m == '__iter__':
        return b_iter(lib, I, st, [l], {})
    if m == '__getitem__':
        return I.getitem(l, args[0], st)
    if m == '__array__':
        return l
    return unk('array method %s' % m)


# ------------------------------------------------------------------ randomness
def fresh(I, sort, lo=None, hi=None, tag='rnd'):
    I.rng_draws += 1
    s = sym('%s%d' % (tag, I.rng_draws), sort, lo, hi)
    return anum(s)


def rnd(lib, I, st, name, size, one):
    lib.event(I, st, 'rng', const(name + ' @ ' + ('%s:%s' % (I.loc()[0], I.loc()[1]) if I.loc() else '')))
    if size is None or size is NONE:
        return one()

    def go(s, dims):
        ds = [iconst(d) for d in dims]
        if any(d is None for d in ds):
            return I.newarr(s, unk('random array'))
        n = 1
        for d in ds:
            n *= d
        if n > 400:
            return I.newarr(s, unk('large random array'))
        return I.newarr(s, carr(tuple(ds), [one() for _ in range(n)]))
    return shape_of(lib, I, st, size, go)


F0, F1 = Fraction(0), Fraction(1)


def gauss(lib, I, st):
    """one standard normal draw"""
    z = fresh(I, 'num', tag='gauss')
    lib.event(I, st, 'gauss', z)
    return z


@fn('numpy.random.rand')
def r_rand(lib, I, st, args, kw):
    return rnd(lib, I, st, 'numpy.random.rand', tup(args) if args else None, lambda: fresh(I, 'num', (F0, False), (F1, True)))


@fn('numpy.random.random', 'numpy.random.random_sample', 'random.random')
def r_random(lib, I, st, args, kw):
    return rnd(lib, I, st, 'numpy.random.random', A(args, kw, 0, 'size'), lambda: fresh(I, 'num', (F0, False), (F1, True)))


@fn('numpy.random.randn')
def r_randn(lib, I, st, args, kw):
    return rnd(lib, I, st, 'numpy.random.randn', tup(args) if args else None, lambda: gauss(lib, I, st))


@fn('numpy.random.normal')
def r_normal(lib, I, st, args, kw):
    loc, scale = A(args, kw, 0, 'loc', ZERO), A(args, kw, 1, 'scale', ONE)
    size = A(args, kw, 2, 'size')
    if size is not None and size is not NONE:
        shapes = [c.shape for c in (lib.acontent(I, st, x) for x in (loc, scale) if type(x) is Ref and I.hget(st, x.oid).kind == 'arr') if type(c) is CArr]

        def fits(s, dims):
            ds = tuple(iconst(d) for d in dims)
            if None not in ds:
                for sh in shapes:
                    if bshape(ds, sh) != ds:
                        I.do_raise(s, mkexc('ValueError', const('Output size is not compatible with broadcast dimensions of inputs')))
            return NONE
        if shapes:
            shape_of(lib, I, st, size, fits)
    z = rnd(lib, I, st, 'numpy.random.normal', size, lambda: gauss(lib, I, st))
    return lib.binop(I, st, 'Add', loc, lib.binop(I, st, 'Mult', scale, z))


@fn('numpy.random.standard_normal')
def r_standard_normal(lib, I, st, args, kw):
    return rnd(lib, I, st, 'numpy.random.standard_normal', A(args, kw, 0, 'size'), lambda: gauss(lib, I, st))


@fn('numpy.random.uniform', 'random.uniform')
def r_uniform(lib, I, st, args, kw):
    lo, hi = A(args, kw, 0, 'low', ZERO), A(args, kw, 1, 'high', ONE)
    z = rnd(lib, I, st, 'numpy.random.uniform', A(args, kw, 2, 'size'), lambda: fresh(I, 'num', (F0, False), (F1, True)))
    return lib.binop(I, st, 'Add', lo, lib.binop(I, st, 'Mult', lib.binop(I, st, 'Sub', hi, lo), z))


@fn('numpy.random.randint', 'random.randint', 'random.randrange')
def r_randint(lib, I, st, args, kw):
    lo, hi = A(args, kw, 0, 'low'), A(args, kw, 1, 'high', NONE)
    if hi is NONE:
        lo, hi = ZERO, lo

    def one():
        a, b = nconst(lo), nconst(hi)
        x = fresh(I, 'int', None if a is None else (a, False), None if b is None else (b - 1, False), tag='draw')
        return x

    def assume(s, v):
        g = band(s.guard, band(cmpnum('GtE', v, lo), cmpnum('Lt', v, hi)))
        if not I.feasible(g):
            raise Dead()
        s.guard = g
    if not (allnum(lo) and allnum(hi)):
        r = rnd(lib, I, st, 'numpy.random.randint', A(args, kw, 2, 'size'), lambda: fresh(I, 'int', tag='draw'))
        return r
    I.raise_if(st, cmpnum('GtE', lo, hi), mkexc('ValueError', const('low >= high')))
    size = A(args, kw, 2, 'size')
    r = rnd(lib, I, st, 'numpy.random.randint', size, one)
    if size is None or size is NONE:
        assume(st, r)
    else:
        c = lib.acontent(I, st, r) if type(r) is Ref else None
        if type(c) is CArr:
            for x in c.items:
                assume(st, x)
    return r


FNS['random.randint'] = lambda lib, I, st, args, kw: r_randint(lib, I, st, [args[0], vadd(args[1], ONE)], {})


@fn('numpy.random.choice', 'random.choice')
def r_choice(lib, I, st, args, kw):
    size = A(args, kw, 1, 'size')
    if size is not None and size is not NONE:
        lib.event(I, st, 'rng', const('numpy.random.choice'))
        return unk('random choice')

    def go(s, its):
        if not its:
            I.do_raise(s, mkexc('ValueError', const('empty')))
        lib.event(I, s, 'rng', const('numpy.random.choice @ ' + ('%s:%s' % (I.loc()[0], I.loc()[1]) if I.loc() else '')))
        k = fresh(I, 'int', (F0, False), (Fraction(len(its) - 1), False), tag='choice')
        r = its[-1]
        for i, x in enumerate(its[:-1]):
            r = ite(cmpnum('Eq', k, num(i)), x, r)
        return r

    def gi(s, l):
        if isnumleaf(l):
            return r_randint(lib, I, s, [ZERO, l], {})
        return I.items_of(l, s, go)
    return I.per_leaf(st, args[0], gi)


@fn('_rng.seeded')
def r_seeded(lib, I, st, args, kw):
    return I.per_leaf(st, args[0], lambda s, l: I.per_leaf(s, args[1], lambda s2, k: anum(sym('seeded[%s,%s]' % (show(l), show(k)), 'num', (F0, False), (F1, True)))))


@fn('_rng.seeded_normal')
def r_seeded_normal(lib, I, st, args, kw):
    return I.per_leaf(st, args[0], lambda s, l: I.per_leaf(s, args[1], lambda s2, k: anum(sym('seededn[%s,%s]' % (show(l), show(k)), 'num'))))


@fn('_rng.unknown')
def r_unknown(lib, I, st, args, kw):
    return unk('seeded draw')


RANDOM_SOURCES = ('numpy.random.', 'random.', 'secrets.', 'uuid.', 'os.urandom', 'os.getrandom', 'time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time',
                  'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.date.today')


@fn('numpy.random.seed', 'random.seed', 'numpy.random.set_state', 'random.setstate')
def r_seed(lib, I, st, args, kw):
    lib.event(I, st, 'rng', const('seed @ ' + ('%s:%s' % (I.loc()[0], I.loc()[1]) if I.loc() else '')))
    return NONE
