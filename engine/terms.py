"""Value domain of the analysis: hash-consed values.

A *value* is either a leaf (constant, canonical rational polynomial, tuple, reference,
uninterpreted application ...) or a decision node ``Dec(atom, kids)`` of an ordered decision
diagram.  Atoms are sign tests of canonical polynomials (three kids: <0, =0, >0) or opaque
boolean tests (two kids: true, false).  All values are interned, so identity is equality of
the canonical form.
"""
from array import array
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)

_table = {}
_n = [0]


def _short(x):
    """a long tuple of values as the bytes of their numbers (cheaper to hash)"""
    if type(x) is tuple and len(x) > 99:
        try:
            return array('q', [o.id for o in x]).tobytes()
        except AttributeError:
            pass
    return x


def _mk(cls, key, init):
    for x in key:
        if type(x) is tuple and len(x) > 99:
            key = tuple([_short(x) for x in key])
            break
    k = (cls,) + key
    o = _table.get(k)
    if o is None:
        o = cls.__new__(cls)
        _n[0] += 1
        o.id = _n[0]
        init(o)
        _table[k] = o
    return o


class Val:
    __slots__ = ('id', 'origin')

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


class Const(Val):
    __slots__ = ('v',)

    def __new__(cls, *a):
        return object.__new__(cls)

    def __repr__(self):
        return repr(self.v)


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)

    def init(o):
        o.v = v
    return _mk(Const, (type(v).__name__, v), init)


def _cinit(v):
    def init(o):
        o.v = v
    return init


TRUE = _mk(Const, ('bool', True), _cinit(True))
FALSE = _mk(Const, ('bool', False), _cinit(False))
NONE = _mk(Const, ('NoneType', None), _cinit(None))
ELL = _mk(Const, ('ellipsis', '...'), _cinit(Ellipsis))
NOTIMPL = _mk(Const, ('NotImplementedType', 'NI'), _cinit(NotImplemented))


class Sym(Val):
    """Free symbol.  sort: num/int/bool/any/arr/fn ; lo/hi: optional bounds (value, strict)."""
    __slots__ = ('name', 'sort', 'lo', 'hi', 'meta')

    def __repr__(self):
        return self.name


def sym(name, sort='num', lo=None, hi=None, meta=None):
    def init(o):
        o.name, o.sort, o.lo, o.hi, o.meta = name, sort, lo, hi, meta
    return _mk(Sym, (name, sort), init)


class App(Val):
    """Uninterpreted / library application."""
    __slots__ = ('fn', 'args', 'sort', 'lo', 'hi')

    def __repr__(self):
        return '%s(%s)' % (self.fn, ', '.join(map(show, self.args)))


def app(fn, args, sort='any', lo=None, hi=None):
    args = tuple(args)

    def init(o):
        o.fn, o.args, o.sort, o.lo, o.hi = fn, args, sort, lo, hi
    return _mk(App, (fn, args, sort), init)


class Num(Val):
    """Rational function p/q in canonical form."""
    __slots__ = ('p', 'q')

    def __repr__(self):
        s = pshow(self.p)
        if self.q == PONE:
            return s
        return '(%s)/(%s)' % (s, pshow(self.q))


class Inf(Val):
    __slots__ = ('s',)

    def __repr__(self):
        return 'inf' if self.s > 0 else '-inf'


class Nan(Val):
    __slots__ = ()

    def __repr__(self):
        return 'nan'


class Ref(Val):
    __slots__ = ('oid',)

    def __repr__(self):
        return '<obj %s>' % self.oid


class Tup(Val):
    __slots__ = ('items',)

    def __repr__(self):
        return '(%s)' % ', '.join(map(show, self.items))


class ListV(Val):
    """reified list"""
    __slots__ = ('items',)

    def __repr__(self):
        return '[%s]' % ', '.join(map(show, self.items))


class DictL(Val):
    """dict content: ordered (key, value) pairs with concrete keys"""
    __slots__ = ('pairs',)

    def __repr__(self):
        return '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in self.pairs)

    def get(self, k):
        for a, b in self.pairs:
            if a is k:
                return b
        return None


class CArr(Val):
    """concrete-shape array: shape tuple of ints, items row major"""
    __slots__ = ('shape', 'items')

    def __repr__(self):
        return 'arr%s[%s]' % (self.shape, ', '.join(map(show, self.items)))


class SArr(Val):
    """array of symbolic length n; cols: body per column over index symbol I0; ndim 1 or 2"""
    __slots__ = ('n', 'cols', 'ndim')

    def __repr__(self):
        return 'sarr(n=%s; %s)' % (show(self.n), ', '.join(map(show, self.cols)))


class Obj(Val):
    """reified instance: class name + fields"""
    __slots__ = ('cls', 'fields')

    def __repr__(self):
        return '%s{%s}' % (self.cls, ', '.join('%s=%s' % (k, show(v)) for k, v in self.fields))


class Code(Val):
    """callable / class / module leaves. kind + payload (host objects, compared by identity)."""
    __slots__ = ('kind', 'a')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.a[0] if self.a else '')


class Unk(Val):
    __slots__ = ('reason',)

    def __repr__(self):
        return '?(%s)' % self.reason


class Absent(Val):
    __slots__ = ()

    def __repr__(self):
        return '<absent>'


def ref(oid):
    def init(o):
        o.oid = oid
    return _mk(Ref, (oid,), init)


def tup(items):
    items = tuple(items)

    def init(o):
        o.items = items
    return _mk(Tup, (items,), init)


def listv(items):
    items = tuple(items)

    def init(o):
        o.items = items
    return _mk(ListV, (items,), init)


def dictl(pairs):
    pairs = tuple((k, v) for k, v in pairs)

    def init(o):
        o.pairs = pairs
    return _mk(DictL, (pairs,), init)


def carr(shape, items):
    shape, items = tuple(shape), tuple(items)
    n = 1
    for s in shape:
        n *= s
    assert n == len(items), (shape, len(items))

    def init(o):
        o.shape, o.items = shape, items
    return _mk(CArr, (shape, items), init)


def sarr(n, cols, ndim):
    cols = tuple(cols)

    def init(o):
        o.n, o.cols, o.ndim = n, cols, ndim
    return _mk(SArr, (n, cols, ndim), init)


def objv(cls, fields):
    fields = tuple(fields)

    def init(o):
        o.cls, o.fields = cls, fields
    return _mk(Obj, (cls, fields), init)


def code(kind, *a):
    key = tuple(x if isinstance(x, (str, int, Val, type(None), tuple)) else ('@', id(x)) for x in a)

    def init(o):
        o.kind, o.a = kind, a
    return _mk(Code, (kind, key), init)


_unk = [0]
unk_log = []


def unk(reason):
    _unk[0] += 1
    n = _unk[0]

    def init(o):
        o.reason = reason
    u = _mk(Unk, (n,), init)
    if len(unk_log) < 2000:
        unk_log.append(reason)
    return u


ABSENT = _mk(Absent, (), lambda o: None)
INF = _mk(Inf, (1,), lambda o: setattr(o, 's', 1))
NINF = _mk(Inf, (-1,), lambda o: setattr(o, 's', -1))
NAN = _mk(Nan, (), lambda o: None)

# ------------------------------------------------------------------ polynomials
# poly: tuple of (mono, Fraction) sorted descending by order; mono: tuple of (atom, exp) by atom.id
_F0, _F1 = Fraction(0), Fraction(1)


def _mkey(m):
    d = 0
    for _, e in m:
        d += e
    return (d, tuple((-a.id, e) for a, e in m))


def _pn(d):
    items = [(m, c) for m, c in d.items() if c]
    items.sort(key=lambda t: _mkey(t[0]), reverse=True)
    return tuple(items)


PZERO = ()
PONE = (((), _F1),)


def pconst(c):
    c = Fraction(c)
    return (((), c),) if c else ()


def patom(a):
    return ((((a, 1),), _F1),)


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, _F0) + c
    return _pn(d)


def pscale(a, k):
    if not k:
        return ()
    return tuple((m, c * k) for m, c in a)


def pneg(a):
    return pscale(a, Fraction(-1))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id))


def pmul(a, b):
    if not a or not b:
        return ()
    if a == PONE:
        return b
    if b == PONE:
        return a
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            m = mmul(m1, m2)
            d[m] = d.get(m, _F0) + c1 * c2
    return _pn(d)


def mdiv(m1, m2):
    d = dict(m1)
    for a, e in m2:
        k = d.get(a, 0) - e
        if k < 0:
            return None
        d[a] = k
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id))


def pdivexact(p, q):
    """p / q if exact else None"""
    if not q:
        return None
    lm, lc = q[0]
    out = {}
    r = p
    steps = 0
    while r:
        m, c = r[0]
        t = mdiv(m, lm)
        if t is None:
            return None
        k = c / lc
        out[t] = out.get(t, _F0) + k
        r = padd(r, pneg(pmul(((t, k),), q)))
        steps += 1
        if steps > 60:
            return None
    return _pn(out)


def patoms(p):
    s = set()
    for m, _ in p:
        for a, _e in m:
            s.add(a)
    return s


def pshow(p):
    if not p:
        return '0'
    out = []
    for m, c in p:
        ms = '*'.join(show(a) + ('^%d' % e if e > 1 else '') for a, e in m)
        if not m:
            out.append(str(c) if c.denominator == 1 else repr(float(c)))
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append('-' + ms)
        else:
            out.append((str(c) if c.denominator == 1 else repr(float(c))) + '*' + ms)
    return ' + '.join(out).replace('+ -', '- ')


def _pgcdmono(*ps):
    """largest monomial dividing every term of every poly"""
    g = None
    for p in ps:
        for m, _ in p:
            dm = dict(m)
            if g is None:
                g = dm
            else:
                g = {a: min(e, dm[a]) for a, e in g.items() if a in dm}
            if not g:
                return ()
    if not g:
        return ()
    return tuple(sorted(g.items(), key=lambda t: t[0].id))


def mknum(p, q=PONE):
    if not p:
        q = PONE
    elif q is not PONE and q != PONE:
        g = _pgcdmono(p, q)
        if g:
            p = tuple((mdiv(m, g), c) for m, c in p)
            q = tuple((mdiv(m, g), c) for m, c in q)
        if len(q) > 1:
            r = pdivexact(p, q)
            if r is not None:
                p, q = r, PONE
            else:
                r = pdivexact(q, p)
                if r is not None:
                    p, q = PONE, r
        k = q[0][1]
        if k != 1:
            p, q = pscale(p, 1 / k), pscale(q, 1 / k)
    else:
        q = PONE

    def init(o):
        o.p, o.q = p, q
    return _mk(Num, (p, q), init)


def num(x):
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else NINF
        return mknum(pconst(Fraction(repr(x))))
    return mknum(pconst(x))


def anum(atom):
    """numeric value of an atom leaf"""
    return mknum(patom(atom))


ZERO, ONE = num(0), num(1)


def nconst(v):
    """Fraction if v is a constant Num else None"""
    if type(v) is Num and v.q == PONE:
        if not v.p:
            return _F0
        if len(v.p) == 1 and not v.p[0][0]:
            return v.p[0][1]
    return None


def iconst(v):
    if v is TRUE:
        return 1
    if v is FALSE:
        return 0
    c = nconst(v)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


def atom_of(v):
    """the atom if v is exactly one atom, else None"""
    if type(v) is Num and v.q == PONE and len(v.p) == 1 and v.p[0][1] == 1 and len(v.p[0][0]) == 1 and v.p[0][0][0][1] == 1:
        return v.p[0][0][0][0]
    return None


# ------------------------------------------------------------------ atoms (tests)
class Atom:
    __slots__ = ('id', 'kind', 'p', 'leaf', 'n')

    def __repr__(self):
        if self.kind == 'sign':
            return 'sign(%s)' % pshow(self.p)
        return 'test(%s)' % show(self.leaf)


_atoms = {}


def sign_atom(p):
    a = _atoms.get(('s', p))
    if a is None:
        a = Atom()
        a.id, a.kind, a.p, a.leaf, a.n = len(_atoms) + 1, 'sign', p, None, 3
        _atoms[('s', p)] = a
    return a


def bool_atom(leaf):
    a = _atoms.get(('b', leaf))
    if a is None:
        a = Atom()
        a.id, a.kind, a.p, a.leaf, a.n = len(_atoms) + 1, 'bool', None, leaf, 2
        _atoms[('b', leaf)] = a
    return a


class Dec(Val):
    __slots__ = ('atom', 'kids')

    def __repr__(self):
        return show(self)


def _node(atom, kids):
    k0 = kids[0]
    if all(k is k0 for k in kids):
        return k0
    if type(k0) is Num and atom.kind == 'sign' and k0 is kids[2] and type(kids[1]) is Num and kids[1].q == k0.q:
        # the value at zero is the same expression, evaluated there
        if primitive(padd(k0.p, pneg(kids[1].p)))[0] == atom.p:
            return k0

    def init(o):
        o.atom, o.kids = atom, kids
    return _mk(Dec, (atom, kids), init)


def _top(vals):
    t = None
    for v in vals:
        if type(v) is Dec and (t is None or v.atom.id < t.id):
            t = v.atom
    return t


def cof(v, atom, b):
    if type(v) is Dec:
        if v.atom is atom:
            return v.kids[b]
        if v.atom.id < atom.id:
            return case(v.atom, tuple(cof(k, atom, b) for k in v.kids))
    return v


def case(atom, kids):
    """decision on atom with arbitrary kids (re-establishes the order)"""
    k0 = kids[0]
    if all(k is k0 for k in kids):
        return k0
    t = _top(kids)
    if t is None or t.id > atom.id:
        return _node(atom, tuple(kids))
    if t is atom:
        kk = tuple(cof(k, atom, i) for i, k in enumerate(kids))
        # below may still contain smaller atoms? no: t is minimal
        return _node(atom, kk)
    return _node(t, tuple(case(atom, tuple(cof(k, t, i) for k in kids)) for i in range(t.n)))


_ite = {}


def _push(a, b):
    """can ite be pushed into the structure of two leaves"""
    ta = type(a)
    if ta is not type(b):
        return False
    if ta in (Tup, ListV):
        return len(a.items) == len(b.items)
    if ta is CArr:
        return a.shape == b.shape
    if ta is DictL:
        return len(a.pairs) == len(b.pairs) and all(x[0] is y[0] for x, y in zip(a.pairs, b.pairs))
    return False


def rebuild(a, items):
    ta = type(a)
    if ta is Tup:
        return tup(items)
    if ta is ListV:
        return listv(items)
    if ta is CArr:
        return carr(a.shape, items)
    if ta is DictL:
        return dictl(zip((k for k, _ in a.pairs), items))
    raise TypeError(ta)


def parts(a):
    if type(a) is DictL:
        return tuple(v for _, v in a.pairs)
    return a.items


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    if _push(a, b):
        r = rebuild(a, [ite(c, x, y) for x, y in zip(parts(a), parts(b))])
    else:
        t = _top((c, a, b))
        if t is None:
            raise TypeError('ite on non-boolean %r' % (c,))
        r = _node(t, tuple(ite(cof(c, t, i), cof(a, t, i), cof(b, t, i)) for i in range(t.n)))
    _ite[k] = r
    return r


_itec = {}


def ite_care(g1, g2, a, b):
    """a where g1, b where g2 (g1, g2 disjoint); anything elsewhere"""
    if a is b or g2 is FALSE or g1 is TRUE:
        return a
    if g1 is FALSE or g2 is TRUE:
        return b
    k = (g1, g2, a, b)
    r = _itec.get(k)
    if r is not None:
        return r
    if _push(a, b):
        r = rebuild(a, [ite_care(g1, g2, x, y) for x, y in zip(parts(a), parts(b))])
    else:
        t = _top((g1, g2, a, b))
        kids = []
        for i in range(t.n):
            c1, c2 = cof(g1, t, i), cof(g2, t, i)
            if c1 is FALSE and c2 is FALSE:
                kids.append(None)
            else:
                kids.append(ite_care(c1, c2, cof(a, t, i), cof(b, t, i)))
        live = [x for x in kids if x is not None]
        if not live:
            r = a
        else:
            fill = live[0]
            r = _node(t, tuple(fill if x is None else x for x in kids))
    _itec[k] = r
    return r


def restrict(v, care, memo=None):
    """simplify v using don't-cares outside care"""
    if memo is None:
        memo = {}
    if care is TRUE or care is FALSE or type(v) is not Dec:
        return v
    k = (v, care)
    if k in memo:
        return memo[k]
    t = _top((v, care))
    kids, ks = [], []
    for i in range(t.n):
        c = cof(care, t, i)
        if c is FALSE:
            kids.append(None)
        else:
            x = restrict(cof(v, t, i), c, memo)
            kids.append(x)
            ks.append(x)
    if not ks:
        r = v
    else:
        r = _node(t, tuple(ks[0] if x is None else x for x in kids))
    memo[k] = r
    return r


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def mapn(f, vals, memo=None):
    if memo is None:
        memo = {}
    vals = tuple(vals)
    r = memo.get(vals)
    if r is not None:
        return r
    t = _top(vals)
    if t is None:
        r = f(*vals)
    else:
        r = case(t, tuple(mapn(f, tuple(cof(v, t, i) for v in vals), memo) for i in range(t.n)))
    memo[vals] = r
    return r


def leaves(v, acc=None, seen=None):
    """distinct leaves of a diagram"""
    if acc is None:
        acc, seen = [], set()
    if v in seen:
        return acc
    seen.add(v)
    if type(v) is Dec:
        for k in v.kids:
            leaves(k, acc, seen)
    else:
        acc.append(v)
    return acc


def cond_is(v, leaf):
    """boolean diagram: v takes this leaf"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if type(x) is Dec:
            r = _node(x.atom, tuple(go(k) for k in x.kids))
        else:
            r = TRUE if x is leaf else FALSE
        memo[x] = r
        return r
    return go(v)


def alternatives(v, guard=TRUE):
    """[(condition, leaf)] for every leaf of v compatible (syntactically) with guard"""
    if type(v) is not Dec:
        return [(TRUE, v)]
    out = []
    for l in leaves(v):
        c = cond_is(v, l)
        if band(guard, c) is not FALSE:
            out.append((c, l))
    return out


# ------------------------------------------------------------------ arithmetic
def bound(a):
    return getattr(a, 'lo', None), getattr(a, 'hi', None)


def _isum(x, y):
    return None if x is None or y is None else (x[0] + y[0], x[1] or y[1])


def _imul(x, y):
    """interval product; intervals are (lo, hi) with lo/hi None or (val, strict)"""
    # only used for nonneg/known-sign reasoning; strictness kept conservative
    (al, ah), (bl, bh) = x, y
    if al is not None and bl is not None and al[0] >= 0 and bl[0] >= 0:
        lo = (al[0] * bl[0], (al[1] or al[0] > 0) and (bl[1] or bl[0] > 0) and (al[1] or bl[1]))
        if al[0] == 0 or bl[0] == 0:
            lo = (Fraction(0), (al[1] or al[0] > 0) and (bl[1] or bl[0] > 0))
        hi = None
        if ah is not None and bh is not None:
            hi = (ah[0] * bh[0], False)
        return lo, hi
    if None not in (al, ah, bl, bh):
        c = [al[0] * bl[0], al[0] * bh[0], ah[0] * bl[0], ah[0] * bh[0]]
        return (min(c), False), (max(c), False)
    if al is not None and al[0] >= 0 and bh is not None and bh[0] <= 0:
        s = (al[1] or al[0] > 0) and (bh[1] or bh[0] < 0)
        return None, (Fraction(0), s)
    if bl is not None and bl[0] >= 0 and ah is not None and ah[0] <= 0:
        return _imul(y, x)
    return None, None


def pinterval(p):
    lo, hi = (_F0, False), (_F0, False)
    for m, c in p:
        iv = ((_F1, False), (_F1, False))
        for a, e in m:
            b = bound(a)
            if e % 2 == 0:
                if b[0] is not None and b[0][0] >= 0:
                    ev = b
                else:
                    ev = None
                if ev is None:
                    iv2 = ((_F0, False), None)
                    iv = _imul(iv, iv2)
                    continue
            for _ in range(e):
                iv = _imul(iv, b)
        l, h = iv
        if c < 0:
            l, h = (None if h is None else (h[0] * c, h[1])), (None if l is None else (l[0] * c, l[1]))
        else:
            l, h = (None if l is None else (l[0] * c, l[1])), (None if h is None else (h[0] * c, h[1]))
        lo, hi = _isum(lo, l), _isum(hi, h)
        if lo is None and hi is None:
            break
    return lo, hi


def ispos(a):
    l = getattr(a, 'lo', None)
    return l is not None and (l[0] > 0 or (l[0] == 0 and l[1]))


def isneg(a):
    h = getattr(a, 'hi', None)
    return h is not None and (h[0] < 0 or (h[0] == 0 and h[1]))


def primitive(p):
    """(primitive poly with positive leading coeff and positive atoms stripped, orientation)"""
    from math import gcd
    g = _pgcdmono(p)
    orient = 1
    if g:
        keep = []
        for a, e in g:
            if ispos(a):
                continue
            if isneg(a):
                if e % 2:
                    orient = -orient
                continue
            # sign(a^e * r): reduce exponent to 1 or 2
            keep.append((a, 1 if e % 2 else 2))
        gm = tuple(g)
        p = tuple((mmul(mdiv(m, gm), tuple(keep)), c) for m, c in p)
        p = _pn(dict(p))
    num_g, den_l = 0, 1
    for _, c in p:
        num_g = gcd(num_g, abs(c.numerator))
        den_l = den_l * c.denominator // gcd(den_l, c.denominator)
    k = Fraction(den_l, num_g)
    if p[0][1] < 0:
        k = -k
        orient = -orient
    return pscale(p, k), orient


def sign_case(v, neg, zero, pos):
    """leaf Num v -> decision on its sign"""
    if type(v) is Inf:
        return pos if v.s > 0 else neg
    p = v.p
    if not p:
        return zero
    if v.q != PONE:
        if len(v.q) > 1 and (len(p) > 1 or p[0][0]):
            up = sign_case(mknum(p), neg, zero, pos)
            return sign_case(mknum(v.q), sign_case(mknum(p), pos, zero, neg), zero, up)
        p = pmul(p, v.q)
    if len(p) == 1 and not p[0][0]:
        return pos if p[0][1] > 0 else neg
    lo, hi = pinterval(p)
    if lo is not None and (lo[0] > 0 or (lo[0] == 0 and lo[1])):
        return pos
    if hi is not None and (hi[0] < 0 or (hi[0] == 0 and hi[1])):
        return neg
    if len(p) > 1:
        # sign of a common factor times the rest: decide both separately
        g = [(a, e) for a, e in _pgcdmono(p) or () if not ispos(a) and not isneg(a)]
        if g:
            a, e = g[0]
            one = anum(a)
            r = mknum(_pn({mdiv(m, ((a, e),)): c for m, c in p}))
            up = sign_case(r, neg, zero, pos)
            return sign_case(one, up if e % 2 == 0 else sign_case(r, pos, zero, neg), zero, up)
    pp, o = primitive(p)
    if o < 0:
        neg, pos = pos, neg
    # half-decided signs
    lo, hi = pinterval(pp)
    a = sign_atom(pp)
    if lo is not None and lo[0] >= 0:
        neg = pos if pos is not zero else zero
        neg = pos
    elif hi is not None and hi[0] <= 0:
        pos = neg
    elif theory[0] is not None and len(pp) > 1:
        fn, fz, fp = theory[0](a)
        n = fn + fz + fp
        if n == 1:
            return neg if fn else zero if fz else pos
        if n == 2:
            if not fn:
                neg = pos
            elif not fp:
                pos = neg
            else:
                zero = neg
    return case(a, (neg, zero, pos))


theory = [None]


def tonum(v):
    """leaf -> numeric leaf (Num/Inf/Nan/Unk) or None"""
    t = type(v)
    if t in (Num, Inf, Nan, Unk):
        return v
    if v is TRUE:
        return ONE
    if v is FALSE:
        return ZERO
    if t is App:
        return anum(v)
    if t is Sym:
        return anum(v)
    return None


def nadd(a, b):
    if type(a) is Num and type(b) is Num:
        if a.q == b.q:
            return mknum(padd(a.p, b.p), a.q)
        return mknum(padd(pmul(a.p, b.q), pmul(b.p, a.q)), pmul(a.q, b.q))
    if Unk in (type(a), type(b)):
        return unk('arith on unknown')
    if Nan in (type(a), type(b)):
        return NAN
    if type(a) is Inf and type(b) is Inf:
        return a if a.s == b.s else NAN
    return a if type(a) is Inf else b


def nneg(a):
    if type(a) is Num:
        return mknum(pneg(a.p), a.q)
    if type(a) is Inf:
        return NINF if a.s > 0 else INF
    if type(a) is Nan:
        return a
    return unk('neg')


def nsub(a, b):
    return nadd(a, nneg(b))


def nmul(a, b):
    if type(a) is Num and type(b) is Num:
        return mknum(pmul(a.p, b.p), pmul(a.q, b.q))
    if Unk in (type(a), type(b)):
        return unk('arith on unknown')
    if Nan in (type(a), type(b)):
        return NAN
    if type(a) is Inf and type(b) is Inf:
        return INF if a.s == b.s else NINF
    i, o = (a, b) if type(a) is Inf else (b, a)
    return sign_case(o, NINF if i.s > 0 else INF, NAN, i)


def ndiv(a, b):
    if type(a) is Num and type(b) is Num:
        if not b.p:
            return app('divzero', (a,), 'num') if a.p else NAN
        return mknum(pmul(a.p, b.q), pmul(a.q, b.p))
    if Unk in (type(a), type(b)):
        return unk('arith on unknown')
    if Nan in (type(a), type(b)):
        return NAN
    if type(b) is Inf:
        return ZERO if type(a) is Num else NAN
    return sign_case(b, nneg(a), NAN, a)


def ncmp(a, b, neg, zero, pos):
    """decision on sign(a-b) for numeric leaves"""
    if Unk in (type(a), type(b)):
        u = unk('compare unknown')
        return case(bool_atom(u), (neg, case(bool_atom(unk('compare unknown')), (zero, pos))))
    if Nan in (type(a), type(b)):
        return None
    if type(a) is Inf or type(b) is Inf:
        sa = a.s if type(a) is Inf else 0
        sb = b.s if type(b) is Inf else 0
        if sa == sb:
            return zero
        return pos if sa > sb else neg
    return sign_case(nsub(a, b), neg, zero, pos)


# ------------------------------------------------------------------ substitution
def subst(v, m, memo=None):
    """replace atoms (leaf -> value) inside v"""
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is not None:
        return r
    t = type(v)
    if v in m:
        r = m[v]
    elif t is Dec:
        kids = [subst(k, m, memo) for k in v.kids]
        if v.atom.kind == 'sign':
            s = subst(mknum(v.atom.p), m, memo)
            r = mapn(lambda x: sign_case(x, *kids) if type(x) in (Num, Inf) else unk('subst sign'), (s,))
        else:
            s = subst(v.atom.leaf, m, memo)
            tr = mapn(_leaf_truth, (s,))
            r = ite(tr, kids[0], kids[1])
    elif t is Num:
        def ev(p):
            acc = ZERO
            for mono, c in p:
                term = num(c)
                for a, e in mono:
                    x = m[a] if a in m else subst(a, m, memo)
                    if type(x) in (Sym, App):
                        x = anum(x)
                    for _ in range(e):
                        term = vmul(term, x)
                acc = vadd(acc, term)
            return acc
        hit = False
        for a in patoms(v.p) | patoms(v.q):
            if a in m or subst(a, m, memo) is not a:
                hit = True
                break
        if not hit:
            r = v
        else:
            r = ev(v.p)
            if v.q != PONE:
                r = vdiv(r, ev(v.q))
    elif t is App:
        args = tuple(subst(x, m, memo) if isinstance(x, Val) else x for x in v.args)
        r = v if args == v.args else rebuild_app(v, args)
    elif t in (Tup, ListV, CArr, DictL):
        ps = parts(v)
        ns = [subst(x, m, memo) for x in ps]
        r = v if all(x is y for x, y in zip(ps, ns)) else rebuild(v, ns)
    elif t is SArr:
        r = sarr(subst(v.n, m, memo), [subst(c, m, memo) for c in v.cols], v.ndim)
    elif t is Obj:
        r = objv(v.cls, [(k, subst(x, m, memo)) for k, x in v.fields])
    else:
        r = v
    memo[v] = r
    return r


_app_rebuilders = {}


def rebuild_app(v, args):
    f = _app_rebuilders.get(v.fn)
    if f:
        return f(args)
    if any(type(a) is Dec for a in args if isinstance(a, Val)):
        return mapn(lambda *xs: app(v.fn, xs, v.sort, v.lo, v.hi), args)
    return app(v.fn, args, v.sort, v.lo, v.hi)


def _leaf_truth(x):
    if x is TRUE or x is FALSE:
        return x
    n = type(x)
    if n is Num:
        return sign_case(x, TRUE, FALSE, TRUE)
    return case(bool_atom(x), (TRUE, FALSE))


def vadd(a, b):
    return mapn(lambda x, y: nadd(tonum(x), tonum(y)), (a, b))


def vsub(a, b):
    return mapn(lambda x, y: nsub(tonum(x), tonum(y)), (a, b))


def vmul(a, b):
    return mapn(lambda x, y: nmul(tonum(x), tonum(y)), (a, b))


def vdiv(a, b):
    return mapn(lambda x, y: ndiv(tonum(x), tonum(y)), (a, b))


def vneg(a):
    return mapn(lambda x: nneg(tonum(x)), (a,))


def vcmp(a, b, neg, zero, pos):
    return mapn(lambda x, y: ncmp(tonum(x), tonum(y), neg, zero, pos), (a, b))


def vlt(a, b):
    return vcmp(a, b, TRUE, FALSE, FALSE)


def vle(a, b):
    return vcmp(a, b, TRUE, TRUE, FALSE)


def veq(a, b):
    return vcmp(a, b, FALSE, TRUE, FALSE)


def vmin(a, b):
    return ite(vle(a, b), a, b)


def vmax(a, b):
    return ite(vle(b, a), a, b)


# ------------------------------------------------------------------ misc
def show(v, depth=0):
    if depth > 14:
        return '...'
    if type(v) is Dec:
        a = v.atom
        if a.kind == 'sign':
            return 'case[%s](<0: %s | =0: %s | >0: %s)' % (pshow(a.p), show(v.kids[0], depth + 1), show(v.kids[1], depth + 1), show(v.kids[2], depth + 1))
        return 'if[%s](%s | %s)' % (show(a.leaf, depth + 1), show(v.kids[0], depth + 1), show(v.kids[1], depth + 1))
    return repr(v)


def has_unk(v, memo=None):
    if memo is None:
        memo = {}
    if v in memo:
        return memo[v]
    memo[v] = False
    t = type(v)
    r = False
    if t is Unk:
        r = True
    elif t is Dec:
        r = any(has_unk(k, memo) for k in v.kids)
        if not r:
            if v.atom.kind == 'bool':
                r = has_unk(v.atom.leaf, memo)
            else:
                r = any(has_unk(a, memo) for a in patoms(v.atom.p))
    elif t is Num:
        r = any(has_unk(a, memo) for a in patoms(v.p) | patoms(v.q))
    elif t is App:
        r = any(has_unk(a, memo) for a in v.args if isinstance(a, Val))
    elif t in (Tup, ListV, CArr, DictL):
        r = any(has_unk(a, memo) for a in parts(v))
    elif t is SArr:
        r = has_unk(v.n, memo) or any(has_unk(a, memo) for a in v.cols)
    elif t is Obj:
        r = any(has_unk(x, memo) for _, x in v.fields)
    memo[v] = r
    return r


I0 = sym('I0', 'int', lo=(Fraction(0), False))
