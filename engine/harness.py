"""Obligation runner: abstractly interprets the specs over the repository and decides their checks."""
import ast
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

sys.setrecursionlimit(20000)
from terms import *
import terms as T
import decide
import interp
from interp import Interp, State, HObj, Dead, Unsupported, mkexc, excname, exc_isa
from program import Program, FuncInfo
import lib as L
import lib2 as L2
from lib import Lib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Timeout(Exception):
    pass


SPEC = {}


def spec(*names):
    def d(f):
        for n in names or (f.__name__,):
            SPEC[n] = f
        return f
    return d


def sname(v):
    if type(v) is Const and isinstance(v.v, str):
        return v.v
    raise Unsupported('spec: name expected')


def frac(v):
    if v is None or v is NONE:
        return None
    c = nconst(v)
    if c is None:
        raise Unsupported('spec: constant expected')
    return c


def bnd(v, strict=False):
    c = frac(v)
    return None if c is None else (c, strict)


def A(args, kw, i, n, d=None):
    if i < len(args):
        return args[i]
    return kw.get(n, d)


@spec('num')
def s_num(lib, I, st, a, k):
    """a real-valued input, optionally with constant bounds (inclusive)"""
    return anum(sym(sname(a[0]), 'num', bnd(A(a, k, 1, 'lo')), bnd(A(a, k, 2, 'hi'))))


@spec('integer')
def s_int(lib, I, st, a, k):
    return anum(sym(sname(a[0]), 'int', bnd(A(a, k, 1, 'lo')), bnd(A(a, k, 2, 'hi'))))


@spec('pos')
def s_pos(lib, I, st, a, k):
    """a positive real-valued input"""
    return anum(sym(sname(a[0]), 'num', (Fraction(0), True), bnd(A(a, k, 1, 'hi'))))


@spec('boolean')
def s_bool(lib, I, st, a, k):
    return case(bool_atom(sym(sname(a[0]), 'bool')), (TRUE, FALSE))


@spec('choice')
def s_choice(lib, I, st, a, k):
    nm = sname(a[0])
    v = a[-1]
    for i, x in reversed(list(enumerate(a[1:-1]))):
        v = ite(case(bool_atom(sym('%s=%d' % (nm, i), 'bool')), (TRUE, FALSE)), x, v)
    return v


@spec('opaque')
def s_opaque(lib, I, st, a, k):
    """an unknown object; callable; meta: sort/lo/hi/shape of its call results"""
    meta = {}
    for kk, vv in k.items():
        if kk == 'shape':
            meta[kk] = tuple(iconst(x) for x in vv.items)
        elif type(vv) is Const:
            meta[kk] = vv.v
        else:
            meta[kk] = bnd(vv)
    return sym(sname(a[0]), 'fn', None, None, tuple(sorted(meta.items())) if False else meta or None)


@spec('series')
def s_series(lib, I, st, a, k):
    """array of symbolic length n with ncol symbolic columns, element bounds lo/hi (per column lists allowed); ndim 1 if ncol is None"""
    nm = sname(a[0])
    n = a[1]
    nc = A(a, k, 2, 'ncol', NONE)
    cols = 1 if nc is NONE else iconst(nc)

    def per(x):
        if x is None or x is NONE:
            return [None] * cols
        if type(x) is Tup:
            return [bnd(y) for y in x.items]
        return [bnd(x)] * cols
    lo, hi = per(A(a, k, 3, 'lo')), per(A(a, k, 4, 'hi'))
    base = sym(nm, 'arr')
    bodies = [anum(app('sel', (base, anum(I0), num(j)), 'num', lo[j], hi[j])) for j in range(cols)]
    return I.newarr(st, sarr(n, bodies, 1 if nc is NONE else 2))


@spec('vector')
def s_vector(lib, I, st, a, k):
    """concrete-shape array of symbols: vector(name, n[, m])"""
    nm = sname(a[0])
    dims = [iconst(x) for x in a[1:]]
    lo, hi = bnd(k.get('lo')), bnd(k.get('hi'))
    n = 1
    for d in dims:
        n *= d
    out = []
    for i in range(n):
        if len(dims) == 1:
            lab = '%s[%d]' % (nm, i)
        else:
            lab = '%s[%d,%d]' % (nm, i // dims[1], i % dims[1])
        out.append(anum(sym(lab, 'num', lo, hi)))
    return I.newarr(st, carr(tuple(dims), out))


@spec('assume')
def s_assume(lib, I, st, a, k):
    c = I.truth(a[0], st)
    I.raise_quiet(st, c)
    return NONE


def raise_quiet(self, st, c):
    st.guard = band(st.guard, c)
    if not self.feasible(st.guard):
        raise Dead()


Interp.raise_quiet = raise_quiet


class Check:
    __slots__ = ('label', 'guard', 'actual', 'expected', 'loc', 'kind')


def add_check(I, st, label, actual, expected, kind='eq'):
    c = Check()
    c.label, c.guard, c.actual, c.expected, c.kind = label, st.guard, actual, expected, kind
    c.loc = I.loc()
    I.obligations.append(c)


def norm(I, st, v):
    v = I.reify(v, st)
    return normv(v)


def normv(v):
    """sequence kind and array/list distinction are not observable differences for the checks"""
    t = type(v)
    if t is Dec:
        return mapn(normv, (v,))
    if t is ListV or t is Tup:
        return tup([normv(x) for x in v.items])
    if t is CArr:
        if v.shape == ():
            return normv(v.items[0])
        if len(v.shape) == 1:
            return tup([normv(x) for x in v.items])
        n = v.shape[0]
        m = len(v.items) // n if n else 0
        return tup([normv(carr(v.shape[1:], v.items[i * m:(i + 1) * m])) for i in range(n)])
    if t is DictL:
        return dictl(sorted([(normv(k), normv(x)) for k, x in v.pairs], key=lambda p: p[0].id if isinstance(p[0], Val) else 0))
    if t is Obj:
        return objv(v.cls, [(k, normv(x)) for k, x in v.fields])
    if v is TRUE or v is FALSE:
        return v
    if t is Sym and v.sort in ('num', 'int'):
        return anum(v)
    return v


@spec('check')
def s_check(lib, I, st, a, k):
    add_check(I, st, sname(a[0]), norm(I, st, a[1]), norm(I, st, a[2]))
    return NONE


@spec('check_ordered')
def s_check_ordered(lib, I, st, a, k):
    """mapping comparison including the order of keys"""
    def f(v):
        v = I.reify(v, st)
        return mapn(lambda x: tup([tup([normv(p), normv(q)]) for p, q in x.pairs]) if type(x) is DictL else normv(x), (v,))
    add_check(I, st, sname(a[0]), f(a[1]), f(a[2]))
    return NONE


@spec('check_true')
def s_check_true(lib, I, st, a, k):
    add_check(I, st, sname(a[0]), I.truth(a[1], st), TRUE, 'true')
    return NONE


@spec('check_same')
def s_check_same(lib, I, st, a, k):
    def f(x, y):
        if x is not y and type(x) is App and type(y) is App and x.fn == y.fn == 'snap':
            if lazy(x.args[0], y.args[0]):
                return T._leaf_truth(unk('lazily computed attribute'))
            return deep(x.args[0], y.args[0])
        return lib.is_op(I, st, x, y)

    def deep(x, y):
        if x is y:
            return TRUE
        if type(x) is Dec or type(y) is Dec:
            return mapn(deep, (I.simp(st, x), I.simp(st, y)))
        if type(x) is type(y):
            if type(x) is Obj and x.cls == y.cls and [k for k, _ in x.fields] == [k for k, _ in y.fields]:
                return conj([(p[1], q[1]) for p, q in zip(x.fields, y.fields)])
            if type(x) in (Tup, ListV) and len(x.items) == len(y.items):
                return conj(zip(x.items, y.items))
            if type(x) is DictL and len(x.pairs) == len(y.pairs) and all(p[0] is q[0] for p, q in zip(x.pairs, y.pairs)):
                return conj([(p[1], q[1]) for p, q in zip(x.pairs, y.pairs)])
        return lib.is_op(I, st, x, y)

    def conj(prs):
        g = TRUE
        for x, y in prs:
            g = band(g, deep(x, y))
            if g is FALSE:
                break
        return g
    add_check(I, st, sname(a[0]), mapn(f, (a[1], a[2])), TRUE, 'true')
    return NONE


def lazy(x, y):
    """the two values differ at most in private attributes that were unset (absent or None) in x: computed on first use"""
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if type(x) is Obj and x.cls == y.cls:
        f, g = dict(x.fields), dict(y.fields)
        return all(k in g and lazy(f[k], g[k]) or k.startswith('_') and k in g and f[k] is NONE for k in f) and all(k in f or k.startswith('_') for k in g)
    if type(x) in (Tup, ListV):
        return len(x.items) == len(y.items) and all(lazy(p, q) for p, q in zip(x.items, y.items))
    if type(x) is DictL:
        return len(x.pairs) == len(y.pairs) and all(p[0] is q[0] and lazy(p[1], q[1]) for p, q in zip(x.pairs, y.pairs))
    return False


@spec('snapshot')
def s_snapshot(lib, I, st, a, k):
    """deep immutable value of an object graph"""
    return frozen(norm(I, st, a[0]))


def frozen(v):
    return mapn(lambda l: app('snap', (l,)), (v,))


@spec('raised')
def s_raised(lib, I, st, a, k):
    """raised(f, *args): True where the call raises one of `exc` (default any), else False; effects are kept"""
    names = k.pop('exc', None)
    if names is None or names is NONE:
        names = [None]
    elif type(names) is Const:
        names = [names.v]
    else:
        names = [x.v for x in names.items]
    ok, bad = lib.attempt(I, st, lambda s: I.call(a[0], a[1:], k, s), names)
    return lib.join(I, st, [(s, FALSE) for s, _ in ok] + [(s, TRUE) for s, _ in bad])


@spec('outcome')
def s_outcome(lib, I, st, a, k):
    """outcome(f, *args): ('ok', value) or ('raise', exception class name)"""
    ok, bad = lib.attempt(I, st, lambda s: I.call(a[0], a[1:], k, s), [None])
    prs = [(s, tup([const('ok'), v])) for s, v in ok]
    prs += [(s, tup([const('raise'), const(excname(e) or '?')])) for s, e in bad]
    return lib.join(I, st, prs)


@spec('other_hashing')
def s_other_hashing(lib, I, st, a, k):
    """other_hashing(f, *args): the call in a process that hashes strings and objects differently"""
    I.hashing = 1
    try:
        return I.call(a[0], a[1:], k, st)
    finally:
        I.hashing = 0


@spec('try_value')
def s_try_value(lib, I, st, a, k):
    """try_value(f, *args): value where the call returns; the raising states are dropped"""
    ok, bad = lib.attempt(I, st, lambda s: I.call(a[0], a[1:], k, s), [None])
    return lib.join(I, st, ok)


@spec('events')
def s_events(lib, I, st, a, k):
    key = ('ev', sname(a[0]))
    o = st.heap.get(key)
    return I.alloc(st, 'list', o.data if o else tup(()))


@spec('clear_events')
def s_clear_events(lib, I, st, a, k):
    st.put(('ev', sname(a[0])), HObj('list', None, tup(())))
    return NONE


@spec('havoc')
def s_havoc(lib, I, st, a, k):
    """havoc(obj, field=value...): set raw attributes (state that a history can reach)"""
    def go(s, l):
        for kk, v in k.items():
            I.raw_setattr(s, l, kk, v)
        return NONE
    return I.per_leaf(st, a[0], go)


@spec('ite_')
def s_ite(lib, I, st, a, k):
    c = I.truth(a[0], st)
    return ite(c, a[1], a[2])


@spec('one_of')
def s_one_of(lib, I, st, a, k):
    """one_of(x, values): x equals one of the numbers"""
    x = I.simp(st, a[0])

    def go(s, l):
        vals = [I.simp(s, v) for v in lib.list_items(I, s, l)]
        rest = []
        for v in vals:
            c = I.simp(s, L.cmpnum('Eq', v, x))
            if c is TRUE:
                return TRUE
            if c is not FALSE:
                rest.append(c)
        r = FALSE
        for c in rest:
            r = bor(r, c)
        return r
    return I.per_leaf(st, a[1], go)


@spec('lit')
def s_lit(lib, I, st, a, k):
    """expected value literal for things that reify to identity"""
    return a[0]


@spec('debug')
def s_debug(lib, I, st, a, k):
    for x in a:
        print('DEBUG', show(normv(I.reify(x, st)))[:3000])
    return NONE


@spec('note')
def s_note(lib, I, st, a, k):
    I.notes.append(show(a[0]))
    return NONE


class _D:
    pass


# ------------------------------------------------------------------ running
class Outcome:
    def __init__(self):
        self.violations = []
        self.undecided = []
        self.proved = 0
        self.refuted = 0
        self.checks = 0
        self.cells = 0
        self.visited = {}
        self.callsites = 0
        self.steps = 0
        self.time = 0
        self.vac = 0
        self.unknown_lib = {}
        self.labels = {}


def new_interp(prog):
    lib = Lib()
    lib.spec_names = SPEC
    I = Interp(prog, lib)
    I.pinned = {}
    I.pinned_frames = {}
    st = State()
    for nm in ('warn', 'rng', 'opaque'):
        st.put(('ev', nm), HObj('list', None, tup(())))
    return lib, I, st


def show_lits(lits, limit=12):
    out = []
    for at, b in (lits or ())[:limit]:
        if at.kind == 'sign':
            out.append('%s %s 0' % (T.pshow(at.p), ('<', '=', '>')[b]))
        else:
            out.append('%s%s' % ('' if b == 0 else 'not ', show(at.leaf)[:100]))
    return out


def kids_of(v):
    t = type(v)
    if t is Dec:
        return list(v.kids)
    if t in (Tup, ListV, CArr):
        return list(v.items)
    if t is DictL:
        return [x for _, x in v.pairs]
    if t is SArr:
        return list(v.cols)
    if t is Obj:
        return [x for _, x in v.fields]
    return []


def find_origin(I, v, e=None, depth=0):
    """source construct that produced the value, or the component of it that differs from what is required"""
    if v is None or depth > 6:
        return None
    ks = kids_of(v)
    es = kids_of(e) if e is not None and type(e) is type(v) else []
    if len(es) == len(ks) and not (type(v) is Dec and e.atom is not v.atom):
        for x, y in zip(ks, es):
            if x is not y:
                o = find_origin(I, x, y, depth + 1)
                if o is not None:
                    return o
    try:
        o = I.origin.get(v)
    except TypeError:
        o = None
    if o is not None:
        return o
    for x in ks:
        if isinstance(x, Val):
            o = find_origin(I, x, None, depth + 1)
            if o is not None:
                return o
    return None


def raise_line(prog, w):
    """the failing line of a library model is one of its documented refusals"""
    try:
        with open(os.path.join(HERE, w[0])) as fh:
            return fh.read().split('\n')[w[2] - 1].strip().startswith('raise')
    except (OSError, IndexError):
        return False


def private(e):
    a = e.args[0] if type(e) is App and e.args else None
    return type(a) is Const and isinstance(a.v, str) and a.v.startswith('_') and not a.v.endswith('__')


def decide_all(prog, I, out, fname, case_, rng, left):
    for c in I.obligations:
        out.checks += 1
        signal.setitimer(signal.ITIMER_REAL, max(2, min(left() / 2, 10 if out.violations else 150)))
        try:
            v = decide.compare(c.guard, c.actual, c.expected, rng)
        except Timeout:
            out.undecided.append(dict(obligation=fname, case=case_, check=c.label, why='time budget (decision)'))
            out.labels.setdefault(c.label, [0, 0, 0])[2] += 1
            continue
        out.cells += v.cells
        lab = out.labels.setdefault(c.label, [0, 0, 0])
        if v.status == 'PROVED':
            out.proved += 1
            lab[0] += 1
        elif v.status == 'REFUTED':
            out.refuted += 1
            lab[1] += 1
            o = find_origin(I, v.actual, v.expected) or find_origin(I, c.actual, c.expected)
            out.violations.append(dict(
                obligation=fname, case=case_, check=c.label,
                construct=('%s:%s (line %d)' % o[:3]) if o else None,
                region=show_lits(v.region), actual=show(v.actual)[:600] if v.actual is not None else None,
                expected=show(v.expected)[:600] if v.expected is not None else None,
                valuation={k: str(x) for k, x in list(v.witness.items())[:60]}))
        else:
            lab[2] += 1
            out.undecided.append(dict(obligation=fname, case=case_, check=c.label, why=v.why, region=show_lits(v.region),
                                      actual=show(v.actual)[:400] if v.actual is not None else None,
                                      expected=show(v.expected)[:400] if v.expected is not None else None))
    groups = {}
    for s, e, w in I.exc[0]:
        groups.setdefault((excname(e), w[:3] if w else None), []).append((s, e, w))
    for (nm, w), lst in groups.items():
        g = FALSE
        for s, e, _ in lst:
            g = bor(g, s.guard)
        out.checks += 1
        signal.setitimer(signal.ITIMER_REAL, max(2, min(left() / 2, 10 if out.violations else 150)))
        res, ver = decide.sat(g, rng)
        lab = out.labels.setdefault('no unexpected exception', [0, 0, 0])
        if res == 'unsat':
            out.proved += 1
            lab[0] += 1
        elif res == 'sat' and w and w[0].startswith('stub') and not raise_line(prog, w):
            lab[2] += 1
            out.undecided.append(dict(obligation=fname, case=case_, check='raises %s at %s' % (nm, w), why='library model does not cover this use'))
        elif res == 'sat' and nm == 'AttributeError' and not (w and w[0].startswith('src/')) and all(private(e) for _, e, _ in lst):
            lab[2] += 1
            out.undecided.append(dict(obligation=fname, case=case_, check='raises %s at %s' % (nm, w), why='a private attribute the rule reads does not exist'))
        elif res == 'sat':
            out.refuted += 1
            lab[1] += 1
            out.violations.append(dict(
                obligation=fname, case=case_, check='raises %s' % nm, construct='%s:%s (line %d)' % (lst[0][2][4][:3] if len(lst[0][2]) > 4 else w) if w else None,
                region=show_lits(ver.region), actual='%s %s' % (nm, show(tup(lst[0][1].args))[:200]), expected='no exception',
                valuation={k: str(x) for k, x in list(ver.witness.items())[:60]}))
        else:
            lab[2] += 1
            out.undecided.append(dict(obligation=fname, case=case_, check='raises %s at %s' % (nm, w), why=ver.why, region=show_lits(ver.region)))


def wanted_events(mod, fname):
    """kinds of events an obligation looks at; others are not recorded"""
    out = set()
    for n in mod.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and (not n.name.startswith('ob_') or n.name == fname):
            for c in ast.walk(n):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'events' and c.args and isinstance(c.args[0], ast.Constant):
                    out.add(c.args[0].value)
    return out


def run_obligation(prog, mod, fname, case_, seconds, seed=1, verbose=False):
    out = Outcome()
    t0 = time.time()
    lib, I, st = new_interp(prog)
    lib.wanted = wanted_events(mod, fname)
    I.quiet = 'warn' not in lib.wanted
    I.deadline = t0 + seconds

    def on_alarm(sig, frm):
        raise Timeout()

    def where():
        w = I.loc()
        return ('%s:%s:%d' % w[:3]) if w else '?'

    def broken(stage, e):
        if isinstance(e, Timeout):
            why = 'time budget (%s)' % stage
        elif isinstance(e, (Unsupported, RecursionError)):
            why = 'unsupported: %s at %s' % (str(e)[:200] or type(e).__name__, where())
        else:
            why = 'engine error %s: %s at %s' % (type(e).__name__, str(e)[:200], where())
        out.undecided.append(dict(obligation=fname, case=case_, check='*', why=why))
        if verbose:
            traceback.print_exc()
    old = signal.signal(signal.SIGALRM, on_alarm)
    try:
        # what was observed before the analysis gave up is still decided
        try:
            signal.setitimer(signal.ITIMER_REAL, seconds * 0.6)
            f = I.mod_attr(mod, fname, st)
            kw = {k: to_val(I, st, v) for k, v in (case_ or {}).items()}
            try:
                I.call(f, [], kw, st)
            except Dead:
                pass
        except Exception as e:
            broken('analysis', e)
        signal.setitimer(signal.ITIMER_REAL, 0)
        rng = random.Random(seed)
        try:
            decide_all(prog, I, out, fname, case_, rng, lambda: t0 + seconds - time.time())
        except Exception as e:
            broken('decision', e)
        if not I.obligations and not out.violations and not out.undecided:
            out.vac += 1
            out.undecided.append(dict(obligation=fname, case=case_, check='(none)', why='no check reached'))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    out.visited = {'%s:%s' % k: v for k, v in I.visited.items() if not k[0].startswith(('stub', 'stubs', 'C', 'common'))}
    out.callsites = I.callsites
    out.steps = I.steps
    out.unknown_lib = dict(lib.opaque_log)
    out.time = time.time() - t0
    return out


def to_val(I, st, v):
    if isinstance(v, (list,)):
        return I.newlist(st, [to_val(I, st, x) for x in v])
    if isinstance(v, tuple):
        return tup([to_val(I, st, x) for x in v])
    if isinstance(v, dict):
        return I.newdict(st, [(const(k), to_val(I, st, x)) for k, x in v.items()])
    if v is None:
        return NONE
    return const(v)


def spec_obligations(mod, tier):
    """[(fname, case)] of a spec module"""
    cases, extra = {}, {}
    for n in mod.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == 'CASES':
                cases = ast.literal_eval(n.value)
            elif n.targets[0].id == 'THOROUGH':
                extra = ast.literal_eval(n.value)
    out = []
    for n in mod.tree.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith('ob_'):
            cs = list(cases.get(n.name, []))
            if tier == 'thorough':
                cs += list(extra.get(n.name, []))
            elif n.name in extra and n.name not in cases:
                continue
            for c in cs or [None]:
                out.append((n.name, c))
    return out
