"""Comparison of value graphs: PROVED / REFUTED (with a valuation) / UNDECIDED."""
from fractions import Fraction
import random
from terms import *
from terms import _F0, _F1, _top
import terms as T


# ------------------------------------------------------------------ linear feasibility
def lp_feasible(cons):
    """cons: list of (poly, rel) rel in '<','=','<=' meaning poly rel 0; monomials are columns.
    Exact rational bound propagation by pivoting (general simplex, strictness by infinitesimals, Bland's
    rule).  Returns False only if the linear relaxation over monomials is infeasible."""
    up, low = {}, {}          # var -> (value, delta)
    rows = {}                 # basic var -> {nonbasic: coeff}
    order = {}
    lin = {}

    def vid(m):
        v = order.get(m)
        if v is None:
            v = order[m] = len(order)
        return v
    for p, r in cons:
        c0 = _F0
        d = {}
        for m, c in p:
            if m == ():
                c0 = c
            else:
                d[m] = c
        if not d:
            if r == '=' and c0 or r == '<' and c0 >= 0 or r == '<=' and c0 > 0:
                return False
            continue
        # normalise so that the first column has coefficient 1
        ms = sorted(d, key=T._mkey)
        k = d[ms[0]]
        key = tuple((m, d[m] / k) for m in ms)
        v = lin.get(key)
        if v is None:
            if len(key) == 1:
                v = vid(key[0][0])
            else:
                v = vid(('row', key))
                rows[v] = {vid(m): c for m, c in key}
            lin[key] = v
        b = -c0 / k
        if r == '=':
            bu = bl = (b, 0)
        elif k > 0:
            bu, bl = (b, -1 if r == '<' else 0), None
        else:
            bu, bl = None, (b, 1 if r == '<' else 0)
        if bu is not None and (v not in up or bu < up[v]):
            up[v] = bu
        if bl is not None and (v not in low or bl > low[v]):
            low[v] = bl
    for v in low:
        if v in up and low[v] > up[v]:
            return False
    n = len(order)
    val = {}
    for v in range(n):
        if v not in rows:
            x = (_F0, _F0)
            if v in low and low[v] > x:
                x = low[v]
            if v in up and up[v] < x:
                x = up[v]
            val[v] = x

    def rowval(r):
        a = b = _F0
        for w, c in r.items():
            x = val[w]
            a += c * x[0]
            b += c * x[1]
        return (a, b)
    for v, r in rows.items():
        val[v] = rowval(r)
    for _ in range(400):
        bad = None
        for v in rows:
            x = val[v]
            if v in low and x < low[v] or v in up and x > up[v]:
                if bad is None or v < bad:
                    bad = v
        if bad is None:
            return True
        r = rows[bad]
        below = bad in low and val[bad] < low[bad]
        target = low[bad] if below else up[bad]
        best = None
        for w, c in r.items():
            inc = (c > 0) == below
            if inc:
                if w in up and val[w] >= up[w]:
                    continue
            else:
                if w in low and val[w] <= low[w]:
                    continue
            if best is None or w < best:
                best = w
        if best is None:
            return False
        # pivot bad <-> best
        c = r.pop(best)
        del rows[bad]
        inv = 1 / c
        nr = {w: -k * inv for w, k in r.items()}
        nr[bad] = inv
        val[bad] = target
        for v, q in rows.items():
            k = q.pop(best, None)
            if k:
                for w, kk in nr.items():
                    x = q.get(w, _F0) + k * kk
                    if x:
                        q[w] = x
                    else:
                        q.pop(w, None)
        rows[best] = nr
        for v, q in rows.items():
            val[v] = rowval(q)
    return True


REL = {0: '<', 1: '=', 2: '>'}


def lit_con(atom, b):
    p = atom.p
    if b == 0:
        return (p, '<')
    if b == 1:
        return (p, '=')
    return (pneg(p), '<')


def bound_cons(atoms):
    out = []
    for a in atoms:
        lo, hi = bound(a)
        if lo is not None:
            out.append((padd(pconst(lo[0]), pneg(patom(a))), '<' if lo[1] else '<='))
        if hi is not None:
            out.append((padd(patom(a), pconst(-hi[0])), '<' if hi[1] else '<='))
    return out


lemma_hooks = []


def side_cons(polys):
    """bounds of atoms, sign of monomials, library lemmas"""
    atoms, monos = set(), set()
    for p in polys:
        for m, _ in p:
            if len(m) > 1 or (m and m[0][1] > 1):
                monos.add(m)
            for a, _e in m:
                atoms.add(a)
    extra = []
    for h in lemma_hooks:
        extra.extend(h(atoms))
    for p, _ in extra:
        atoms |= patoms(p)
        for m, _c in p:
            if len(m) > 1 or (m and m[0][1] > 1):
                monos.add(m)
    out = extra + bound_cons(atoms)
    for m in monos:
        mp = ((m, _F1),)
        lo, hi = pinterval(mp)
        if lo is not None:
            out.append((padd(pconst(lo[0]), pneg(mp)), '<' if lo[1] else '<='))
        if hi is not None:
            out.append((padd(mp, pconst(-hi[0])), '<' if hi[1] else '<='))
        # x*y with 0<=x<=h and y>=0: x*y <= h*y
        if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
            for (a, _), (b, _) in ((m[0], m[1]), (m[1], m[0])):
                la, ha = bound(a)
                lb, _hb = bound(b)
                if lb is not None and lb[0] >= 0:
                    if ha is not None:
                        out.append((padd(mp, pscale(patom(b), -ha[0])), '<='))
                    if la is not None:
                        out.append((padd(pscale(patom(b), la[0]), pneg(mp)), '<='))
    return out


_feas = {}
stats = {'lp': 0, 'cells': 0, 'samples': 0}


def psub(p, a, sol):
    """substitute atom a by polynomial sol in p (polynomial)"""
    hit = False
    for m, _ in p:
        for x, _k in m:
            if x is a:
                hit = True
                break
        if hit:
            break
    if not hit:
        return p
    keep, acc = [], ()
    for t in p:
        m, c = t
        e = 0
        for x, k in m:
            if x is a:
                e = k
        if not e:
            keep.append(t)
            continue
        q = ((tuple(y for y in m if y[0] is not a), c),)
        for _ in range(e):
            q = pmul(q, sol)
        acc = padd(acc, q)
    return padd(tuple(keep), acc)


def solve_eqs(lits):
    """use '=' literals that are linear with constant coefficient in some atom to build a substitution"""
    subs = []
    pend = [(a.p, b) for a, b in lits if a.kind == 'sign']
    eqs = [q for p, b in pend if b == 1 for q in _split_zero(p)]
    ine = [(p, b) for p, b in pend if b != 1]
    prog = True
    while prog:
        prog = False
        for i, p in enumerate(eqs):
            best = None
            if not p:
                continue
            for m, c in p:
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if sum(1 for mm, _ in p for x, _e in mm if x is a) == 1:
                        if best is None or a.id > best[0].id:
                            best = (a, c)
            if best is None:
                continue
            a, c = best
            sol = pscale(padd(p, pscale(patom(a), -c)), -1 / c)
            subs.append((a, sol))
            eqs = [r for j, q in enumerate(eqs) if j != i for r in _split_zero(_prim(psub(q, a, sol)))]
            ine = [(psub(q, a, sol), b) for q, b in ine]
            prog = True
            break
    return subs, eqs, ine


def _split_zero(p):
    """a sum of non-negative terms is zero only if every term is"""
    if len(p) < 2:
        return [p]
    up = p[0][1] > 0
    for m, c in p:
        if not m or (c > 0) != up:
            return [p]
        lo = pinterval(((m, Fraction(1)),))[0]
        if lo is None or lo[0] < 0:
            return [p]
    return [_prim(((m, Fraction(1)),)) for m, c in p]


def _prim(p):
    """equation p = 0 with factors known to be non-zero removed"""
    if not p or (len(p) == 1 and not p[0][0]):
        return p
    return primitive(p)[0]


def _strict(p):
    """p < 0, tightened to p + 1 <= 0 when p is integer valued"""
    for m, c in p:
        if c.denominator != 1:
            return (p, '<')
        for a, _e in m:
            if getattr(a, 'sort', None) != 'int':
                return (p, '<')
    return (padd(p, PONE), '<=')


link_hooks = []
_links = {}


def links(at):
    """what a sign literal is about: its atoms and the arrays behind them"""
    r = _links.get(at)
    if r is None:
        r = set()
        for x in patoms(at.p):
            r.add(x)
            for h in link_hooks:
                r.update(h(x))
        _links[at] = r
    return r


def feasible(lits):
    """lits: tuple of (atom, branch). Sound 'infeasible' answer; 'feasible' may be spurious."""
    key = frozenset((a, b) for a, b in lits if a.kind == 'sign')
    r = _feas.get(key)
    if r is None:
        r = True
        for comp in components(key):
            k2 = frozenset(comp)
            c = _feas.get(k2)
            if c is None:
                c = _feas[k2] = _feasible(tuple(sorted(k2, key=lambda t: t[0].id)))
            if not c:
                r = False
                break
        _feas[key] = r
    return r


_single = {}


def possible_signs(a):
    """which signs of the polynomial of a sign atom are possible at all"""
    r = _single.get(a)
    if r is None:
        r = _single[a] = tuple(feasible(((a, b),)) for b in range(3))
    return r


import terms as _T
_T.theory[0] = possible_signs


def components(lits):
    """groups of literals that share no quantity"""
    comps = []
    for l in lits:
        ls = set(links(l[0]))
        mem = [l]
        rest = []
        for cs, cm in comps:
            if cs & ls:
                ls |= cs
                mem += cm
            else:
                rest.append((cs, cm))
        comps = rest + [(ls, mem)]
    return [m for _, m in comps]


def _feasible(sl):
    stats['lp'] += 1
    subs, eqs, ine = solve_eqs(sl)
    cons = []
    for p in eqs:
        if len(p) == 1 and not p[0][0]:
            return False
        if p:
            cons.append((p, '='))
    for p, b in ine:
        if not p:
            return False
        if len(p) == 1 and not p[0][0]:
            if (p[0][1] < 0) != (b == 0):
                return False
            continue
        pp, o = primitive(p)
        neg = (b == 0) == (o > 0)
        lo, hi = pinterval(pp)
        if neg and lo is not None and lo[0] >= 0 or not neg and hi is not None and hi[0] <= 0:
            return False
        for q in eqs:
            if q and pdivexact(pp, q) is not None:
                return False
        cons.append(_strict(pp if neg else pneg(pp)))
    if not sl:
        return True

    def sub(p):
        for a2, s2 in subs:
            p = psub(p, a2, s2)
        return p
    ex = []
    for a, sol in subs:
        for p, rel in bound_cons([a]):
            p = sub(p)
            if len(p) == 1 and not p[0][0]:
                c = p[0][1]
                if c > 0:
                    return False
            elif not p:
                if rel == '<':
                    return False
            else:
                ex.append((p, rel))
    cons = cons + ex
    polys = [p for p, _ in cons] + [a.p for a, _ in sl]
    side2 = []
    for p, rel in side_cons(polys):
        p = sub(p)
        if not p:
            if rel == '<':
                return False
            continue
        side2.append((p, rel))
    if not lp_feasible(cons + side2):
        return False
    # products of constraints with quantities of known sign (only if non-linear terms are present)
    monos = set()
    for p, _ in cons:
        for m, _c in p:
            if len(m) > 1 or (m and m[0][1] > 1):
                monos.add(m)
    if not monos:
        return True
    mult = {}
    for m in monos:
        for a, _e in m:
            lo, hi = bound(a)
            if lo is not None and lo[0] >= 0:
                mult[a] = (patom(a), lo[0] > 0 or lo[1])
    for p, rel in cons + side2:
        if rel != '=' and len(p) <= 4 and all(len(m) == 0 or len(m) == 1 and m[0][1] == 1 for m, _ in p):
            vs = patoms(p)
            if any(a in vs for m in monos for a, _e in m):
                mult.setdefault(p, (pneg(p), rel == '<'))
    prods = []
    seen = set()
    for _k, (f, fs) in mult.items():
        for p, rel in cons + side2:
            if all(not m for m, _ in p):
                continue
            q = pmul(f, p)
            if q in seen or not q or len(q) > 10:
                continue
            nl = [m for m, _ in q if len(m) > 1 or (m and m[0][1] > 1)]
            if nl and sum(1 for m in nl if m not in monos) <= (0 if len(nl) < 2 else 1):
                seen.add(q)
                prods.append((q, '=' if rel == '=' else ('<' if fs and rel == '<' else '<=')))
    if not prods:
        return True
    side3 = side_cons([p for p, _ in prods])
    side3 = [(sub(p), rel) for p, rel in side3]
    if any(not p and rel == '<' for p, rel in side3):
        return False
    allc = cons + side2 + prods[:250] + [c for c in side3 if c[0]]
    stats['prod'] = stats.get('prod', 0) + 1
    return lp_feasible(allc)


# ------------------------------------------------------------------ concretisation
class Taint(Exception):
    pass


class Conflict(Exception):
    pass


FREE = set()       # App functions that may be valued freely (as functions of their arguments)
CONC = {}          # App fn -> python function on concrete values


class Env:
    def __init__(self, rng, assign=None, tests=None):
        self.rng = rng
        self.assign = dict(assign or {})   # atom -> Fraction/other
        self.tests = dict(tests or {})     # bool atom -> bool
        self.funs = {}
        self.memo = {}
        self.busy = set()
        self.foralls = [(at.leaf.args[0], b) for at, b in self.tests.items()
                        if type(at.leaf) is App and (at.leaf.fn == 'aall' and b or at.leaf.fn == 'aany' and not b)
                        and at.leaf.args and type(at.leaf.args[0]) is SArr]

    def pick_element(self, a, k):
        """value of an array element, respecting the known facts about all elements of that array"""
        idx = [x for x in k[1] if isinstance(x, Fraction)][:1]
        if not idx or not self.foralls or k in self.busy:
            return self.pick(a)
        self.busy.add(k)
        try:
            for t in range(24):
                v = self.pick(a) if t % 3 == 0 else Fraction(self.rng.choice([0, 1, 1, 2, -1]))
                lo, hi = bound(a)
                if lo and (v < lo[0] or lo[1] and v == lo[0]) or hi and (v > hi[0] or hi[1] and v == hi[0]):
                    continue
                self.funs[k] = v
                keep = dict(self.assign), dict(self.tests)
                ok = True
                for arr, want in self.foralls:
                    for c in arr.cols:
                        if bool(self.val(subst(c, {I0: num(idx[0])}))) != want:
                            ok = False
                if ok:
                    return v
                self.assign, self.tests = keep
                del self.funs[k]
            return self.pick(a)
        finally:
            self.busy.discard(k)

    def pick(self, a):
        lo, hi = bound(a)
        sort = getattr(a, 'sort', 'num')
        r = self.rng
        l = lo[0] if lo else None
        h = hi[0] if hi else None
        if sort == 'int':
            if l is not None and h is not None:
                v = Fraction(r.randint(int(l), int(h)))
            elif l is not None:
                v = Fraction(int(l) + r.randint(0, 6))
            elif h is not None:
                v = Fraction(int(h) - r.randint(0, 6))
            else:
                v = Fraction(r.randint(-4, 6))
            if lo and lo[1] and v == l:
                v += 1
            if hi and hi[1] and v == h:
                v -= 1
            return v
        base = Fraction(r.choice([0, 1, 1, 2, 3, 5, 7, 10, 13]), r.choice([1, 1, 1, 2, 3]))
        if l is not None and h is not None:
            v = l + (h - l) * Fraction(r.randint(0, 12), 12)
        elif l is not None:
            v = l + base
        elif h is not None:
            v = h - base
        else:
            v = base * r.choice([1, 1, -1])
        if lo and lo[1] and v == l:
            v += Fraction(1, 3) if h is None else (h - l) / 7
        if hi and hi[1] and v == h:
            v -= Fraction(1, 3) if l is None else (h - l) / 7
        return v

    def atom(self, a):
        if a in self.assign:
            return self.assign[a]
        t = type(a)
        if t is Sym:
            if a.sort in ('num', 'int'):
                v = self.pick(a)
            elif a.sort == 'bool':
                v = self.rng.random() < .5
            else:
                v = ('sym', a.name)
            self.assign[a] = v
            return v
        if t is App:
            v = self.appval(a)
            self.assign[a] = v
            return v
        if t is Unk:
            raise Taint(a.reason)
        raise Taint('atom %r' % (a,))

    def appval(self, a):
        if a.fn in CONC:
            args = [self.val(x) if isinstance(x, Val) else x for x in a.args]
            return CONC[a.fn](*args)
        if a.fn in FREE or a.fn.startswith('free:'):
            args = tuple(hashable(self.val(x)) if isinstance(x, Val) else x for x in a.args)
            k = (a.fn, args)
            if k not in self.funs:
                if a.sort in ('num', 'int'):
                    self.funs[k] = self.pick_element(a, k) if a.fn == 'sel' else self.pick(a)
                elif a.sort == 'bool':
                    self.funs[k] = self.rng.random() < .5
                else:
                    self.funs[k] = ('app', k)
            return self.funs[k]
        raise Taint('library function %s' % a.fn)

    def poly(self, p):
        s = _F0
        for m, c in p:
            t = c
            for a, e in m:
                x = self.atom(a)
                if x is True or x is False:
                    x = Fraction(int(x))
                if isinstance(x, (int,)):
                    x = Fraction(x)
                if not isinstance(x, Fraction):
                    raise Taint('non numeric %r' % (x,))
                t *= x ** e
            s += t
        return s

    def test(self, at):
        if at.kind == 'sign':
            v = self.poly(at.p)
            return 0 if v < 0 else (1 if v == 0 else 2)
        if at in self.tests:
            return 0 if self.tests[at] else 1
        l = at.leaf
        if type(l) is Unk:
            raise Taint(l.reason)
        v = self.val(l)
        if isinstance(v, tuple) and v and v[0] in ('sym', 'app'):
            b = self.rng.random() < .5
        else:
            b = bool(v)
        self.tests[at] = b
        return 0 if b else 1

    def val(self, v):
        t = type(v)
        if t is Dec:
            return self.val(v.kids[self.test(v.atom)])
        if t is Num:
            q = self.poly(v.q)
            if q == 0:
                return ('divzero',)
            return self.poly(v.p) / q
        if t is Const:
            return v.v if not isinstance(v.v, str) else v.v
        if t in (Sym, App, Unk):
            return self.atom(v)
        if t is Inf:
            return float('inf') if v.s > 0 else float('-inf')
        if t is Nan:
            return 'nan'
        if t is Tup:
            return ('T',) + tuple(self.val(x) for x in v.items)
        if t is ListV:
            return ('L',) + tuple(self.val(x) for x in v.items)
        if t is CArr:
            return ('A', v.shape) + tuple(self.val(x) for x in v.items)
        if t is DictL:
            return ('D',) + tuple((self.val(k), self.val(x)) for k, x in v.pairs)
        if t is SArr:
            n = self.val(v.n)
            if not isinstance(n, Fraction):
                raise Taint('array length')
            out = []
            for i in range(min(int(n), 12)):
                row = [self.val(subst(c, {I0: num(i)})) for c in v.cols]
                out.append(tuple(row))
            return ('S', n) + tuple(out)
        if t is Obj:
            return ('O', v.cls) + tuple((k, self.val(x)) for k, x in v.fields)
        if t is Code:
            return ('code', v.kind) + tuple(x if isinstance(x, (str, int)) else (id(x) if not isinstance(x, Val) else x.id) for x in v.a)
        if t is Ref:
            return ('ref', v.oid)
        if t is Absent:
            return ('absent',)
        raise Taint(str(t))


def hashable(x):
    return x


def differs(x, y):
    """two concretised values definitely differ"""
    if isinstance(x, bool) and isinstance(y, Fraction):
        return Fraction(int(x)) != y
    if isinstance(y, bool) and isinstance(x, Fraction):
        return Fraction(int(y)) != x
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return True
        if x and x[0] == 'D' and y[0] == 'D':
            dx, dy = dict(x[1:]), dict(y[1:])
            if set(dx) != set(dy):
                return True
            return any(differs(dx[k], dy[k]) for k in dx)
        return any(differs(a, b) for a, b in zip(x, y))
    return x != y


_taint = {}


def tainted(v):
    """does the value rest on something the analysis does not know (so that no valuation of it means anything)?"""
    r = _taint.get(v)
    if r is not None:
        return r
    _taint[v] = False
    t = type(v)
    if t is Unk:
        r = True
    elif t is App:
        r = (v.fn not in FREE and v.fn not in CONC and not v.fn.startswith('free:')) or any(tainted(x) for x in v.args if isinstance(x, Val))
    elif t is Num:
        r = any(tainted(a) for a in patoms(v.p) | patoms(v.q))
    elif t is Dec:
        r = any(tainted(k) for k in v.kids) or lit_tainted(v.atom)
    elif t in (Tup, ListV, CArr):
        r = any(tainted(x) for x in v.items)
    else:
        r = False
    _taint[v] = r
    return r


def lit_tainted(at):
    return tainted(at.leaf) if at.kind == 'bool' else any(tainted(a) for a in patoms(at.p))


def find_env(lits, rng, tries=60, start=None):
    """search a valuation satisfying the literals (repair search). Yields Envs."""
    if any(lit_tainted(a) for a, _ in lits if a.kind == 'bool'):
        return
    subs, eqs, ine = solve_eqs(lits)
    tests = {a: (b == 0) for a, b in lits if a.kind == 'bool'}
    atoms = set()
    for p in eqs:
        atoms |= patoms(p)
    for p, _ in ine:
        atoms |= patoms(p)
    for a, s in subs:
        atoms |= patoms(s)
    # only Sym and FREE apps can be set directly
    bad = [a for a in atoms if type(a) is App and a.fn not in FREE and not a.fn.startswith('free:') and a.fn in CONC]
    settable = [a for a in atoms if type(a) is Sym or (type(a) is App and a not in bad)]
    cons = [(p, '=') for p in eqs] + [((p, '<') if b == 0 else (pneg(p), '<')) for p, b in ine]
    extra = []
    for h in lemma_hooks:
        extra.extend(h(atoms | {a for a, _ in subs}))
    bc = bound_cons([a for a, _ in subs] + settable) + extra

    def subst_all(p):
        for a, s in subs:
            p = psub(p, a, s)
        return p
    bc = [(subst_all(p), r) for p, r in bc]
    bc = [(p, r) for p, r in bc if p]
    allc = cons + bc
    for p, r in bc:
        for a in patoms(p):
            if a not in settable and (type(a) is Sym or a not in bad):
                settable.append(a)
    free = [a for a in settable if all(a is not s for s, _ in subs)]
    for n in range(tries):
        stats['samples'] += 1
        env = Env(rng, tests=tests)
        val = {a: env.pick(a) if n or not start or not isinstance(start.get(a), Fraction) else start[a] for a in free}
        ok = False
        for it in range(60):
            viol = []
            for p, r in allc:
                try:
                    x = _pev(p, val)
                except KeyError:
                    continue
                if (r == '<' and not x < 0) or (r == '=' and x != 0) or (r == '<=' and x > 0):
                    viol.append((p, r, x))
            if not viol:
                ok = True
                break
            p, r, x = rng.choice(viol)
            cand = [a for a in patoms(p) if a in val]
            if not cand:
                break
            a = rng.choice(cand)
            # p as k*a + rest, if linear in a
            k, rest = _F0, _F0
            lin = True
            for m, c in p:
                t = c
                e = 0
                for y, ey in m:
                    if y is a:
                        e = ey
                    else:
                        if y not in val:
                            lin = False
                            break
                        t *= val[y] ** ey
                if e == 0:
                    rest += t
                elif e == 1:
                    k += t
                else:
                    lin = False
            if not lin or k == 0:
                val[a] = env.pick(a)
                continue
            root = -rest / k
            if r == '=':
                nv = root
            else:
                d = Fraction(rng.choice([1, 1, 2, 3, 5, 1]), rng.choice([1, 1, 2, 4, 10]))
                if r == '<=' and rng.random() < .3:
                    d = _F0
                nv = root - d if k > 0 else root + d
            if a.sort == 'int':
                import math
                nv = Fraction(math.floor(nv) if k > 0 else math.ceil(nv))
            val[a] = nv
        if not ok:
            continue
        # back substitution
        try:
            for a, s in reversed(subs):
                val[a] = _pev(s, val)
        except KeyError:
            pass
        if any(a.sort == 'int' and val[a].denominator != 1 for a in val):
            continue
        env.assign.update(val)
        # consistency of function applications
        try:
            for a in list(val):
                if type(a) is App:
                    env.assign.pop(a)
                    if a.fn in FREE or a.fn.startswith('free:'):
                        args = tuple(hashable(env.val(x)) if isinstance(x, Val) else x for x in a.args)
                        kk = (a.fn, args)
                        if kk in env.funs and env.funs[kk] != val[a]:
                            raise Conflict()
                        env.funs[kk] = val[a]
                    elif a.fn in CONC and env.appval(a) != val[a]:
                        raise Conflict()
                    env.assign[a] = val[a]
            for at, want in tests.items():
                l = at.leaf
                if type(l) is App and l.fn in CONC and bool(env.val(l)) != want:
                    raise Conflict()
        except (Conflict, Taint):
            continue
        yield env


def _pev(p, val):
    s = _F0
    for m, c in p:
        t = c
        for a, e in m:
            t *= val[a] ** e
        s += t
    return s


# ------------------------------------------------------------------ comparison
class Budget(Exception):
    pass


class Verdict:
    __slots__ = ('status', 'why', 'witness', 'region', 'actual', 'expected', 'cells')

    def __repr__(self):
        return '%s %s' % (self.status, self.why)


def leaf_eq(a, e, lits, budget):
    if a is e:
        return True
    ta, te = type(a), type(e)
    if ta is TRUE or ta is FALSE:
        pass
    na = a if ta is Num else (tonum(a) if a in (TRUE, FALSE) or ta in (Sym, App) and te is Num else None)
    ne = e if te is Num else (tonum(e) if e in (TRUE, FALSE) or te in (Sym, App) and ta is Num else None)
    if type(na) is Num and type(ne) is Num:
        d = padd(pmul(na.p, ne.q), pneg(pmul(ne.p, na.q)))
        if not d:
            return True
        subs, eqs, ine = solve_eqs(lits)
        for at, s in subs:
            d = psub(d, at, s)
        if not d:
            return True
        for p in eqs:
            if p and pdivexact(d, p) is not None:
                return True
        if any(b == 1 for _, b in lits) or True:
            # entailment d = 0 by linear reasoning (only useful if something can force equality)
            pp, _o = primitive(d)
            at = sign_atom(pp)
            if not feasible(lits + ((at, 0),)) and not feasible(lits + ((at, 2),)):
                return True
        # apps inside may be equal modulo literals
        if _apps_equal_mod(na, ne, lits, budget):
            return True
        return False
    if ta is not te:
        return False
    if ta is Tup or ta is ListV:
        return len(a.items) == len(e.items) and all(walk_eq(x, y, lits, budget) for x, y in zip(a.items, e.items))
    if ta is CArr:
        return a.shape == e.shape and all(walk_eq(x, y, lits, budget) for x, y in zip(a.items, e.items))
    if ta is DictL:
        if len(a.pairs) != len(e.pairs):
            return False
        de = {k: v for k, v in e.pairs}
        for k, v in a.pairs:
            if k not in de or not walk_eq(v, de[k], lits, budget):
                return False
        return True
    if ta is SArr:
        return a.ndim == e.ndim and len(a.cols) == len(e.cols) and walk_eq(a.n, e.n, lits, budget) and all(
            walk_eq(x, y, lits, budget) for x, y in zip(a.cols, e.cols))
    if ta is Obj:
        if a.cls != e.cls or len(a.fields) != len(e.fields):
            return False
        de = dict(e.fields)
        return all(k in de and walk_eq(v, de[k], lits, budget) for k, v in a.fields)
    if ta is App:
        return a.fn == e.fn and len(a.args) == len(e.args) and all(
            (walk_eq(x, y, lits, budget) if isinstance(x, Val) and isinstance(y, Val) else x == y) for x, y in zip(a.args, e.args))
    return False


def _apps_equal_mod(na, ne, lits, budget):
    A = [x for x in patoms(na.p) | patoms(na.q) if type(x) is App]
    B = [x for x in patoms(ne.p) | patoms(ne.q) if type(x) is App]
    m = {}
    for x in A:
        for y in B:
            if x is not y and x.fn == y.fn and leaf_eq(x, y, lits, budget):
                m[x] = anum(y)
    if not m:
        return False
    r = subst(na, m)
    return r is not na and walk_eq(r, ne, lits, budget)


def walk_eq(a, e, lits, budget):
    fails = []
    _walk(TRUE, a, e, lits, fails, budget, stop=True)
    return not fails


def _walk(g, a, e, lits, fails, budget, stop=False):
    if g is FALSE or a is e:
        return
    t = _top((g, a, e))
    if t is None:
        budget[0] -= 1
        if budget[0] < 0:
            raise Budget()
        stats['cells'] += 1
        if not leaf_eq(a, e, lits, budget):
            fails.append((lits, a, e))
        return
    known = None
    for at, b in lits:
        if at is t:
            known = b
            break
    for i in range(t.n):
        if known is not None and known != i:
            continue
        g2 = cof(g, t, i)
        if g2 is FALSE:
            continue
        a2, e2 = cof(a, t, i), cof(e, t, i)
        if a2 is e2:
            continue
        l2 = lits if known is not None else lits + ((t, i),)
        if known is None and not feasible(l2):
            continue
        _walk(g2, a2, e2, l2, fails, budget, stop)
        if fails and (stop or len(fails) > 40):
            return


_starts = {}


def _sampled_fails(guard, actual, expected, rng, extra, tries=6):
    """cells (as in _walk) with different leaves, found by following random valuations"""
    out = []
    for _ in range(tries):
        path = _random_path(guard, rng, tuple(extra), [60])
        if path is None:
            continue
        for env in find_env(path, rng, 3):
            lits, known = path, dict(path)
            g, a, e = guard, actual, expected
            try:
                while True:
                    t = _top((g, a, e))
                    if t is None or g is FALSE:
                        break
                    i = known.get(t)
                    if i is None:
                        i = env.test(t)
                        known[t] = i
                        lits += ((t, i),)
                    g, a, e = cof(g, t, i), cof(a, t, i), cof(e, t, i)
            except Taint:
                break
            if g is TRUE and a is not e and not _same_leaf(a, e):
                _starts[lits] = dict(env.assign)
                out.append((lits, a, e))
            break
    return out


def _random_path(g, rng, lits, budget):
    """literals of a path to TRUE"""
    if g is TRUE:
        return lits
    if g is FALSE or type(g) is not Dec or budget[0] <= 0:
        return None
    budget[0] -= 1
    known = dict(lits).get(g.atom)
    order = list(range(len(g.kids)))
    rng.shuffle(order)
    for i in order:
        if known is not None and i != known or g.kids[i] is FALSE:
            continue
        l2 = lits if known is not None else lits + ((g.atom, i),)
        if known is None and g.atom.kind == 'sign' and not feasible(l2):
            continue
        r = _random_path(g.kids[i], rng, l2, budget)
        if r is not None:
            return r
    return None


def _same_leaf(a, e):
    try:
        return leaf_eq(a, e, (), [200])
    except (Budget, RecursionError):
        return False


def compare(guard, actual, expected, rng=None, budget=200000, extra_lits=()):
    rng = rng or random.Random(1)
    v = Verdict()
    v.witness = v.region = v.actual = v.expected = None
    v.why = ''
    # cells reached by a few random valuations first: a difference in a large diagram is usually found there
    if type(actual) is Dec or type(expected) is Dec or type(guard) is Dec:
        if _refute(v, guard, actual, expected, _sampled_fails(guard, actual, expected, rng, tuple(extra_lits)), rng, 6):
            v.cells = 0
            return v
    fails = []
    b = [budget]
    blown = False
    try:
        _walk(guard, actual, expected, tuple(extra_lits), fails, b)
    except (Budget, RecursionError):
        blown = True
    v.cells = budget - b[0]
    if not fails and not blown:
        v.status = 'PROVED'
        return v
    if _refute(v, guard, actual, expected, fails, rng, 60):
        return v
    taint = v.why
    v.status = 'UNDECIDED'
    if fails:
        v.region, v.actual, v.expected = fails[0]
    v.why = ('unmodelled: ' + taint) if taint else ('budget' if blown else 'no valuation found for a cell not proved equal')
    return v


def _refute(v, guard, actual, expected, fails, rng, tries):
    """a valuation at which the two values differ, looked for in the cells given"""
    for lits, a, e in fails:
        for env in find_env(lits, rng, tries, _starts.get(lits)):
            try:
                if env.val(guard) is not True:
                    continue
                x, y = env.val(actual), env.val(expected)
            except Taint as t:
                v.why = str(t)
                break
            if differs(x, y):
                v.status = 'REFUTED'
                v.witness = {show(k): val for k, val in env.assign.items() if type(k) is Sym}
                v.witness.update({show(k): val for k, val in env.assign.items() if type(k) is App and len(show(k)) < 60})
                v.region = lits
                v.actual, v.expected = a, e
                v.why = 'valuation found'
                v.witness['__actual__'] = x
                v.witness['__expected__'] = y
                return True
    return False


def sat(guard, rng=None, tries=40):
    """is there a concrete valuation with guard true?  returns ('sat', env) / ('unsat', None) / ('unknown', why)"""
    v = compare(guard, TRUE, FALSE, rng)
    if v.status == 'PROVED':
        return 'unsat', None
    if v.status == 'REFUTED':
        return 'sat', v
    return 'unknown', v


_gf = {}


def guard_feasible(g):
    """theory feasibility of a boolean diagram (sound for 'False')"""
    if g is FALSE:
        return False
    if g is TRUE:
        return True
    r = _gf.get(g)
    if r is not None:
        return r
    n = [0]

    def go(x, lits):
        if x is FALSE:
            return False
        if x is TRUE:
            return True
        n[0] += 1
        if n[0] > 3000:
            return True
        for i, k in enumerate(x.kids):
            if k is FALSE:
                continue
            l2 = lits + ((x.atom, i),)
            if x.atom.kind == 'sign' and not feasible(l2):
                continue
            if go(k, l2):
                return True
        return False
    r = go(g, ())
    _gf[g] = r
    return r
