"""Abstract interpreter: transfers Python statements over (frames, heap, guard) with gated joins."""
import ast
import builtins
import json
import os
from fractions import Fraction
from terms import *
from terms import _top
import terms as T
import decide
from program import Program, FuncInfo, ClassInfo, ModuleInfo, quiet_body


class Dead(Exception):
    """no normal continuation in this state"""


class Unsupported(Exception):
    pass


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'libnames.json')) as _f:
    LIBNAMES = {k: frozenset(v) for k, v in json.load(_f).items()}


class HObj:
    __slots__ = ('kind', 'cls', 'data')

    def __init__(self, kind, cls, data):
        self.kind, self.cls, self.data = kind, cls, data


class State:
    __slots__ = ('frames', 'heap', 'guard', 'sf', 'sh')

    def __init__(self):
        self.frames, self.heap, self.guard = {}, {}, TRUE
        self.sf = self.sh = False

    def copy(self):
        s = State.__new__(State)
        s.frames, s.heap, s.guard = self.frames, self.heap, self.guard
        s.sf = s.sh = self.sf = self.sh = True
        return s

    def become(self, o):
        self.frames, self.heap, self.guard = o.frames, o.heap, o.guard
        self.sf = self.sh = True
        o.sf = o.sh = True

    def setvar(self, fid, name, v):
        if self.sf:
            self.frames = dict(self.frames)
            self.sf = False
        f = dict(self.frames[fid])
        f[name] = v
        self.frames[fid] = f

    def newframe(self, fid, d):
        if self.sf:
            self.frames = dict(self.frames)
            self.sf = False
        self.frames[fid] = d

    def dropframe(self, fid):
        if fid in self.frames:
            if self.sf:
                self.frames = dict(self.frames)
                self.sf = False
            del self.frames[fid]

    def put(self, oid, obj):
        if self.sh:
            self.heap = dict(self.heap)
            self.sh = False
        self.heap[oid] = obj


BUILTIN_EXC = {n: c for n, c in vars(builtins).items() if isinstance(c, type) and issubclass(c, BaseException)}


def exc_isa(name, cls):
    a, b = BUILTIN_EXC.get(name), BUILTIN_EXC.get(cls)
    if a is None or b is None:
        return name == cls or cls in ('Exception', 'BaseException')
    return issubclass(a, b)


def mkexc(name, *args):
    return app('exc:' + name, args)


def excname(v):
    if type(v) is App and v.fn.startswith('exc:'):
        return v.fn[4:]
    return None


class LoopCtx:
    def __init__(self):
        self.brk, self.cont = [], []


class Interp:
    quiet = False
    quiet_bodies = {}

    def __init__(self, program, lib):
        self.prog = program
        self.lib = lib
        self.fid = 0
        self.oid = 0
        self.parent = {}
        self.fmeta = {}
        self.rets = []
        self.loops = []
        self.exc = [[]]
        self.tries = []
        self.curexc = []
        self.views = set()    # keys of dictionaries, in their order
        self.hashing = 0      # 1: sets are iterated in another order
        self.depth = 0
        self.visited = {}
        self.callsites = 0
        self.steps = 0
        self.max_steps = 4000000
        self.obligations = []
        self.origin = {}
        self.where = []
        self.module_vals = {}
        self.inits = []
        self.rng_draws = 0
        self.prune = True
        self.yields = []
        self.opaque_hooks = {}
        self.notes = []
        self.funcstack = []
        self.pinned = {}
        self.pinned_frames = {}

    # ------------------------------------------------------------ helpers
    def exc_loc(self):
        """raising construct, followed by the innermost construct of the repository on the way to it"""
        w = self.loc()
        if w is None or len(w) < 4 or w[3] == 'repo':
            return w
        for x in reversed(self.where):
            if x[3] == 'repo':
                return tuple(w[:4]) + (x,)
        return w

    def loc(self):
        return self.where[-1] if self.where else None

    def note_origin(self, v):
        if self.where and type(v) in (Num, Dec, App, Tup, CArr, SArr, DictL, Unk, Const):
            w = self.where[-1]
            if w[3] == 'repo':
                o = self.origin.get(v)
                if o is None:
                    self.origin[v] = w

    def feasible(self, g):
        if g is FALSE:
            return False
        if not self.prune:
            return True
        return decide.guard_feasible(g)

    def new_oid(self):
        self.oid += 1
        return self.oid

    def alloc(self, st, kind, data, cls=None):
        o = self.new_oid()
        st.put(o, HObj(kind, cls, data))
        return ref(o)

    def newlist(self, st, items):
        return self.alloc(st, 'list', tup(items))

    def newdict(self, st, pairs):
        return self.alloc(st, 'dict', dictl(pairs))

    def newarr(self, st, content):
        return self.alloc(st, 'arr', content)

    def merge2(self, a, b):
        if a is b:
            return a
        g1, g2 = a.guard, b.guard
        s = State.__new__(State)
        s.guard = bor(g1, g2)
        if a.heap is b.heap:
            s.heap = a.heap
            a.sh = b.sh = True
            s.sh = True
        else:
            ha, hb = a.heap, b.heap
            h = dict(hb)
            for k, x in ha.items():
                y = hb.get(k)
                if y is None:
                    h[k] = x
                elif x is not y:
                    h[k] = self.merge_obj(g1, g2, x, y)
            s.heap = h
            s.sh = False
        if a.frames is b.frames:
            s.frames = a.frames
            a.sf = b.sf = s.sf = True
        else:
            fr = dict(b.frames)
            for k, x in a.frames.items():
                y = b.frames.get(k)
                if y is None:
                    fr[k] = x
                elif x is not y:
                    n = dict(y)
                    for v, xv in x.items():
                        yv = y.get(v, ABSENT)
                        if xv is not yv:
                            n[v] = ite_care(g1, g2, xv, yv)
                    for v, yv in y.items():
                        if v not in x:
                            n[v] = ite_care(g1, g2, ABSENT, yv)
                    fr[k] = n
            s.frames = fr
            s.sf = False
        return s

    def merge_obj(self, g1, g2, x, y):
        if x.kind == 'inst' or x.kind == 'cls':
            d = dict(y.data)
            for f, xv in x.data.items():
                yv = y.data.get(f, ABSENT)
                if xv is not yv:
                    d[f] = ite_care(g1, g2, xv, yv)
            for f, yv in y.data.items():
                if f not in x.data:
                    d[f] = ite_care(g1, g2, ABSENT, yv)
            return HObj(x.kind, x.cls, d)
        if x.data is y.data:
            return x
        if x.kind != y.kind:
            return HObj('unk', None, unk('merge of kinds'))
        return HObj(x.kind, x.cls, ite_care(g1, g2, x.data, y.data))

    def merge(self, states):
        s = states[0]
        for t in states[1:]:
            s = self.merge2(s, t)
        return s

    def merge_vals(self, pairs):
        """pairs: [(state, value)] -> (state, value)"""
        s, v = pairs[0]
        for s2, v2 in pairs[1:]:
            v = ite_care(s.guard, s2.guard, v, v2)
            s = self.merge2(s, s2)
        return s, v

    def branch(self, st, alts):
        """alts: [(cond, fn(st)->value)] with exhaustive, disjoint conds"""
        out = []
        for c, fn in alts:
            g = band(st.guard, c)
            if not self.feasible(g):
                continue
            s = st.copy()
            s.guard = g
            try:
                v = fn(s)
            except Dead:
                continue
            out.append((s, v))
        if not out:
            raise Dead()
        s, v = self.merge_vals(out)
        st.become(s)
        return v

    def per_leaf(self, st, v, fn):
        """apply fn(st, leaf) for every alternative leaf of v (with effects)"""
        v = self.simp(st, v)
        if type(v) is not Dec:
            return fn(st, v)
        alts = alternatives(v, st.guard)
        if len(alts) > 400:
            raise Unsupported('too many alternatives')
        return self.branch(st, [(c, (lambda s, l=l: fn(s, l))) for c, l in alts])

    def per_leaves(self, st, vs, fn):
        """like per_leaf for several values jointly"""
        vs = [self.simp(st, v) for v in vs]
        if all(type(v) is not Dec for v in vs):
            return fn(st, *vs)

        def go(s, done, rest):
            if not rest:
                return fn(s, *done)
            return self.per_leaf(s, rest[0], lambda s2, l: go(s2, done + [l], rest[1:]))
        return go(st, [], vs)

    def simp(self, st, v):
        if type(v) is Dec and st.guard is not TRUE:
            return restrict(v, st.guard)
        return v

    # ------------------------------------------------------------ exceptions
    def do_raise(self, st, exc):
        e = st.copy()
        self.exc[-1].append((e, exc, self.exc_loc()))
        raise Dead()

    def raise_if(self, st, cond, exc):
        if cond is FALSE:
            return
        g = band(st.guard, cond)
        if g is not FALSE and self.feasible(g):
            e = st.copy()
            e.guard = g
            self.exc[-1].append((e, exc, self.exc_loc()))
        st.guard = band(st.guard, bnot(cond))
        if not self.feasible(st.guard):
            raise Dead()

    def handled(self, name):
        for hs in self.tries:
            for h in hs:
                if h is None or exc_isa(name, h):
                    return True
        return False

    # ------------------------------------------------------------ modules & names
    def module(self, name):
        return self.prog.modules.get(name)

    def mod_attr(self, m, name, st):
        """value of global `name` in module m"""
        key = (m.name, name)
        if key in self.module_vals:
            return self.module_vals[key]
        d = m.defs.get(name)
        if d is None:
            sub = self.module(m.name + '.' + name)
            if sub is not None:
                return code('mod', sub)
            for base in m.stars:
                bm = self.module(base)
                if bm is not None and bm is not m and not name.startswith('_'):
                    v = self.mod_attr(bm, name, st)
                    if v is not None:
                        return v
            return None
        v = None
        if isinstance(d, tuple):
            if d[0] == 'import':
                v = self.import_path(d[1])
            else:
                base, nm = d[1], d[2]
                bm = self.module(base)
                if bm is not None:
                    if bm is m:
                        sub = self.module(base + '.' + nm)
                        v = code('mod', sub) if sub else None
                    else:
                        v = self.mod_attr(bm, nm, st)
                    if v is None:
                        v = unk('import %s from %s' % (nm, base))
                else:
                    v = self.import_path(base + '.' + nm)
        elif isinstance(d, ast.FunctionDef):
            fi = FuncInfo(d.name, d, m)
            v = code('func', fi)
            v = self.decorate(d, v, m, st)
        elif isinstance(d, ast.ClassDef):
            v = code('class', self.get_class(d, m))
        elif isinstance(d, (ast.Assign, ast.AnnAssign)):
            if d.value is None:
                v = None
            else:
                # evaluate in module scope in a state of its own, then import the heap objects
                fid = self.push_frame(st, None, m)
                tgt = d.targets[0] if isinstance(d, ast.Assign) else d.target
                val = self.eval(d.value, st, fid)
                self.assign(tgt, val, st, fid)
                v = st.frames[fid].get(name)
                st.dropframe(fid)
                self.module_vals[key] = v
                self.global_heap_pin(st, v)
                return v
        if v is not None:
            self.module_vals[key] = v
        return v

    def global_heap_pin(self, st, v):
        """objects created by module level code must exist in every state"""
        todo = [v]
        while todo:
            x = todo.pop()
            if type(x) is Ref and x.oid in st.heap:
                self.pinned[x.oid] = st.heap[x.oid]
                o = st.heap[x.oid]
                if isinstance(o.data, Val):
                    todo.extend(parts(o.data) if type(o.data) in (Tup, DictL, CArr) else [])
                elif isinstance(o.data, dict):
                    todo.extend(o.data.values())
            elif type(x) is Tup:
                todo.extend(x.items)

    pinned = None

    def hget(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.pinned.get(oid) if self.pinned else None
            if o is not None:
                st.put(oid, o)
        if o is None:
            raise Unsupported('dangling object')
        return o

    def import_path(self, path):
        m = self.module(path)
        if m is not None:
            return code('mod', m)
        parts_ = path.split('.')
        for i in range(len(parts_) - 1, 0, -1):
            m = self.module('.'.join(parts_[:i]))
            if m is not None:
                v = self.mod_attr(m, parts_[i], State())
                return v
        st = self.lib.stubclass(self, path)
        if st is not None:
            return st
        return code('lib', path)

    def get_class(self, node, m):
        def rb(b, mod):
            if isinstance(b, ast.Name):
                v = self.lookup_global(b.id, mod)
            elif isinstance(b, ast.Attribute):
                v = self.eval_static(b, mod)
            else:
                v = None
            if type(v) is Code and v.kind == 'class':
                return v.a[0]
            if type(v) is Code and v.kind == 'lib':
                if v.a[0] in ('builtins.dict', 'builtins.list', 'collections.OrderedDict'):     # a class derived from a builtin container
                    c = self.lib.stubclass(self, v.a[0] + ' base').a[0]
                    if v.a[0] not in c.libbases:
                        c.libbases.append(v.a[0])
                    return c
                return v.a[0]
            return 'object'
        ci = self.prog.class_info(node, m, rb)
        if ci.attrs is None:
            self.fill_class(ci)
        return ci

    def eval_static(self, n, mod):
        if isinstance(n, ast.Name):
            return self.lookup_global(n.id, mod)
        if isinstance(n, ast.Attribute):
            b = self.eval_static(n.value, mod)
            if type(b) is Code and b.kind == 'lib':
                return self.import_path(b.a[0] + '.' + n.attr)
            if type(b) is Code and b.kind == 'mod':
                return self.mod_attr(b.a[0], n.attr, State())
        return None

    def lookup_global(self, name, mod):
        v = self.mod_attr(mod, name, self.gstate())
        if v is not None:
            return v
        return self.builtin(name)

    _g = None

    def gstate(self):
        return State()

    def builtin(self, name):
        if name in self.lib.CONSTS:
            return self.lib.CONSTS[name]
        if hasattr(builtins, name) or name in self.lib.INTRINSICS:
            return code('lib', 'builtins.' + name)
        return None

    def fill_class(self, ci):
        ci.attrs = {}
        ci.fields = []
        ci.is_dataclass = False
        for d in ci.node.decorator_list:
            nm = d.func if isinstance(d, ast.Call) else d
            if isinstance(nm, ast.Name) and nm.id == 'dataclass' or isinstance(nm, ast.Attribute) and nm.attr == 'dataclass':
                ci.is_dataclass = True
        self.fill_body(ci, ci.node.body)

    def fill_body(self, ci, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                fi = FuncInfo(n.name, n, ci.module, ci, ci.name + '.' + n.name)
                kind = 'func'
                other = []
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                        kind = d.id
                    elif isinstance(d, ast.Name) and d.id == 'abstractmethod' or isinstance(d, ast.Attribute) and d.attr == 'abstractmethod':
                        pass
                    elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter', 'getter') and isinstance(d.value, ast.Name):
                        kind = d.attr
                        target = d.value.id
                    else:
                        other.append(d)
                if kind == 'property':
                    ci.attrs[n.name] = ('prop', fi, None, other)
                elif kind == 'setter':
                    old = ci.attrs.get(target)
                    if old is None or old[0] != 'prop':
                        inh = None
                        for c in (ci.mro or [])[1:]:
                            if c.attrs and target in c.attrs:
                                inh = c.attrs[target]
                                break
                        old = inh or ('prop', None, None, [])
                    ci.attrs[n.name] = ('prop', old[1], fi, old[3] if len(old) > 3 else [])
                elif kind in ('staticmethod', 'classmethod'):
                    ci.attrs[n.name] = (kind, fi, other)
                elif kind in ('deleter', 'getter'):
                    pass
                else:
                    ci.attrs[n.name] = ('func', fi, other)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = ('expr', n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, x in enumerate(t.elts):
                            if isinstance(x, ast.Name):
                                ci.attrs[x.id] = ('exprsub', n.value, i)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                ci.fields.append((n.target.id, n.value))
                if n.value is not None:
                    ci.attrs[n.target.id] = ('expr', n.value)
            elif isinstance(n, ast.ClassDef):
                ci.attrs[n.name] = ('class', n)
            elif isinstance(n, ast.If):
                self.fill_body(ci, n.body)

    def class_lookup(self, ci, name, after=None):
        """(owner, entry) along the MRO"""
        skip = after is not None
        for c in ci.mro:
            if skip:
                if c is after:
                    skip = False
                continue
            if c.attrs is None:
                self.fill_class(c)
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def decorate(self, d, v, m, st):
        for dec in reversed(d.decorator_list):
            nm = dec.func if isinstance(dec, ast.Call) else dec
            if isinstance(nm, ast.Attribute) and nm.attr == 'wraps' or isinstance(nm, ast.Name) and nm.id in ('wraps', 'abstractmethod', 'lru_cache'):
                continue
            fid = self.push_frame(st, None, m)
            dv = self.eval(dec, st, fid)
            v = self.call(dv, [v], {}, st)
            # keep frame (closure)
        return v

    # ------------------------------------------------------------ frames
    def push_frame(self, st, parent, module, fi=None):
        self.fid += 1
        self.parent[self.fid] = (parent, module, fi)
        st.newframe(self.fid, {})
        return self.fid

    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                v = fr[name]
                if type(v) is Dec or v is ABSENT:
                    v = self.simp(st, v)
                    if v is ABSENT:
                        self.do_raise(st, mkexc('UnboundLocalError', const(name)))
                    if type(v) is Dec and ABSENT in leaves(v):
                        self.raise_if(st, cond_is(v, ABSENT), mkexc('UnboundLocalError', const(name)))
                        v = self.simp(st, v)
                return v
            f = self.parent[f][0]
        m = self.parent[fid][1]
        v = self.mod_attr(m, name, st)
        if v is None and m.kind == 'spec':
            v = self.lib.spec_global(self, name)
        if v is None:
            v = self.builtin(name)
        if v is None:
            self.do_raise(st, mkexc('NameError', const(name)))
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st, fid):
        for n in body:
            self.exec_stmt(n, st, fid)

    def exec_stmt(self, n, st, fid):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget')
        fi = self.parent[fid][2]
        m = self.parent[fid][1]
        self.where.append((m.relpath, fi.qual if fi else '<module>', getattr(n, 'lineno', 0), m.kind))
        try:
            meth = getattr(self, 's_' + type(n).__name__, None)
            if meth is None:
                raise Unsupported('statement %s' % type(n).__name__)
            meth(n, st, fid)
        finally:
            self.where.pop()

    def s_Pass(self, n, st, fid):
        pass

    def s_Global(self, n, st, fid):
        raise Unsupported('global statement')

    s_Nonlocal = s_Global

    def s_Expr(self, n, st, fid):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, st, fid)

    def s_Import(self, n, st, fid):
        for a in n.names:
            if a.asname:
                st.setvar(fid, a.asname, self.import_path(a.name))
            else:
                st.setvar(fid, a.name.split('.')[0], self.import_path(a.name.split('.')[0]))

    def s_ImportFrom(self, n, st, fid):
        m = self.parent[fid][1]
        base = m._abs(n.module, n.level)
        for a in n.names:
            bm = self.module(base)
            v = None
            if bm is not None:
                v = self.mod_attr(bm, a.name, st)
                if v is None:
                    sub = self.module(base + '.' + a.name)
                    v = code('mod', sub) if sub else unk('import ' + a.name)
            else:
                v = self.import_path(base + '.' + a.name)
            st.setvar(fid, a.asname or a.name, v)

    def s_FunctionDef(self, n, st, fid):
        m = self.parent[fid][1]
        outer = self.parent[fid][2]
        fi = FuncInfo(n.name, n, m, None, (outer.qual + '.' if outer else '') + n.name)
        v = code('closure', fi, fid)
        for dec in reversed(n.decorator_list):
            nm = dec.func if isinstance(dec, ast.Call) else dec
            if isinstance(nm, ast.Attribute) and nm.attr == 'wraps' or isinstance(nm, ast.Name) and nm.id == 'wraps':
                continue
            v = self.call(self.eval(dec, st, fid), [v], {}, st)
        self.fmeta[fid] = True
        st.setvar(fid, n.name, v)

    def s_ClassDef(self, n, st, fid):
        m = self.parent[fid][1]
        if m.kind == 'spec' or True:
            ci = self.get_class(n, m)
            st.setvar(fid, n.name, code('class', ci))

    def s_Return(self, n, st, fid):
        v = NONE if n.value is None else self.eval(n.value, st, fid)
        self.note_origin(v)
        self.rets[-1].append((st.copy(), v))
        raise Dead()

    def s_Assign(self, n, st, fid):
        v = self.eval(n.value, st, fid)
        self.note_origin(v)
        for t in n.targets:
            self.assign(t, v, st, fid)

    def s_AnnAssign(self, n, st, fid):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st, fid), st, fid)

    def s_AugAssign(self, n, st, fid):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fid)
            store = lambda v: self.assign(t, v, st, fid)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fid)
            old = self.getattr(o, t.attr, st)
            store = lambda v: self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fid)
            k = self.eval_index(t.slice, st, fid)
            old = self.getitem(o, k, st)
            store = lambda v: self.setitem(o, k, v, st)
        else:
            raise Unsupported('augassign target')
        r = self.eval(n.value, st, fid)
        v = self.lib.augop(self, st, type(n.op).__name__, old, r)
        self.note_origin(v)
        store(v)

    def s_Delete(self, n, st, fid):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fid)
                k = self.eval_index(t.slice, st, fid)
                self.lib.delitem(self, st, o, k)
            elif isinstance(t, ast.Name):
                st.setvar(fid, t.id, ABSENT)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fid)
                self.per_leaf(st, o, lambda s, l: self.raw_setattr(s, l, t.attr, ABSENT))
            else:
                raise Unsupported('del')

    def s_If(self, n, st, fid):
        c = self.truth(self.eval(n.test, st, fid), st)
        self.fork(st, c, lambda s: self.exec_block(n.body, s, fid), lambda s: self.exec_block(n.orelse, s, fid))

    def fork(self, st, c, f1, f2):
        c = self.simp(st, c)
        outs = []
        for cc, f in ((c, f1), (bnot(c), f2)):
            if cc is FALSE:
                continue
            g = st.guard if cc is TRUE else band(st.guard, cc)
            if not self.feasible(g):
                continue
            s = st.copy()
            s.guard = g
            try:
                f(s)
            except Dead:
                continue
            outs.append(s)
        if not outs:
            raise Dead()
        st.become(self.merge(outs))

    def s_Assert(self, n, st, fid):
        c = self.truth(self.eval(n.test, st, fid), st)
        self.raise_if(st, bnot(c), mkexc('AssertionError'))

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            if not self.curexc:
                self.do_raise(st, mkexc('RuntimeError'))
            self.per_leaf(st, self.curexc[-1], self.do_raise)
            raise Dead()
        v = self.eval(n.exc, st, fid)
        if n.cause is not None:
            self.eval(n.cause, st, fid)

        def go(s, l):
            if type(l) is Code and l.kind in ('lib', 'class'):
                l = self.call(l, [], {}, s)
            if type(l) is not App or not l.fn.startswith('exc:'):
                if type(l) is Ref:
                    o = self.hget(s, l.oid)
                    l = mkexc(o.cls.name if o.cls else 'Exception', l)
                else:
                    l = mkexc('Exception', l)
            self.do_raise(s, l)
        self.per_leaf(st, v, go)

    def s_Try(self, n, st, fid):
        col = []
        names = []
        for h in n.handlers:
            if h.type is None:
                names.append(None)
            elif isinstance(h.type, ast.Tuple):
                names.extend(self.exc_type_name(x, st, fid) for x in h.type.elts)
            else:
                names.append(self.exc_type_name(h.type, st, fid))
        self.exc.append(col)
        self.tries.append(names)
        nret = len(self.rets[-1]) if self.rets else 0
        nexc = len(self.exc[-2])
        outs = []
        alive = True
        try:
            try:
                self.exec_block(n.body, st, fid)
            except Dead:
                alive = False
        finally:
            self.exc.pop()
            self.tries.pop()
        if alive:
            s = st.copy()
            try:
                self.exec_block(n.orelse, s, fid)
                outs.append(s)
            except Dead:
                pass
        # group by handler
        groups = {}
        order = []
        for s, e, w in col:
            hi = None
            nm = excname(e)
            for i, h in enumerate(n.handlers):
                hs = [None] if h.type is None else (
                    [self.exc_type_name(x, s, fid) for x in h.type.elts] if isinstance(h.type, ast.Tuple) else [self.exc_type_name(h.type, s, fid)])
                if any(x is None or self.exc_match(nm, x, e) for x in hs):
                    hi = i
                    break
            if hi is None:
                self.exc[-1].append((s, e, w))
            else:
                if hi not in groups:
                    groups[hi] = []
                    order.append(hi)
                groups[hi].append((s, e))
        for hi in order:
            h = n.handlers[hi]
            # merge states with identical exception type
            bytype = {}
            for s, e in groups[hi]:
                bytype.setdefault(excname(e), []).append((s, e))
            for lst in bytype.values():
                s, e = self.merge_vals(lst)
                if h.name:
                    s.setvar(fid, h.name, e)
                self.curexc.append(e)
                try:
                    self.exec_block(h.body, s, fid)
                    outs.append(s)
                except Dead:
                    pass
                finally:
                    self.curexc.pop()
        if n.finalbody:
            new = []
            for s in outs:
                try:
                    self.exec_block(n.finalbody, s, fid)
                    new.append(s)
                except Dead:
                    pass
            outs = new
            if self.rets:
                for i in range(nret, len(self.rets[-1])):
                    s, v = self.rets[-1][i]
                    try:
                        self.exec_block(n.finalbody, s, fid)
                    except Dead:
                        raise Unsupported('finally diverts return')
            # exceptions that leave the statement run the final block too
            leaving = self.exc[-1][nexc:]
            del self.exc[-1][nexc:]
            for s, e, w in leaving:
                try:
                    self.exec_block(n.finalbody, s, fid)
                    self.exc[-1].append((s, e, w))
                except Dead:
                    pass
        if not outs:
            raise Dead()
        st.become(self.merge(outs))

    def exc_type_name(self, node, st, fid):
        if isinstance(node, ast.Name):
            if node.id in BUILTIN_EXC:
                return node.id
            return node.id
        if isinstance(node, ast.Attribute):
            return node.attr
        return 'Exception'

    def exc_match(self, nm, h, e):
        if nm is None:
            return h in ('Exception', 'BaseException')
        return exc_isa(nm, h)

    def s_With(self, n, st, fid):
        for it in n.items:
            v = self.eval(it.context_expr, st, fid)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fid)
        self.exec_block(n.body, st, fid)

    def s_Break(self, n, st, fid):
        self.loops[-1].brk.append(st.copy())
        raise Dead()

    def s_Continue(self, n, st, fid):
        self.loops[-1].cont.append(st.copy())
        raise Dead()

    def s_For(self, n, st, fid):
        it = self.eval(n.iter, st, fid)
        content = self.iter_content(it, st)

        def run(s, l):
            items = self.content_items(l)
            self.run_for(n, items, s, fid)
            return NONE
        self.per_leaf(st, content, run)

    def run_for(self, n, items, st, fid):
        brk = []
        alive = True
        if len(items) > 10000:
            raise Unsupported('long loop')
        for item in items:
            ctx = LoopCtx()
            self.loops.append(ctx)
            try:
                try:
                    self.assign(n.target, item, st, fid)
                    self.exec_block(n.body, st, fid)
                    ok = True
                except Dead:
                    ok = False
            finally:
                self.loops.pop()
            brk.extend(ctx.brk)
            outs = ([st.copy()] if ok else []) + ctx.cont
            if not outs:
                alive = False
                break
            st.become(self.merge(outs))
        if alive and n.orelse:
            try:
                self.exec_block(n.orelse, st, fid)
            except Dead:
                alive = False
        outs = ([st.copy()] if alive else []) + brk
        if not outs:
            raise Dead()
        st.become(self.merge(outs))

    def s_While(self, n, st, fid):
        exits = []
        open_ = 0
        for it in range(10001):
            c = self.truth(self.eval(n.test, st, fid), st)
            c = self.simp(st, c)
            open_ += c is not TRUE and c is not FALSE
            if open_ > 59:
                raise Unsupported('while loop not bounded')
            g0 = band(st.guard, bnot(c))
            if self.feasible(g0):
                e = st.copy()
                e.guard = g0
                try:
                    self.exec_block(n.orelse, e, fid)
                    exits.append(e)
                except Dead:
                    pass
            g1 = band(st.guard, c)
            if not self.feasible(g1):
                break
            st.guard = g1
            ctx = LoopCtx()
            self.loops.append(ctx)
            try:
                try:
                    self.exec_block(n.body, st, fid)
                    ok = True
                except Dead:
                    ok = False
            finally:
                self.loops.pop()
            exits.extend(ctx.brk)
            outs = ([st.copy()] if ok else []) + ctx.cont
            if not outs:
                break
            st.become(self.merge(outs))
        else:
            raise Unsupported('while loop not bounded')
        if not exits:
            raise Dead()
        st.become(self.merge(exits))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st.setvar(fid, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fid)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fid)
            k = self.eval_index(t.slice, st, fid)
            self.setitem(o, k, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            content = self.iter_content(v, st, unpack=True)
            n = len(t.elts)

            def check(s, l):
                items = self.content_items(l)
                if (not star and len(items) != n) or (star and len(items) < n - 1):
                    self.do_raise(s, mkexc('ValueError', const('unpack')))
                if star:
                    i = star[0]
                    after = n - 1 - i
                    mid = items[i:len(items) - after]
                    items = list(items[:i]) + [self.newlist(s, mid)] + list(items[len(items) - after:])
                return tup(items)
            tv = self.per_leaf(st, content, check)
            for i, x in enumerate(t.elts):
                x = x.value if isinstance(x, ast.Starred) else x
                self.assign(x, mapn(lambda l: l.items[i] if type(l) is Tup else unk('unpack'), (self.simp(st, tv),)), st, fid)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)
        else:
            raise Unsupported('assign target %s' % type(t).__name__)

    # ------------------------------------------------------------ truth / iteration
    def truth(self, v, st):
        if type(v) is not Dec:
            return self.truth_leaf(v, st)
        has_obj = any(type(l) in (Ref, App, Code) for l in leaves(v))
        if not has_obj:
            return mapn(lambda l: self.truth_leaf(l, st), (v,))
        return self.per_leaf(st, v, lambda s, l: self.truth_leaf(l, s))

    def truth_leaf(self, l, st):
        t = type(l)
        if l is TRUE or l is FALSE:
            return l
        if l is NONE:
            return FALSE
        if t is Const:
            return TRUE if l.v else FALSE
        if t is Num:
            return sign_case(l, TRUE, FALSE, TRUE)
        if t in (Inf, Nan, Code):
            return TRUE
        if t in (Tup, ListV):
            return TRUE if l.items else FALSE
        if t is DictL:
            return TRUE if l.pairs else FALSE
        if t is Ref:
            o = self.hget(st, l.oid)
            if o.kind in ('list', 'dict', 'set'):
                return mapn(lambda c: (TRUE if (c.pairs if type(c) is DictL else c.items) else FALSE) if type(c) in (Tup, DictL) else
                            case(bool_atom(c), (TRUE, FALSE)), (o.data,))
            if o.kind == 'inst':
                for nm in ('__bool__', '__len__'):
                    if self.class_lookup(o.cls, nm):
                        return self.truth(self.call_method(l, nm, [], st), st)
                    self.gap(o.cls, nm)
                return TRUE
            if o.kind == 'arr':
                d = o.data
                if type(d) is CArr and len(d.items) == 1:
                    return self.truth(d.items[0], st)
                if type(d) is CArr:
                    self.do_raise(st, mkexc('ValueError', const('truth value of array')))
                return case(bool_atom(app('truth', (d,), 'bool')), (TRUE, FALSE))
            return TRUE
        if t is Unk:
            return case(bool_atom(l), (TRUE, FALSE))
        if t is Sym and l.sort == 'bool' or t is App:
            return case(bool_atom(l), (TRUE, FALSE))
        if t is Sym:
            return case(bool_atom(app('free:truth', (l,), 'bool')), (TRUE, FALSE))
        if t is CArr or t is SArr:
            return case(bool_atom(app('truth', (l,), 'bool')), (TRUE, FALSE))
        raise Unsupported('truth of %r' % (l,))

    def iter_content(self, v, st, unpack=False):
        """value diagram whose leaves are Tup of items"""
        def leaf(s, l):
            t = type(l)
            if t in (Tup, ListV):
                return tup(l.items)
            if t is DictL:
                return tup(k for k, _ in l.pairs)
            if t is Const and isinstance(l.v, str):
                return tup(const(ch) for ch in l.v)
            if t is Ref:
                o = self.hget(s, l.oid)
                if o.kind == 'list':
                    return o.data
                if o.kind == 'set' and self.hashing and l.oid not in self.views:
                    # the order of a set of anything but numbers differs between processes
                    return mapn(lambda c: tup([k for k, _ in c.pairs][::1 if all(nconst(k) is not None for k, _ in c.pairs) else -1])
                                if type(c) is DictL else unk('iter opaque set'), (o.data,))
                if o.kind in ('dict', 'set'):
                    return mapn(lambda c: tup(k for k, _ in c.pairs) if type(c) is DictL else unk('iter opaque dict'), (o.data,))
                if o.kind == 'arr':
                    return self.lib.arr_rows(self, s, o.data)
                if o.kind == 'iter':
                    d = o.data
                    s.put(l.oid, HObj('iter', None, tup(())))
                    return d
                if o.kind == 'inst':
                    if self.class_lookup(o.cls, '__iter__'):
                        r = self.call_method(l, '__iter__', [], s)
                        return self.iter_content(r, s)
                    if self.class_lookup(o.cls, '__getitem__') and self.class_lookup(o.cls, '__len__'):
                        n = self.call_method(l, '__len__', [], s)
                        k = iconst(n)
                        if k is not None:
                            return tup([self.getitem(l, num(i), s) for i in range(k)])
                    self.gap(o.cls, '__iter__')
                    self.do_raise(s, mkexc('TypeError', const('not iterable')))
            if t is Num or l in (TRUE, FALSE, NONE) or t in (Inf, Nan):
                self.do_raise(s, mkexc('TypeError', const('not iterable')))
            if t is Sym and l.sort in ('num', 'int', 'bool'):
                self.do_raise(s, mkexc('TypeError', const('not iterable')))
            if t is Code and l.kind in ('class', 'func', 'closure', 'bound'):
                self.do_raise(s, mkexc('TypeError', const('not iterable')))
            return unk('iteration over %s' % show(l)[:80])
        return self.per_leaf(st, v, leaf)

    def content_items(self, l):
        if type(l) in (Tup, ListV):
            return list(l.items)
        raise Unsupported('iteration over unknown: %s' % show(l)[:100])

    def items_of(self, v, st, fn):
        """per alternative content: fn(st, [items])"""
        content = self.iter_content(v, st)
        return self.per_leaf(st, content, lambda s, l: fn(s, self.content_items(l)))

    # ------------------------------------------------------------ expressions
    def eval(self, n, st, fid):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget')
        meth = getattr(self, 'e_' + type(n).__name__, None)
        if meth is None:
            raise Unsupported('expression %s' % type(n).__name__)
        v = meth(n, st, fid)
        return v

    def e_Constant(self, n, st, fid):
        v = n.value
        if v is Ellipsis:
            return ELL
        if v is None:
            return NONE
        if isinstance(v, complex):
            raise Unsupported('complex')
        return const(v)

    def e_Name(self, n, st, fid):
        return self.lookup(n.id, st, fid)

    def e_Attribute(self, n, st, fid):
        return self.getattr(self.eval(n.value, st, fid), n.attr, st)

    def e_Subscript(self, n, st, fid):
        o = self.eval(n.value, st, fid)
        k = self.eval_index(n.slice, st, fid)
        return self.getitem(o, k, st)

    def eval_index(self, n, st, fid):
        if isinstance(n, ast.Slice):
            return app('slice', [NONE if x is None else self.eval(x, st, fid) for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return tup([self.eval_index(x, st, fid) if not isinstance(x, ast.Starred) else self._bad('starred index') for x in n.elts])
        return self.eval(n, st, fid)

    def _bad(self, r):
        raise Unsupported(r)

    def e_Slice(self, n, st, fid):
        return self.eval_index(n, st, fid)

    def elts(self, elts, st, fid):
        """evaluate display elements with stars -> value diagram with Tup leaf"""
        acc = tup(())
        for x in elts:
            if isinstance(x, ast.Starred):
                c = self.iter_content(self.eval(x.value, st, fid), st)
                acc = mapn(lambda a, b: tup(a.items + b.items) if type(a) is Tup and type(b) is Tup else unk('star'), (acc, c))
            else:
                v = self.eval(x, st, fid)
                acc = mapn(lambda a: tup(a.items + (v,)) if type(a) is Tup else a, (acc,))
        return acc

    def e_Tuple(self, n, st, fid):
        return self.elts(n.elts, st, fid)

    def e_List(self, n, st, fid):
        return self.alloc(st, 'list', self.elts(n.elts, st, fid))

    def e_Set(self, n, st, fid):
        c = self.elts(n.elts, st, fid)
        return self.alloc(st, 'set', mapn(lambda l: dictl(dedupe((x, NONE) for x in l.items)), (c,)))

    def e_Dict(self, n, st, fid):
        r = self.newdict(st, ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, st, fid)
                self.lib.dict_update(self, st, r, o)
            else:
                kv = self.eval(k, st, fid)
                vv = self.eval(v, st, fid)
                self.setitem(r, kv, vv, st)
        return r

    def e_JoinedStr(self, n, st, fid):
        out = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                out.append(const(x.value))
            else:
                v = self.eval(x.value, st, fid)
                if x.conversion == -1 and x.format_spec is None:
                    out.append(self.lib.to_str(self, st, v))
                else:
                    out.append(self.lib.to_str(self, st, v, fmt=True))
        return self.lib.str_concat(out)

    def e_FormattedValue(self, n, st, fid):
        return self.lib.to_str(self, st, self.eval(n.value, st, fid))

    def e_Lambda(self, n, st, fid):
        m = self.parent[fid][1]
        outer = self.parent[fid][2]
        fi = FuncInfo('<lambda>', n, m, None, (outer.qual + '.' if outer else '') + '<lambda>')
        self.fmeta[fid] = True
        return code('closure', fi, fid)

    def e_IfExp(self, n, st, fid):
        c = self.simp(st, self.truth(self.eval(n.test, st, fid), st))
        if c is TRUE:
            return self.eval(n.body, st, fid)
        if c is FALSE:
            return self.eval(n.orelse, st, fid)
        return self.branch(st, [(c, lambda s: self.eval(n.body, s, fid)), (bnot(c), lambda s: self.eval(n.orelse, s, fid))])

    def e_BoolOp(self, n, st, fid):
        is_and = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.eval(n.values[i], s, fid)
            if i == len(n.values) - 1:
                return v
            c = self.simp(s, self.truth(v, s))
            if not is_and:
                c_stop = c
            else:
                c_stop = bnot(c)
            if c_stop is TRUE:
                return v
            if c_stop is FALSE:
                return go(i + 1, s)
            stop_val = v
            # value of the operand on the stopping branch simplifies for booleans
            return self.branch(s, [(c_stop, lambda q: restrict(stop_val, c_stop)), (bnot(c_stop), lambda q: go(i + 1, q))])
        return go(0, st)

    def e_UnaryOp(self, n, st, fid):
        v = self.eval(n.operand, st, fid)
        if isinstance(n.op, ast.Not):
            return bnot(self.truth(v, st))
        return self.lib.unop(self, st, type(n.op).__name__, v)

    def e_BinOp(self, n, st, fid):
        a = self.eval(n.left, st, fid)
        b = self.eval(n.right, st, fid)
        v = self.lib.binop(self, st, type(n.op).__name__, a, b)
        self.note_origin(v)
        return v

    def e_Compare(self, n, st, fid):
        left = self.eval(n.left, st, fid)
        vals = []
        # chained comparisons: evaluate left to right (operands are evaluated once)
        res = None
        cur = st

        def go(i, left, s):
            right = self.eval(n.comparators[i], s, fid)
            v = self.lib.cmpop(self, s, type(n.ops[i]).__name__, left, right)
            if i == len(n.ops) - 1:
                return v
            c = self.simp(s, self.truth(v, s))
            if c is FALSE:
                return FALSE
            if c is TRUE:
                return go(i + 1, right, s)
            return self.branch(s, [(bnot(c), lambda q: FALSE), (c, lambda q: go(i + 1, right, q))])
        return go(0, left, st)

    def e_NamedExpr(self, n, st, fid):
        v = self.eval(n.value, st, fid)
        self.assign(n.target, v, st, fid)
        return v

    def e_Starred(self, n, st, fid):
        raise Unsupported('starred')

    def comp(self, gens, st, fid, emit):
        """run nested generators; emit(st, fid) at the innermost level"""
        def go(i, s):
            if i == len(gens):
                emit(s, f2)
                return
            g = gens[i]
            it = self.eval(g.iter, s, fid if i == 0 else f2)
            content = self.iter_content(it, s)

            def run(s1, l):
                for item in self.content_items(l):
                    self.assign(g.target, item, s1, f2)
                    c = TRUE
                    self.cond_chain(g.ifs, 0, s1, f2, lambda s2: go(i + 1, s2))
                return NONE
            self.per_leaf(s, content, run)
        f2 = self.push_frame(st, fid, self.parent[fid][1], self.parent[fid][2])
        go(0, st)

    def cond_chain(self, ifs, j, st, fid, then):
        if j == len(ifs):
            then(st)
            return
        c = self.truth(self.eval(ifs[j], st, fid), st)
        self.fork(st, c, lambda s: self.cond_chain(ifs, j + 1, s, fid, then), lambda s: None)

    def e_ListComp(self, n, st, fid):
        r = self.newlist(st, ())

        def emit(s, f):
            v = self.eval(n.elt, s, f)
            self.lib.list_append(self, s, r, v)
        self.comp(n.generators, st, fid, emit)
        return r

    def e_GeneratorExp(self, n, st, fid):
        r = self.e_ListComp(n, st, fid)
        o = self.hget(st, r.oid)
        st.put(r.oid, HObj('iter', None, o.data))
        return r

    def e_SetComp(self, n, st, fid):
        r = self.alloc(st, 'set', dictl(()))

        def emit(s, f):
            v = self.eval(n.elt, s, f)
            self.setitem_raw(r, v, NONE, s)
        self.comp(n.generators, st, fid, emit)
        return r

    def e_DictComp(self, n, st, fid):
        r = self.newdict(st, ())

        def emit(s, f):
            k = self.eval(n.key, s, f)
            v = self.eval(n.value, s, f)
            self.setitem(r, k, v, s)
        self.comp(n.generators, st, fid, emit)
        return r

    def e_Yield(self, n, st, fid):
        v = NONE if n.value is None else self.eval(n.value, st, fid)
        self.lib.list_append(self, st, self.yields[-1], v)
        return NONE

    def e_YieldFrom(self, n, st, fid):
        v = self.eval(n.value, st, fid)
        target = self.yields[-1]

        def go(s, items):
            for x in items:
                self.lib.list_append(self, s, target, x)
            return NONE
        return self.items_of(v, st, go)

    def e_Call(self, n, st, fid):
        # super() special form
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.make_super(st, fid)
        f = self.eval(n.func, st, fid)
        args = self.elts(n.args, st, fid)
        kw = []
        for k in n.keywords:
            v = self.eval(k.value, st, fid)
            kw.append((k.arg, v))
        self.callsites += 1

        def go(s, a):
            return self.kwgo(s, f, list(self.content_items(a)), kw, 0, {})
        return self.per_leaf(st, args, go)

    def kwgo(self, st, f, args, kw, i, acc):
        if i == len(kw):
            return self.call(f, args, acc, st)
        k, v = kw[i]
        if k is not None:
            acc = dict(acc)
            acc[k] = v
            return self.kwgo(st, f, args, kw, i + 1, acc)
        content = self.lib.mapping_content(self, st, v)

        def go(s, l):
            if type(l) is not DictL:
                raise Unsupported('** of unknown mapping')
            a2 = dict(acc)
            for kk, vv in l.pairs:
                if type(kk) is not Const or not isinstance(kk.v, str):
                    raise Unsupported('non-string keyword')
                a2[kk.v] = vv
            return self.kwgo(s, f, args, kw, i + 1, a2)
        return self.per_leaf(st, content, go)

    def make_super(self, st, fid):
        f = fid
        while f is not None and (self.parent[f][2] is None or self.parent[f][2].cls is None):
            f = self.parent[f][0]
        if f is None:
            raise Unsupported('super outside method')
        # comprehension frames share the FuncInfo: go up to the real frame that has the self argument
        fi = self.parent[f][2]
        a = fi.node.args
        first = (a.posonlyargs + a.args)[0].arg
        g = f
        while g is not None and first not in st.frames.get(g, {}):
            g = self.parent[g][0]
        selfv = st.frames[g][first]
        return mapn(lambda l: code('super', fi.cls, l), (self.simp(st, selfv),))

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st):
        return self.per_leaf(st, o, lambda s, l: self.getattr_leaf(s, l, name))

    def getattr_leaf(self, st, l, name):
        t = type(l)
        if t is Ref:
            o = self.hget(st, l.oid)
            if o.kind == 'inst':
                return self.inst_getattr(st, l, o, name)
            return self.lib.obj_attr(self, st, l, o, name)
        if t is Code:
            return self.code_attr(st, l, name)
        return self.lib.leaf_attr(self, st, l, name)

    def gap(self, cls, name):
        """a library class is asked for something it has but the model lacks: undecided, not an error of the program"""
        for c in cls.mro:
            if c.module.kind == 'stub' and name in LIBNAMES.get(c.name, ()):
                raise Unsupported('%s.%s is not modelled' % (c.name, name))

    def inst_getattr(self, st, l, o, name):
        if name == '__class__':
            return code('class', o.cls)
        if name == '__dict__':
            return self.newdict(st, [(const(k), v) for k, v in o.data.items() if v is not ABSENT])
        ent = self.class_lookup(o.cls, name)
        if ent is not None and ent[1][0] == 'prop':
            fi = ent[1][1]
            if fi is None:
                self.do_raise(st, mkexc('AttributeError', const(name)))
            # AttributeError inside a property falls back to __getattr__
            ga = self.class_lookup(o.cls, '__getattr__')
            if ga is not None:
                ok, bad = self.lib.attempt(self, st, lambda s: self.call_func(fi, None, [l], {}, s), ['AttributeError'])
                if not bad:
                    return self.lib.join(self, st, ok)
                alts = list(ok)
                for s, e in bad:
                    try:
                        alts.append((s, self.call_func(ga[1][1], None, [l, const(name)], {}, s)))
                    except Dead:
                        pass
                if not alts:
                    raise Dead()
                return self.lib.join(self, st, alts)
            return self.call_func(fi, None, [l], {}, st)
        if name in o.data:
            v = self.simp(st, o.data[name])
            if v is not ABSENT:
                if type(v) is Dec and ABSENT in leaves(v):
                    c = cond_is(v, ABSENT)
                    return self.branch(st, [(bnot(c), lambda s: restrict(v, bnot(c))), (c, lambda s: self.inst_fallback(s, l, o, ent, name))])
                return v
        return self.inst_fallback(st, l, o, ent, name)

    def inst_fallback(self, st, l, o, ent, name):
        # class-level override (assignment through the class)
        for c in o.cls.mro:
            co = st.heap.get(('cls', c))
            if co is not None and name in co.data and co.data[name] is not ABSENT:
                return co.data[name]
            if c.attrs is not None and name in c.attrs:
                break
        if ent is not None:
            return self.bind_entry(st, ent, l, o.cls, name)
        r = self.lib.inst_builtin_attr(self, st, l, o, name)
        if r is not None:
            return r
        self.gap(o.cls, name)
        ga = self.class_lookup(o.cls, '__getattr__')
        if ga is not None:
            return self.call_func(ga[1][1], None, [l, const(name)], {}, st)
        if o.cls.libbases_all() and not name.startswith('__') and self.lib.opaque_base(o.cls):
            return unk('attribute %s of library base class of %s' % (name, o.cls.name))
        self.do_raise(st, mkexc('AttributeError', const(name)))

    def bind_entry(self, st, ent, l, cls, name):
        owner, e = ent
        k = e[0]
        if k == 'func':
            f = code('func', e[1])
            if e[2]:
                f = self.decorated(e[1], e[2], st)
            return mapn(lambda x: code('bound', x, l), (f,))
        if k == 'staticmethod':
            return code('func', e[1])
        if k == 'classmethod':
            return code('bound', code('func', e[1]), code('class', cls))
        if k == 'expr':
            v = self.class_expr(owner, name, e, st)
            if type(v) is Code and v.kind in ('func', 'closure') and type(l) is Ref:
                return code('bound', v, l)
            if type(v) is Code and v.kind == 'property':
                return self.call(v.a[0], [l], {}, st)
            return v
        if k == 'exprsub':
            v = self.class_expr(owner, ('sub', name), ('expr', e[1]), st)
            return self.getitem(v, num(e[2]), st)
        if k == 'class':
            return code('class', self.get_class(e[1], owner.module))
        if k == 'prop':
            return code('property', code('func', e[1]) if e[1] else NONE, code('func', e[2]) if e[2] else NONE)
        raise Unsupported('class attr kind %s' % k)

    def class_expr(self, owner, name, e, st):
        key = ('cx', owner, name)
        if key in self.module_vals:
            return self.module_vals[key]
        fid = self.push_frame(st, None, owner.module)
        # names of the class body visible
        for n2, e2 in owner.attrs.items():
            if n2 == name:
                break
            if e2[0] == 'expr' and isinstance(e2[1], ast.Constant):
                st.setvar(fid, n2, self.eval(e2[1], st, fid))
            elif e2[0] in ('func',) and not e2[2]:
                st.setvar(fid, n2, code('func', e2[1]))
        v = self.eval(e[1], st, fid)
        st.dropframe(fid)
        self.module_vals[key] = v
        self.global_heap_pin(st, v)
        return v

    def decorated(self, fi, decs, st):
        key = ('dec', fi)
        if key in self.module_vals:
            return self.module_vals[key]
        v = code('func', fi)
        for dec in reversed(decs):
            nm = dec.func if isinstance(dec, ast.Call) else dec
            if isinstance(nm, ast.Attribute) and nm.attr in ('wraps',) or isinstance(nm, ast.Name) and nm.id in ('wraps', 'total_ordering'):
                continue
            fid = self.push_frame(st, None, fi.module)
            dv = self.eval(dec, st, fid)
            v = self.call(dv, [v], {}, st)
        # frames captured by the decorator closure must survive: pin them
        self.pin_frames(st, v)
        self.module_vals[key] = v
        return v

    def pin_frames(self, st, v):
        todo = [v]
        while todo:
            x = todo.pop()
            if type(x) is Code and x.kind == 'closure':
                f = x.a[1]
                while f is not None:
                    if f in st.frames and f not in self.pinned_frames:
                        self.pinned_frames[f] = st.frames[f]
                        todo.extend(st.frames[f].values())
                    f = self.parent[f][0]

    pinned_frames = None

    def code_attr(self, st, l, name):
        k = l.kind
        if k == 'mod':
            v = self.mod_attr(l.a[0], name, st)
            if v is None:
                self.do_raise(st, mkexc('AttributeError', const(name)))
            return v
        if k == 'lib':
            r = self.lib.lib_attr(self, st, l, name)
            if r is not None:
                return r
            return self.import_path(l.a[0] + '.' + name)
        if k == 'class':
            ci = l.a[0]
            if name in ('__name__', '__qualname__'):
                return const(ci.name)
            if name == '__mro__':
                return tup(code('class', c) for c in ci.mro)
            for c in ci.mro:
                co = st.heap.get(('cls', c))
                if co is not None and name in co.data and co.data[name] is not ABSENT:
                    return co.data[name]
                if c.attrs is not None and name in c.attrs:
                    break
            ent = self.class_lookup(ci, name)
            if ent is not None:
                e = ent[1]
                if e[0] == 'func':
                    return code('func', e[1]) if not e[2] else self.decorated(e[1], e[2], st)
                return self.bind_entry(st, ent, l, ci, name)
            r = self.lib.class_builtin_attr(self, st, ci, name)
            if r is not None:
                return r
            if self.lib.opaque_base(ci):
                return unk('class attribute %s' % name)
            self.gap(ci, name)
            self.do_raise(st, mkexc('AttributeError', const(name)))
        if k == 'super':
            start, selfv = l.a
            if type(selfv) is Code and selfv.kind == 'class':
                cls = selfv.a[0]
            elif type(selfv) is Ref:
                cls = self.hget(st, selfv.oid).cls
            else:
                return unk('super of %s' % show(selfv))
            ent = self.class_lookup(cls, name, after=start)
            if ent is None:
                r = self.lib.super_builtin(self, st, cls, selfv, name)
                if r is not None:
                    return r
                self.gap(cls, name)
                self.do_raise(st, mkexc('AttributeError', const(name)))
            e = ent[1]
            if e[0] == 'prop':
                return self.call_func(e[1], None, [selfv], {}, st)
            return self.bind_entry(st, ent, selfv, cls, name)
        if k in ('func', 'closure', 'bound'):
            if name in ('__name__', '__qualname__'):
                f = l
                while f.kind == 'bound':
                    f = f.a[0]
                return const(f.a[0].name)
            if name == '__func__' and k == 'bound':
                return l.a[0]
            if name == '__self__' and k == 'bound':
                return l.a[1]
            if name == '__call__':
                return l
            if name == '__doc__':
                return unk('doc')
            self.do_raise(st, mkexc('AttributeError', const(name)))
        if k == 'property':
            if name == 'fget':
                return l.a[0]
            if name == 'fset':
                return l.a[1]
        return unk('attribute %s of %s' % (name, k))

    def raw_setattr(self, st, l, name, v):
        o = self.hget(st, l.oid)
        d = dict(o.data)
        d[name] = v
        st.put(l.oid, HObj(o.kind, o.cls, d))
        return NONE

    def setattr(self, o, name, v, st):
        self.per_leaf(st, o, lambda s, l: self.setattr_leaf(s, l, name, v))

    def setattr_leaf(self, st, l, name, v):
        t = type(l)
        if t is Ref:
            o = self.hget(st, l.oid)
            if o.kind == 'inst':
                ent = self.class_lookup(o.cls, name)
                if ent is not None and ent[1][0] == 'prop':
                    if ent[1][2] is None:
                        self.do_raise(st, mkexc('AttributeError', const(name)))
                    self.call_func(ent[1][2], None, [l, v], {}, st)
                    return NONE
                sa = self.class_lookup(o.cls, '__setattr__')
                if sa is not None:
                    self.call_func(sa[1][1], None, [l, const(name), v], {}, st)
                    return NONE
                if getattr(o.cls, 'is_dataclass', False) and self.frozen(o.cls):
                    self.do_raise(st, mkexc('FrozenInstanceError'))
                return self.raw_setattr(st, l, name, v)
            return self.lib.obj_setattr(self, st, l, o, name, v)
        if t is Code and l.kind == 'class':
            key = ('cls', l.a[0])
            o = st.heap.get(key)
            d = dict(o.data) if o else {}
            d[name] = v
            st.put(key, HObj('cls', l.a[0], d))
            return NONE
        if t is Code and l.kind == 'super':
            raise Unsupported('setattr on super')
        if t is Unk or t in (Sym, App):
            return NONE
        if l is NONE or t in (Num, Const):
            self.do_raise(st, mkexc('AttributeError', const(name)))
        return NONE

    def frozen(self, ci):
        for d in ci.node.decorator_list:
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg == 'frozen' and isinstance(k.value, ast.Constant) and k.value.value:
                        return True
        return False

    def call_method(self, o, name, args, st, kw=None):
        return self.call(self.getattr(o, name, st), args, kw or {}, st)

    # ------------------------------------------------------------ items
    def getitem(self, o, k, st):
        return self.per_leaf(st, o, lambda s, l: self.lib.getitem(self, s, l, k))

    def setitem(self, o, k, v, st):
        self.per_leaf(st, o, lambda s, l: self.lib.setitem(self, s, l, k, v))

    def setitem_raw(self, o, k, v, st):
        self.lib.dict_set(self, st, o, k, v)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, st):
        return self.per_leaf(st, f, lambda s, l: self.call_leaf(l, args, kwargs, s))

    def call_leaf(self, f, args, kw, st):
        t = type(f)
        if t is Code:
            k = f.kind
            if k == 'bound':
                return self.call(f.a[0], [f.a[1]] + list(args), kw, st)
            if k == 'func':
                return self.call_func(f.a[0], None, args, kw, st)
            if k == 'closure':
                return self.call_func(f.a[0], f.a[1], args, kw, st)
            if k == 'class':
                return self.instantiate(f.a[0], args, kw, st)
            if k == 'lib':
                return self.lib.call(self, st, f.a[0], args, kw)
            if k == 'meth':
                return self.lib.call_meth(self, st, f.a[0], f.a[1], args, kw)
            if k == 'hostfn':
                return f.a[1](self, st, args, kw)
            if k == 'partial':
                pa, pk = f.a[1].items, f.a[2]
                k2 = {kk.v: vv for kk, vv in pk.pairs}
                k2.update(kw)
                return self.call(f.a[0], list(pa) + list(args), k2, st)
            raise Unsupported('call of %s' % k)
        if t is Ref:
            o = self.hget(st, f.oid)
            if o.kind == 'inst':
                ent = self.class_lookup(o.cls, '__call__')
                if ent is not None:
                    return self.call(self.bind_entry(st, ent, f, o.cls, '__call__'), args, kw, st)
                self.gap(o.cls, '__call__')
            self.do_raise(st, mkexc('TypeError', const('not callable')))
        if t is Sym and f.sort == 'fn' or t is Sym and f.sort == 'any':
            return self.lib.call_opaque(self, st, f, args, kw)
        if t in (Const, Num, Tup, Inf):
            self.do_raise(st, mkexc('TypeError', const('not callable')))
        if t is App:
            return self.lib.call_opaque(self, st, f, args, kw)
        return unk('call of unknown function')

    def instantiate(self, ci, args, kw, st):
        h = self.lib.class_hook(self, st, ci, args, kw)
        if h is not None:
            return h
        nw = self.class_lookup(ci, '__new__')
        if nw is not None:
            r = self.call_func(nw[1][1], None, [code('class', ci)] + list(args), kw, st)

            def fin(s, l):
                if type(l) is Ref:
                    o = self.hget(s, l.oid)
                    if o.kind == 'inst' and ci in o.cls.mro:
                        init = self.find_init(o.cls, s)
                        if init is not None:
                            self.call(init, [l] + list(args), kw, s)
                return l
            return self.per_leaf(st, r, fin)
        r = self.alloc(st, 'inst', {}, ci)
        if ci.is_dataclass and not self.class_lookup(ci, '__init__'):
            self.dataclass_init(ci, r, args, kw, st)
            return r
        init = self.find_init(ci, st)
        if init is not None:
            self.call(init, [r] + list(args), kw, st)
        elif any(exc_isa(b.split('.')[-1], 'BaseException') for c in ci.mro for b in c.libbases if isinstance(b, str) and b.startswith('builtins.')):
            return mkexc(ci.name, *args)
        elif (args or kw) and not self.lib.opaque_base(ci):
            self.do_raise(st, mkexc('TypeError', const('takes no arguments')))
        return r

    def find_init(self, ci, st):
        for c in ci.mro:
            co = st.heap.get(('cls', c))
            if co is not None and '__init__' in co.data:
                return co.data['__init__']
            if c.attrs is None:
                self.fill_class(c)
            if '__init__' in c.attrs:
                return code('func', c.attrs['__init__'][1])
        return None

    def dataclass_init(self, ci, r, args, kw, st):
        fields = []
        for c in reversed(ci.mro):
            for f in getattr(c, 'fields', []):
                fields.append((f[0], f[1], c))
        kw = dict(kw)
        for i, (nm, dflt, c) in enumerate(fields):
            if i < len(args):
                v = args[i]
            elif nm in kw:
                v = kw.pop(nm)
            elif dflt is not None:
                fid = self.push_frame(st, None, c.module)
                v = self.eval(dflt, st, fid)
            else:
                self.do_raise(st, mkexc('TypeError', const(nm)))
            self.raw_setattr(st, r, nm, v)
        if kw:
            self.do_raise(st, mkexc('TypeError', const('unexpected keyword')))

    def bad_args(self, fi, st, exc):
        if fi.module.kind == 'stub':
            raise Unsupported('arguments of %s' % fi.qual)
        self.do_raise(st, exc)

    def bind_args(self, fi, args, kw, st, closure):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        out = {}
        kw = dict(kw)
        nd = len(pos) - len(a.defaults)
        if len(args) > len(pos) and a.vararg is None:
            self.bad_args(fi, st, mkexc('TypeError', const('%s() too many positional arguments' % fi.qual)))
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw:
                    self.bad_args(fi, st, mkexc('TypeError', const('multiple values for %s' % p.arg)))
                out[p.arg] = args[i]
            elif p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
            elif i >= nd:
                out[p.arg] = self.default(fi, a.defaults[i - nd], ('p', i), st, closure)
            else:
                self.bad_args(fi, st, mkexc('TypeError', const('%s() missing argument %s' % (fi.qual, p.arg))))
        if a.vararg is not None:
            out[a.vararg.arg] = tup(args[len(pos):])
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
            elif a.kw_defaults[i] is not None:
                out[p.arg] = self.default(fi, a.kw_defaults[i], ('k', i), st, closure)
            else:
                self.bad_args(fi, st, mkexc('TypeError', const('%s() missing argument %s' % (fi.qual, p.arg))))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.newdict(st, [(const(k), v) for k, v in kw.items()])
        elif kw:
            self.bad_args(fi, st, mkexc('TypeError', const('%s() unexpected keyword %s' % (fi.qual, sorted(kw)[0]))))
        return out

    def default(self, fi, node, slot, st, closure):
        if isinstance(node, ast.Constant):
            return self.e_Constant(node, st, None)
        key = ('dflt', fi.file, node.lineno, node.col_offset, closure)
        if isinstance(node, (ast.List, ast.Dict, ast.Set)):
            if key in st.heap:
                return ref(key)
            fid = self.push_frame(st, closure, fi.module)
            v = self.eval(node, st, fid)
            st.put(key, self.hget(st, v.oid))
            return ref(key)
        fid = self.push_frame(st, closure, fi.module)
        v = self.eval(node, st, fid)
        st.dropframe(fid)
        return v

    def call_func(self, fi, closure, args, kw, st):
        hook = self.opaque_hooks.get(fi.qual)
        if hook is not None:
            r = hook(self, st, fi, args, kw)
            if r is not None:
                return r
        self.visited[(fi.file, fi.qual)] = self.visited.get((fi.file, fi.qual), 0) + 1
        if self.depth > 60:
            raise Unsupported('call depth')
        if closure is not None:
            f = closure
            while f is not None:
                if f not in st.frames and self.pinned_frames and f in self.pinned_frames:
                    st.newframe(f, self.pinned_frames[f])
                f = self.parent[f][0]
        loc = self.bind_args(fi, args, kw, st, closure)
        fid = self.push_frame(st, closure, fi.module, fi)
        st.newframe(fid, loc)
        self.depth += 1
        self.rets.append([])
        saved_loops, self.loops = self.loops, []
        self.funcstack.append((fi, args))
        if fi.is_gen:
            y = self.newlist(st, ())
            self.yields.append(y)
        try:
            if isinstance(fi.node, ast.Lambda):
                self.where.append((fi.file, fi.qual, fi.node.lineno, fi.module.kind))
                try:
                    v = self.eval(fi.node.body, st, fid)
                    self.rets[-1].append((st.copy(), v))
                except Dead:
                    pass
                finally:
                    self.where.pop()
            else:
                try:
                    body = fi.node.body
                    if self.quiet and fi.module.kind == 'repo':
                        q = self.quiet_bodies.get(fi.node, 0)
                        if q == 0:
                            q = self.quiet_bodies[fi.node] = quiet_body(fi.node)
                        if q is not None:
                            body = q
                    self.exec_block(body, st, fid)
                    self.rets[-1].append((st.copy(), NONE))
                except Dead:
                    pass
            rets = self.rets[-1]
        finally:
            self.rets.pop()
            self.loops = saved_loops
            self.depth -= 1
            self.funcstack.pop()
            if fi.is_gen:
                self.yields.pop()
        if not rets:
            raise Dead()
        s, v = self.merge_vals(rets)
        st.become(s)
        if not self.fmeta.get(fid):
            st.dropframe(fid)
        if fi.is_gen:
            o = self.hget(st, y.oid)
            st.put(y.oid, HObj('iter', None, o.data))
            return y
        return v

    # ------------------------------------------------------------ reification
    def reify(self, v, st, deep=True, seen=()):
        """immutable deep value of v in state st (objects become Obj/ListV/DictL/arrays)"""
        if type(v) is Dec:
            return mapn(lambda l: self.reify(l, st, deep, seen), (v,))
        t = type(v)
        if t is Tup:
            return tup([self.reify(x, st, deep, seen) for x in v.items])
        if t is ListV:
            return listv([self.reify(x, st, deep, seen) for x in v.items])
        if t is App and any(isinstance(x, Val) for x in v.args):
            args = [self.reify(x, st, deep, seen) if isinstance(x, Val) else x for x in v.args]
            if all(x is y for x, y in zip(args, v.args)):
                return v
            return mapn(lambda *xs: app(v.fn, xs, v.sort, v.lo, v.hi), args)
        if t is Code and v.kind == 'bound':
            return v
        if t is not Ref:
            return v
        if v.oid in seen:
            return app('cycle', (const(str(len(seen) - list(seen).index(v.oid))),))
        o = self.hget(st, v.oid)
        seen2 = tuple(seen) + (v.oid,)
        if o.kind == 'list':
            return mapn(lambda c: listv([self.reify(x, st, deep, seen2) for x in c.items]) if type(c) is Tup else c, (o.data,))
        if o.kind == 'iter':
            return mapn(lambda c: listv([self.reify(x, st, deep, seen2) for x in c.items]) if type(c) is Tup else c, (o.data,))
        if o.kind == 'dict':
            return mapn(lambda c: dictl([(self.reify(k, st, deep, seen2), self.reify(x, st, deep, seen2)) for k, x in c.pairs]) if type(c) is DictL else c, (o.data,))
        if o.kind == 'set':
            return mapn(lambda c: app('set', sorted((self.reify(k, st, deep, seen2) for k, _ in c.pairs), key=lambda x: x.id)) if type(c) is DictL else c, (o.data,))
        if o.kind == 'arr':
            return mapn(lambda c: rebuild(c, [self.reify(x, st, deep, seen2) for x in c.items]) if type(c) is CArr else c, (o.data,))
        if o.kind == 'inst':
            if not deep:
                return v
            return objv(o.cls.name, sorted((k, self.reify(x, st, deep, seen2)) for k, x in o.data.items() if x is not ABSENT))
        return o.data if isinstance(o.data, Val) else v


def _libbases_all(self):
    return [b for c in self.mro for b in c.libbases]


ClassInfo.libbases_all = _libbases_all


def dedupe(pairs):
    seen = {}
    for k, v in pairs:
        seen[k] = v
    return tuple(seen.items())
