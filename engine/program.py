"""Program model: parses the repository and the library stubs, resolves names, classes, MRO."""
import ast
import os
import hashlib


class FuncInfo:
    __slots__ = ('name', 'node', 'module', 'cls', 'qual', 'is_gen', 'file', 'locals')

    def __init__(self, name, node, module, cls=None, qual=None):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.qual = qual or name
        self.file = module.relpath
        self.is_gen = _has_yield(node)

    def __repr__(self):
        return '%s:%s' % (self.file, self.qual)


def _has_yield(fn):
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []        # ClassInfo or ('lib', path)
        self.mro = None
        self.attrs = None      # name -> ('func', FuncInfo) | ('expr', node) | ('prop', get, set) | ...
        self.libbases = []

    def __repr__(self):
        return '<class %s>' % self.name


class ModuleInfo:
    def __init__(self, name, path, relpath, src, is_pkg, kind):
        self.name, self.path, self.relpath, self.is_pkg, self.kind = name, path, relpath, is_pkg, kind
        self.src = src
        self.tree = ast.parse(src)
        self.stars = []
        self.defs = {}         # name -> ast node / import spec (last binding wins)
        self._collect(self.tree.body)
        self.cache = {}

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = self._abs(n.module, n.level)
                for a in n.names:
                    if a.name != '*':
                        self.defs[a.asname or a.name] = ('from', base, a.name)
                    else:
                        self.stars.append(base)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.defs[x.id] = n
            elif isinstance(n, ast.Try):
                for h in n.handlers:        # fallbacks for a failing import: the import succeeds here
                    self._collect(h.body)
                self._collect(n.body)
                self._collect(n.orelse)
                self._collect(n.finalbody)
            elif isinstance(n, ast.If):
                self._collect(n.body)
                self._collect(n.orelse)

    def _abs(self, mod, level):
        if not level:
            return mod
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([mod] if mod else []))


class Program:
    def __init__(self, repo='/repo', stubs=None, specs=None):
        self.repo = repo
        self.modules = {}
        self.files = []
        self.h = hashlib.sha256()
        self.errors = []
        root = os.path.join(repo, 'src')
        self._load_tree(os.path.join(root, 'pymgrid'), 'pymgrid', 'repo', repo)
        if stubs:
            for f in sorted(os.listdir(stubs)):
                if f.endswith('.py'):
                    name = f[:-3]
                    self._load(os.path.join(stubs, f), name, 'stub', os.path.dirname(stubs), False)
        self.classes = {}

    def _load_tree(self, d, pkg, kind, base):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isdir(p):
                if any(x.endswith('.py') for x in os.listdir(p)) or os.path.exists(os.path.join(p, '__init__.py')):
                    self._load_tree(p, pkg + '.' + f, kind, base)
            elif f.endswith('.py'):
                name = pkg if f == '__init__.py' else pkg + '.' + f[:-3]
                self._load(p, name, kind, base, f == '__init__.py')

    def _load(self, path, name, kind, base, is_pkg):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        if kind == 'repo':
            self.h.update(path.encode() + src.encode())
            self.files.append(os.path.relpath(path, base))
        try:
            self.modules[name] = ModuleInfo(name, path, os.path.relpath(path, base), src, is_pkg, kind)
        except SyntaxError as e:
            self.errors.append('%s: %s' % (path, e))

    def load_spec(self, path, name):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        m = ModuleInfo(name, path, os.path.basename(path), src, False, 'spec')
        self.modules[name] = m
        return m

    # ---- classes
    def class_info(self, node, module, resolve_base):
        key = (module.name, node.name, node.lineno)
        ci = self.classes.get(key)
        if ci is not None:
            return ci
        ci = ClassInfo(node.name, node, module)
        self.classes[key] = ci
        for b in node.bases:
            r = resolve_base(b, module)
            if isinstance(r, ClassInfo):
                ci.bases.append(r)
            else:
                ci.libbases.append(r)
        ci.mro = self._mro(ci)
        return ci

    def _mro(self, ci):
        seqs = [list(b.mro) for b in ci.bases] + [list(ci.bases)]
        out = [ci]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    h = s[0]
                    break
            else:
                raise TypeError('MRO')
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    s.pop(0)
        return out


# ------------------------------------------------------------------ warnings that nobody looks at
PURE_CALLS = {'hasattr', 'all', 'any', 'len', 'isinstance', 'abs', 'min', 'max', 'bool', 'np.allclose', 'np.isclose', 'np.any', 'np.all', 'np.logical_and',
              'np.logical_or', 'np.abs', 'numpy.allclose', 'numpy.isclose'}


def _dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = _dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


def _is_warn(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and _dotted(s.value.func) in ('warn', 'warnings.warn')


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if _dotted(n.func) not in PURE_CALLS and not (isinstance(n.func, ast.Attribute) and n.func.attr in ('all', 'any') and not n.args):
                return False
        elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp,
                            ast.Subscript, ast.JoinedStr)):
            return False
    return True


def quiet_body(node):
    """the body without conditions that only decide whether to warn, and without locals used by nothing else; None if nothing was dropped"""
    dropped = [0]

    def strip(stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.If) and all(_is_warn(x) for x in s.body + s.orelse) and _pure(s.test):
                dropped[0] += 1
                continue
            if isinstance(s, ast.If):
                s = ast.copy_location(ast.If(test=s.test, body=strip(s.body) or [ast.copy_location(ast.Pass(), s)], orelse=strip(s.orelse)), s)
            out.append(s)
        return out
    body = strip(node.body)
    if not dropped[0]:
        return None
    while True:
        used = {}
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    used[n.id] = 1
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    return body
        keep = [s for s in body if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                                        and s.targets[0].id not in used and _pure(s.value))]
        if len(keep) == len(body):
            return body
        body = keep
