"""Package-wide rule on the global random generators, over the syntax of every module of the package.

A global generator (numpy.random, random) may be used neither while a module is imported nor be seeded with anything that the caller did not hand
in: the argument of a seeding call has to depend on a parameter of an enclosing function (or on an attribute stored by the object)."""
import ast
from harness import Outcome

SEED = ('numpy.random.seed', 'random.seed', 'numpy.random.set_state', 'random.setstate')
GLOBAL = ('numpy.random.', 'random.')
PRIVATE = ('numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.SeedSequence', 'random.Random', 'random.SystemRandom')


def imports(tree):
    """local name -> dotted path of what was imported, anywhere in the module"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    return out


def dotted(e, env):
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, env)
        return b + '.' + e.attr if b else None
    return None


def depends_on_input(call, fns, sources):
    """the seed is computed from a parameter, an attribute, or a local that is itself computed from those"""
    names = set()
    for f in fns:
        a = f.args
        names |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    changed = True
    while changed:
        changed = False
        for f in fns:
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and uses(n.value, names):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and x.id not in names:
                                names.add(x.id)
                                changed = True
                elif isinstance(n, (ast.For, ast.comprehension)) and uses(n.iter, names):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name) and x.id not in names:
                            names.add(x.id)
                            changed = True
    return any(uses(x, names) for x in list(call.args) + [k.value for k in call.keywords])


def uses(e, names):
    return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))


def run(prog, tier):
    out = Outcome()
    out.info = dict(rule=__doc__, modules=0, functions=0, call_sites=0, random_sites=[])

    def report(check, mod, where, node, path):
        out.checks += 1
        out.refuted += 1
        out.violations.append(dict(obligation='rule_random', check=check, construct='%s:%s (line %d)' % (mod.relpath, where, node.lineno), actual='call of ' + path,
                                   expected=check, case=None))
        out.labels.setdefault(check, [0, 0, 0])[1] += 1

    def fine(check):
        out.checks += 1
        out.proved += 1
        out.labels.setdefault(check, [0, 0, 0])[0] += 1

    def walk(node, mod, env, fns, quals):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.info['functions'] += 1
                for d in c.decorator_list + c.args.defaults + [x for x in c.args.kw_defaults if x is not None]:
                    one(d, mod, env, fns, quals)
                    walk(d, mod, env, fns, quals)
                for s in c.body:
                    one(s, mod, env, fns + [c], quals + [c.name])
                    walk(s, mod, env, fns + [c], quals + [c.name])
            elif isinstance(c, ast.Lambda):
                one(c.body, mod, env, fns + [c], quals + ['<lambda>'])
                walk(c.body, mod, env, fns + [c], quals + ['<lambda>'])
            elif isinstance(c, ast.ClassDef):
                walk(c, mod, env, fns, quals + [c.name])
            elif isinstance(c, ast.If) and is_main(c):
                continue
            else:
                one(c, mod, env, fns, quals)
                walk(c, mod, env, fns, quals)

    def is_main(n):
        return any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(n.test))

    def one(c, mod, env, fns, quals):
        if not isinstance(c, ast.Call):
            return
        out.info['call_sites'] += 1
        path = dotted(c.func, env)
        if path is None or not path.startswith(GLOBAL) or path in PRIVATE:
            return
        where = '.'.join(quals) or '<module>'
        out.info['random_sites'].append('%s:%s line %d %s' % (mod.relpath, where, c.lineno, path))
        if not fns:
            report('importing the package leaves the global random generators alone', mod, where, c, path)
        elif path in SEED:
            if depends_on_input(c, fns, None):
                fine('global generators are seeded with what the caller hands in')
            else:
                report('global generators are seeded with what the caller hands in', mod, where, c, path)

    for name in sorted(prog.modules):
        mod = prog.modules[name]
        if mod.kind != 'repo':
            continue
        out.info['modules'] += 1
        walk(mod.tree, mod, imports(mod.tree), [], [])
        fine('module scanned')
    return out
