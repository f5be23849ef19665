from common import *
from pymgrid.modules import ModuleContainer

CASES = {
    'ob_partition': [
        {'mix': 'FS - FK l CB - CB - XS - XB x'},
        {'mix': 'CB a CB b CB a DS - DS c XS a1 XK k XB - FK l FK l FS -'},
        {'mix': 'XB z FK y CS x DK w DK v FS u'},
        {'mix': 'CB one XB two FS three CB one FK four XB two CB one'},
        {'mix': 'FK - FK - FK -'},
        {'mix': 'CS - CS s CS -'},
        {'mix': 'CK q DK q FS -'},
    ],
    'ob_microgrid': [{'mix': 'FS - FK l CB a CB - XS - XB f'}],
    'ob_clash': [{'one': 'FK', 'two': 'CB'}, {'one': 'XB', 'two': 'CB'}, {'one': 'CS', 'two': 'CB'}, {'one': 'FS', 'two': 'FK'}, {'one': 'XS', 'two': 'XK'},
                 {'one': 'XS', 'two': 'FS'}, {'one': 'CK', 'two': 'CS'}],
}
KIND = {'F': 'fixed', 'X': 'flex', 'C': 'controllable', 'D': 'controllable'}
TYPE = {'F': 'fixedprobe', 'X': 'flexprobe', 'C': 'probe', 'D': 'other'}
ROLE = {'S': 'sources', 'K': 'sinks', 'B': 'source_and_sinks'}
CLS = {'F': FixedProbe, 'C': Probe, 'X': FlexProbe, 'D': OtherProbe}


def build(mix):
    w = mix.split()
    given, ref = [], []
    for j in range(len(w) // 2):
        code, name = w[2 * j], w[2 * j + 1]
        m = CLS[code[0]]('%s%d' % (code, j), code[1] in 'SB', code[1] in 'KB', final_step=9 if j == 0 else None)
        given.append(m if name == '-' else (name, m))
        ref.append((TYPE[code[0]] if name == '-' else name, KIND[code[0]], ROLE[code[1]], m))
    return given, ref


def tags(it):
    return sorted([x.tag for x in it])


def groups(ref):
    """name -> tags in input order"""
    d = {}
    for name, kind, role, m in ref:
        d.setdefault(name, []).append(m.tag)
    return d


def tagdict(d):
    return {name: [x.tag for x in l] for name, l in d}


def listing(c, ref):
    check('every module once', tags(c.to_list()), sorted([m.tag for _, _, _, m in ref]))
    check('iterlist', [x.tag for x in c.iterlist()], [x.tag for x in c.to_list()])
    want = groups(ref)
    check('by name', tagdict(c.to_dict().items()), want)
    check('iterdict', tagdict(c.iterdict()), want)
    seen = {}
    for name, x in c.to_tuples():
        seen.setdefault(name, []).append(x.tag)
    check('tuples', seen, want)
    check('number of tuples', len(c.to_tuples()), len(ref))
    # order of the full list follows the order of the named groups
    order = []
    for name, l in c.iterdict():
        for x in l:
            order.append(x.tag)
    check('order of the list', [x.tag for x in c.to_list()], order)


def whole(c, ref):
    listing(c, ref)
    for kind in ('fixed', 'flex', 'controllable'):
        part = [r for r in ref if r[1] == kind]
        listing(getattr(c, kind), part)
        for role in ('sources', 'sinks', 'source_and_sinks'):
            sub = [r for r in part if r[2] == role]
            for leaf in (getattr(getattr(c, kind), role), getattr(getattr(c, role), kind)):
                check('part', tags(leaf.to_list()), sorted([r[3].tag for r in sub]))
                check('part by iterlist', [x.tag for x in leaf.iterlist()], [x.tag for x in leaf.to_list()])
    for role in ('sources', 'sinks', 'source_and_sinks'):
        listing(getattr(c, role), [r for r in ref if r[2] == role])
    check('size', len(c), len(ref))
    check('names', sorted(c.names()), sorted(groups(ref).keys()))
    for name, l in groups(ref).items():
        for j, tag in enumerate(l):
            check('reachable by name and position', c[name][j].tag, tag)
            check('its name', c[name][j].name, (name, j))
            check('attribute access', getattr(c, name)[j].tag, tag)
        check('known name', name in c, True)
    check('unknown name', 'nothing' in c, False)
    check('unknown name raises', raised(c.__getitem__, 'nothing', exc='KeyError'), True)


def ob_partition(mix):
    given, ref = build(mix)
    whole(ModuleContainer(given), ref)


def ob_microgrid(mix):
    given, ref = build(mix)
    m = Microgrid(given)
    u = m.modules['balancing'][0]
    check('balancing module added once', [isinstance(x, UnbalancedEnergyModule) for x in m.modules['balancing']], [True])
    check('everything listed', sorted([x.tag for x in m.module_list if hasattr(x, 'tag')]), sorted([r[3].tag for r in ref]))
    check('number of modules', len(m.module_list), len(ref) + 1)
    check('n_modules', m.n_modules, len(ref) + 1)
    for name, l in groups(ref).items():
        check('reachable through the microgrid', [x.tag for x in getattr(m, name)], l)
    check('fixed', tags(m.fixed.iterlist()), sorted([r[3].tag for r in ref if r[1] == 'fixed']))
    check('controllable', tags(m.controllable.iterlist()), sorted([r[3].tag for r in ref if r[1] == 'controllable']))
    check('flex', sorted([getattr(x, 'tag', 'balancing') for x in m.flex.iterlist()]), sorted([r[3].tag for r in ref if r[1] == 'flex'] + ['balancing']))


def ob_without_balancing():
    given, ref = build('FS - FK l CB a CB - XS - XB f')
    m = Microgrid(given, add_unbalanced_module=False)
    check('nothing added', sorted([x.tag for x in m.module_list]), sorted([r[3].tag for r in ref]))
    check('unchanged input', len(given), len(ref))


def ob_clash(one, two):
    a, r = build(one + ' same ' + two + ' same')
    check('refused', raised(ModuleContainer, a, exc='NameError'), True)
    b, r = build(one + ' first ' + two + ' second')
    check('different names accepted', raised(ModuleContainer, b), False)


def ob_real_modules():
    n, t = clock()
    b, q, p = battery(initial_step=t)
    g, gp = genset(initial_step=t)
    mods = [load('', n, t)[0], renewable('', n, t)[0], grid('', n, t)[0], b, g, ('spare', load('2', n, t)[0]), ('pv', renewable('3', n, t)[0]), balancing(t)]
    m = Microgrid(mods, add_unbalanced_module=False)
    cls = {name: [type(x) for x in l] for name, l in m.modules.iterdict()}
    check('names', sorted(cls.keys()), ['balancing', 'battery', 'genset', 'grid', 'load', 'pv', 'renewable', 'spare'])
    check('fixed', sorted([x.name for x in m.fixed.iterlist()]), [('load', 0), ('spare', 0)])
    check('controllable', sorted([x.name for x in m.controllable.iterlist()]), [('battery', 0), ('genset', 0), ('grid', 0)])
    check('flex', sorted([x.name for x in m.flex.iterlist()]), [('balancing', 0), ('pv', 0), ('renewable', 0)])
    check('sources', sorted([x.name for x in m.modules.sources.iterlist()]), [('genset', 0), ('pv', 0), ('renewable', 0)])
    check('sinks', sorted([x.name for x in m.modules.sinks.iterlist()]), [('load', 0), ('spare', 0)])
    check('both', sorted([x.name for x in m.modules.source_and_sinks.iterlist()]), [('balancing', 0), ('battery', 0), ('grid', 0)])


def ob_converted_grid():
    n, t = clock()
    g1, s1, p1 = grid('a', n, t)
    g2, s2, p2 = grid('b', n, t)
    g1.as_flex()
    m = Microgrid([load('', n, t)[0], ('g1', g1), ('g2', g2), balancing(t)], add_unbalanced_module=False)
    check('converted grid', [x.name for x in m.flex.iterlist() if isinstance(x, GridModule)], [('g1', 0)])
    check('other grid', [x.name for x in m.controllable.iterlist()], [('g2', 0)])


def ob_not_a_module():
    check('no role refused', raised(ModuleContainer, [Probe('p', False, False)], exc='AssertionError'), True)
    check('no list refused', raised(Microgrid, 5, exc='TypeError'), True)


def ob_attrs():
    given, ref = build('FS - FK l CB a CB a XS - XB f')
    c = ModuleContainer(given)
    d = c.get_attrs('tag', 'level', as_pandas=False)
    check('attributes', d, {name: [{'tag': x.tag, 'level': x.level} for x in l] for name, l in c.iterdict()})


def ob_modules_of_another():
    """modules that already were part of a microgrid get the name and position they have in the new one"""
    given, ref = build('FK l CB a CB a CB b XS -')
    m = Microgrid(given, add_unbalanced_module=False)
    a0, a1, b0 = m.modules['a'][0], m.modules['a'][1], m.modules['b'][0]
    x = Microgrid([m.modules['l'][0], ('a', a1), ('b', a0), ('a', b0)], add_unbalanced_module=False)
    check('order', [y.tag for y in x.modules['a']], [a1.tag, b0.tag])
    check('names', [y.name for y in x.modules['a']], [('a', 0), ('a', 1)])
    check('renamed', (x.modules['b'][0].tag, x.modules['b'][0].name), (a0.tag, ('b', 0)))
    y = Microgrid([m.modules['l'][0], a1], add_unbalanced_module=False)
    check('unnamed again', [(z.tag, z.name) for z in y.modules['probe']], [(a1.tag, ('probe', 0))])
