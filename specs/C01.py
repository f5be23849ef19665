from common import *

CASES = {
    'ob_balanced': [{'mix': 'FS FK CB XS'}, {'mix': 'FK CB DB XB'}, {'mix': 'FS CK XK'}, {'mix': 'FK DS CB XS XK'}],
    'ob_unbalanced_raises': [{'mix': 'FS FK CB'}, {'mix': 'FK CB XS'}, {'mix': 'FS CK XK'}, {'mix': 'FK XB'}],
    'ob_real': [{'parts': ['load', 'pv', 'battery']}, {'parts': ['load', 'grid']}, {'parts': ['load', 'genset', 'pv']}, {'parts': ['load', 'battery', 'genset']}],
    'ob_two_steps': [{'parts': ['load', 'pv']}, {'parts': ['load', 'grid']}],
}
THOROUGH = {'ob_two_steps': [{'parts': ['load', 'pv', 'battery']}],
            'ob_real': [{'parts': ['load', 'pv', 'battery', 'grid']}, {'parts': ['load', 'load', 'battery', 'battery']}, {'parts': ['load', 'pv', 'genset', 'grid']}],
            'ob_balanced': [{'mix': 'FS FK CB DS XS XK XB'}]}


def totals(info):
    p, c = 0, 0
    for name, l in info.items():
        for d in l:
            p = p + d.get('provided_energy', 0)
            c = c + d.get('absorbed_energy', 0)
    return p, c


def prepared(mix, add):
    mods = probes(mix)
    for _, x in mods:
        if x.is_source:
            assume(x.min_production <= x.max_production)
    m = Microgrid(mods, add_unbalanced_module=add, loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
    u = {}
    for name, l in m.controllable.iterdict():
        u[name] = [num('u_%s_%d' % (name, j), None if x.is_sink else 0, None if x.is_source else 0) for j, x in enumerate(l)]
    return m, u


def rest(info, skip='balancing'):
    return totals({k: v for k, v in info.items() if k != skip})


def balance_checks(info):
    p, c = totals(info)
    check('provided equals absorbed', p, c)
    q, d = rest(info)
    b = info['balancing']
    check('one balancing entry', len(b), 1)
    check('loss load', b[0].get('provided_energy', 0), max(d - q, 0))
    check('overgeneration', b[0].get('absorbed_energy', 0), max(q - d, 0))
    check_true('never both', ite_(b[0].get('provided_energy', 0) == 0, True, b[0].get('absorbed_energy', 0) == 0))


def ob_balanced(mix):
    m, u = prepared(mix, True)
    obs, reward, done, info = m.run(u, normalized=False)
    balance_checks(info)


def ob_unbalanced_raises(mix):
    m, u = prepared(mix, False)
    r = raised(m.run, u, normalized=False, exc='RuntimeError')
    p, c = 0, 0
    for tag, role, v in m.modules.to_list()[0].journal:
        p = p + ite_(role == 'source', v, 0)
        c = c + ite_(role == 'sink', v, 0)
    check('raises exactly when not balanced', r, ite_(np.isclose(p, c), False, True))


def build(parts, n, t):
    mods, u = [], {}
    for j, k in enumerate(parts):
        tag = '%s%d_' % (k, j)
        if k == 'load':
            mods.append(load(tag, n, t)[0])
        elif k == 'pv':
            mods.append(renewable(tag, n, t)[0])
        elif k == 'battery':
            mods.append(battery(tag, initial_step=t)[0])
            u.setdefault('battery', []).append(num(tag + 'u'))
        elif k == 'grid':
            mods.append(grid(tag, n, t)[0])
            u.setdefault('grid', []).append(num(tag + 'u'))
        else:
            mods.append(genset(tag, initial_step=t)[0])
            u.setdefault('genset', []).append(np.array([num(tag + 's', 0, 1), num(tag + 'u', 0)]))
    return mods, u


def ob_real(parts):
    n, t = clock()
    mods, u = build(parts, n, 0)
    m = Microgrid(mods)
    obs, reward, done, info = m.run(u, normalized=False)
    balance_checks(info)


def ob_two_steps(parts):
    n, t = clock()
    assume(n > 2)
    mods, u = build(parts, n, 0)
    m = Microgrid(mods)
    m.run(u, normalized=False)
    obs, reward, done, info = m.run({k: [num('second_' + k)] for k in u}, normalized=False)
    balance_checks(info)


def ob_logged_balance():
    m, u = prepared('FS FK CB XB', True)
    obs, reward, done, info = m.run(u, normalized=False)
    lg = m.get_log(as_frame=False)
    p, c = totals(info)
    check('logged provided', lg[('balance', 0, 'overall_provided_to_microgrid')], {0: p})
    check('logged absorbed', lg[('balance', 0, 'overall_absorbed_from_microgrid')], {0: c})


def ob_forced_flex():
    """a flex source that cannot go below its minimum: a step it throws out of balance raises"""
    journal = []
    mods = [('FK', FixedProbe('FK', False, True, journal=journal, final_step=9)), ('CB', Probe('CB', True, True, journal=journal)),
            ('XS', FlexProbe('XS', True, False, journal=journal))]
    for _, x in mods[1:]:
        assume(x.min_production <= x.max_production)
    m = Microgrid(mods, add_unbalanced_module=False)
    r = raised(m.run, {'CB': [num('u')]}, normalized=False, exc='RuntimeError')
    p, c = 0, 0
    for tag, role, v in m.modules.to_list()[0].journal:
        p = p + ite_(role == 'source', v, 0)
        c = c + ite_(role == 'sink', v, 0)
    check('raises exactly when not balanced', r, ite_(np.isclose(p, c), False, True))
