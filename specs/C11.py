from common import *

CASES = {
    'ob_columns': [{'mix': 'FS FK CB CB XS', 'k': 1}, {'mix': 'FK DS CB XB', 'k': 1}, {'mix': 'FK CB', 'k': 2}],
    'ob_trajectory': [{'k': 1}, {'k': 2}],
    'ob_index': [{'k': 1}, {'k': 3}],
}


def controls(m, j):
    u = {}
    for name, l in m.controllable.iterdict():
        u[name] = [num('u_%s_%d_%d' % (name, i, j), None if x.is_sink else 0, None if x.is_source else 0) for i, x in enumerate(l)]
    return u


def part(info, names):
    p, c = 0, 0
    for name, l in info.items():
        if name in names:
            for d in l:
                p = p + d.get('provided_energy', 0)
                c = c + d.get('absorbed_energy', 0)
    return p, c


def ob_columns(mix, k):
    mods = probes(mix)
    for _, x in mods:
        if x.is_source:
            assume(x.min_production <= x.max_production)
    m = Microgrid(mods, loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
    fixed = [n for n, l in m.fixed.iterdict()]
    ctrl = [n for n, l in m.controllable.iterdict()]
    bal = {'reward': [], 'shaped_reward': []}
    for j in range(k):
        obs, reward, done, info = m.run(controls(m, j), normalized=False)
        bal['reward'].append(reward)
        bal['shaped_reward'].append(reward)
        for pre, names in (('overall', list(info.keys())), ('fixed', fixed), ('controllable', ctrl)):
            p, c = part(info, names)
            bal.setdefault(pre + '_provided_to_microgrid', []).append(p)
            bal.setdefault(pre + '_absorbed_from_microgrid', []).append(c)
    want = {}
    for name, l in m.modules.iterdict():
        for i, x in enumerate(l):
            for f, v in x.log_dict().items():
                want[(name, i, f)] = v
    for f, v in bal.items():
        want[('balance', 0, f)] = v
    df = m.get_log()
    check('columns', sorted(df.columns.to_list()), sorted(want.keys()))
    check('column names', list(df.columns.names), ['module_name', 'module_number', 'field'])
    for key, v in want.items():
        check('column %s %d %s' % key, df[key].to_list(), v)
    check('rows', df.index.to_list(), list(range(k)))
    check('log property', m.log.index.to_list(), list(range(k)))
    plain = m.get_log(as_frame=False)
    check('as dictionary', plain, {key: dict(zip(range(k), v)) for key, v in want.items()})


def real(n, t, **kw):
    b, q, p = battery(initial_step=t)
    ld, ls = load('', n, t)
    return Microgrid([b, ld, balancing(t)], add_unbalanced_module=False, **kw), ls


def ob_index(k):
    """row j is labelled with the step at which it was taken"""
    n, t = clock()
    assume(t + k < n)
    m, ls = real(n, t)
    for j in range(k):
        m.run({'battery': [0.0]}, normalized=False)
    df = m.get_log()
    check('labels', df.index.to_list(), [t + j for j in range(k)])
    check('load met', df[('load', 0, 'load_met')].to_list(), [ls[t + j] for j in range(k)])
    d = m.get_log(as_frame=False)
    check('labels of the dictionary', [list(v.keys()) for v in d.values()], [[t + j for j in range(k)] for v in d])
    check('load met in the dictionary', list(d[('load', 0, 'load_met')].values()), [ls[t + j] for j in range(k)])
    m.reset()
    check('rows after reset', len(m.get_log()), 0)
    m.run({'battery': [0.0]}, normalized=False)
    df = m.get_log()
    check('labels after reset', df.index.to_list(), [t])
    check('load met after reset', df[('load', 0, 'load_met')].to_list(), [ls[t]])


def ob_trajectory(k):
    n = integer('n', 2)
    a, z = integer('a', 0), integer('z', 1)
    assume(a < z)
    assume(z <= n)
    assume(a + k < n)
    tr = lambda initial_step, final_step: (a, z)
    m, ls = real(n, 0, trajectory_func=tr)
    m.reset()
    for j in range(k):
        m.run({'battery': [0.0]}, normalized=False)
    df = m.get_log()
    check('labels', df.index.to_list(), [a + j for j in range(k)])
    check('load met', df[('load', 0, 'load_met')].to_list(), [ls[a + j] for j in range(k)])


def ob_shaped():
    sh = lambda step_info, cost_info: num('shaped')
    n, t = clock()
    m, ls = real(n, 0, reward_shaping_func=sh)
    m.run({'battery': [num('a')]}, normalized=False)
    df = m.get_log()
    r = 0
    for x in m.modules.iterlist():
        r = r + x.log_dict()['reward'][0]
    check('unshaped reward', df[('balance', 0, 'reward')].to_list(), [r])
    check('shaped reward', df[('balance', 0, 'shaped_reward')].to_list(), [num('shaped')])
