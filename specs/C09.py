from common import *

CASES = {
    'ob_aggregate': [{'mix': 'FS FK CB CB XS'}, {'mix': 'FK DS CB XB XK'}, {'mix': 'FK FK XB'}],
    'ob_shaped': [{'mix': 'FK CB XB'}],
    'ob_done': [{'mix': 'FK CB CB XB'}],
}
THOROUGH = {'ob_aggregate': [{'mix': 'FS FS FK CB CB DS XS XK XB'}]}


def prepared(mix, **kw):
    mods = probes(mix)
    for _, x in mods:
        if x.is_source:
            assume(x.min_production <= x.max_production)
    m = Microgrid(mods, loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0), **kw)
    u = {}
    for name, l in m.controllable.iterdict():
        u[name] = [num('u_%s_%d' % (name, j), None if x.is_sink else 0, None if x.is_source else 0) for j, x in enumerate(l)]
    return m, u


def rewards(m):
    """what each module reported, taken from the module logs"""
    return {name: [x.log_dict()['reward'][-1] for x in l] for name, l in m.modules.iterdict()}


def total(d):
    out = 0
    for l in d.values():
        for v in l:
            out = out + v
    return out


def expected_info(m):
    out = {}
    for name, l in m.modules.iterdict():
        if name == 'balancing':
            continue
        out[name] = []
        for x in l:
            e = [j for j in x.journal if j[0] == x.tag]
            role, v = e[0][1], e[0][2]
            out[name].append(ite_(role == 'source', v, -v))
    return out


def ob_aggregate(mix):
    m, u = prepared(mix)
    obs, reward, done, info = m.run(u, normalized=False)
    r = rewards(m)
    check('reward is the sum of module rewards', reward, total(r))
    check('done', done, False)
    names = m.modules.names()
    check('observation keys', sorted(obs.keys()), sorted(names))
    check('info keys', sorted(info.keys()), sorted(names))
    got = {name: [d.get('provided_energy', 0) - d.get('absorbed_energy', 0) for d in l] for name, l in info.items() if name != 'balancing'}
    check('infos are those of the modules, in order', got, expected_info(m))
    check('observations are those of the modules, in order', {k: v for k, v in obs.items() if k != 'balancing'},
          {name: [x.level for x in l] for name, l in m.modules.iterdict() if name != 'balancing'})
    lg = m.get_log(as_frame=False)
    check('logged reward', lg[('balance', 0, 'reward')], {0: total(r)})
    check('logged shaped reward', lg[('balance', 0, 'shaped_reward')], {0: total(r)})


class Shaper:
    """records what it was given"""
    def __init__(self):
        self.calls = []

    def __call__(self, step_info, cost_info):
        self.calls.append((step_info, cost_info))
        return num('shaped')


def ob_shaped(mix):
    sh = Shaper()
    m, u = prepared(mix, reward_shaping_func=sh)
    costs = m.get_cost_info()
    obs, reward, done, info = m.run(u, normalized=False)
    check('reward is the shaped one', reward, num('shaped'))
    lg = m.get_log(as_frame=False)
    check('logged reward is the unshaped one', lg[('balance', 0, 'reward')], {0: total(rewards(m))})
    check('logged shaped reward', lg[('balance', 0, 'shaped_reward')], {0: num('shaped')})
    check('shaper got the final infos', sh.calls[-1][0], info)
    check('shaper got the costs before the step', sh.calls[-1][1], costs)
    check('cost info', {k: [(d['production_marginal_cost'], d['absorption_marginal_cost']) for d in v] for k, v in costs.items()},
          {name: [(x.production_marginal_cost, x.absorption_marginal_cost) for x in l] for name, l in m.modules.iterdict()})


def ob_cost_info_before_step():
    """prices handed to the shaper are those of the step being taken"""
    n, t = clock()
    sh = Shaper()
    g, s, p = grid(n=n, t=t)
    ld, ls = load(n=n, t=t)
    b, q, bp = battery(initial_step=t)
    gs, gp = genset(initial_step=t)
    m = Microgrid([g, ld, gs, b, balancing(t)], add_unbalanced_module=False, reward_shaping_func=sh)
    m.run({'grid': [num('a')], 'genset': [np.array([1, 0])], 'battery': [0.0]}, normalized=False)
    c = sh.calls[-1][1]
    check('grid prices', c['grid'][0], {'production_marginal_cost': s[t, 0], 'absorption_marginal_cost': s[t, 1]})
    check('battery', c['battery'][0], {'production_marginal_cost': bp['battery_cost_cycle'], 'absorption_marginal_cost': bp['battery_cost_cycle']})
    check('genset', c['genset'][0]['production_marginal_cost'], gp['genset_cost'] + gp['cost_per_unit_co2'] * gp['co2_per_unit'])


def ob_cost_info_second_step():
    """at every step anew"""
    n, t = clock()
    sh = Shaper()
    g, s, p = grid(n=n, t=t)
    ld, ls = load(n=n, t=t)
    m = Microgrid([g, ld, balancing(t)], add_unbalanced_module=False, reward_shaping_func=sh)
    m.run({'grid': [0.0]}, normalized=False)
    check('first step', sh.calls[-1][1]['grid'][0], {'production_marginal_cost': s[t, 0], 'absorption_marginal_cost': s[t, 1]})
    m.run({'grid': [0.0]}, normalized=False)
    check('second step', sh.calls[-1][1]['grid'][0], {'production_marginal_cost': s[t + 1, 0], 'absorption_marginal_cost': s[t + 1, 1]})
    m.reset()
    m.run({'grid': [0.0]}, normalized=False)
    check('after a reset', sh.calls[-1][1]['grid'][0], {'production_marginal_cost': s[t, 0], 'absorption_marginal_cost': s[t, 1]})


def ob_done(mix):
    mods = probes(mix)
    for _, x in mods:
        if x.is_source:
            assume(x.min_production <= x.max_production)
    flags = [boolean('done%d' % j) for j in range(len(mods))]
    for (name, x), f in zip(mods, flags):
        x.finished = f
    m = Microgrid(mods)
    u = {}
    for name, l in m.controllable.iterdict():
        u[name] = [num('u_%s_%d' % (name, j)) for j, x in enumerate(l)]
    obs, reward, done, info = m.run(u, normalized=False)
    any_ = False
    for f in flags:
        any_ = ite_(f, True, any_)
    check('done iff some module is', done, any_)


def ob_two_steps():
    """the result of a step does not carry over earlier steps"""
    m, u = prepared('FK CB')
    obs, reward, done, info = m.run(u, normalized=False)
    first = snapshot(info)
    r1 = total(rewards(m))
    u2 = {k: [num('second')] for k in u}
    obs2, reward2, done2, info2 = m.run(u2, normalized=False)
    check('reward of the second step', reward2, total(rewards(m)))
    check('one info per module', {k: len(v) for k, v in info2.items()}, {k: 1 for k in info2})
    check('first info untouched', snapshot(info), first)
    lg = m.get_log(as_frame=False)
    check('logged rewards', lg[('balance', 0, 'reward')], {0: r1, 1: reward2})


def ob_real():
    n, t = clock()
    ld, ls = load('', n, 0)
    pv, ps = renewable('', n, 0)
    b, q, p = battery()
    m = Microgrid([b, pv, ld], loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
    a = num('a')
    obs, reward, done, info = m.run({'battery': [a]}, normalized=False)
    check('reward', reward, total(rewards(m)))
    check('done', done, n == 1)
    e = ite_(a > 0, min(a, min(p['max_discharge'], q - p['min_capacity']) * p['efficiency']), 0)
    c = ite_(a > 0, 0, min(-a, min(p['max_charge'], p['max_capacity'] - q) / p['efficiency']))
    check('battery cost counted', rewards(m)['battery'], [-p['battery_cost_cycle'] * ite_(a > 0, e / p['efficiency'], c * p['efficiency'])])


class SizedShaper:
    """a shaping function that also has a length (zero)"""
    def __len__(self):
        return 0

    def __call__(self, step_info, cost_info):
        return num('shaped')


def ob_sized_shaper():
    m, u = prepared('FK CB XB', reward_shaping_func=SizedShaper())
    check('reward is the shaped one', m.run(u, normalized=False)[1], num('shaped'))
