from common import *
from pymgrid.microgrid.reward_shaping import PVCurtailmentShaper, BatteryDischargeShaper

CASES = {
    'ob_curtailment': [{'k': 0}, {'k': 1}, {'k': 3}],
    'ob_discharge': [{'balancing': 'balancing'}, {'balancing': 'unbalanced_energy'}],
    'ob_partial': [{'missing': 'battery'}, {'missing': 'load'}, {'missing': 'balancing'}],
}


def limited(x):
    return max(-1, min(1, x))


def ob_curtailment(k):
    info = {'pv': [{'provided_energy': num('p%d' % i, 0), 'curtailment': num('c%d' % i, 0)} for i in range(k)],
            'load': [{'absorbed_energy': num('l', 0)}], 'wind': [{'curtailment': num('w', 0)}]}
    before = snapshot(info)
    r = PVCurtailmentShaper()(info, None)
    total = 0
    for i in range(k):
        total = total + num('c%d' % i, 0)
    check('minus the curtailment', r, -total)
    check_same('information kept', before, snapshot(info))


def ob_no_pv():
    check('no module of that name', PVCurtailmentShaper()({'load': [{'absorbed_energy': num('l', 0)}]}, {}), 0)
    check('no such entry', PVCurtailmentShaper()({'pv': [{'provided_energy': num('l', 0)}]}, {}), 0)
    check('some without the entry', PVCurtailmentShaper()({'pv': [{'provided_energy': num('l', 0)}, {'curtailment': num('c', 0)}]}, {}), -num('c', 0))


def ob_discharge(balancing):
    d1, d2, l1, l2, x = num('d1', 0), num('d2', 0), num('l1', 0), num('l2', 0), num('x', 0)
    info = {'battery': [{'provided_energy': d1}, {'absorbed_energy': num('ch', 0)}, {'provided_energy': d2}],
            'load': [{'absorbed_energy': l1}, {'absorbed_energy': l2}], balancing: [{'provided_energy': x}],
            'grid': [{'provided_energy': num('g', 0)}], 'genset': [{'provided_energy': num('gg', 0)}]}
    before = snapshot(info)
    r = BatteryDischargeShaper()(info, {})
    check('share of the load', r, ite_(l1 + l2 == 0, 0, limited((d1 + d2 - x) / (l1 + l2))))
    check_same('information kept', before, snapshot(info))


def ob_surplus():
    """an excess taken by the balancing module is no loss load"""
    d, l = num('d', 0), num('l', 0)
    r = BatteryDischargeShaper()({'battery': [{'provided_energy': d}], 'load': [{'absorbed_energy': l}], 'balancing': [{'absorbed_energy': num('o', 0)}]}, {})
    check('share of the load', r, ite_(l == 0, 0, limited(d / l)))


def ob_partial(missing):
    d, l, x = num('d', 0), num('l', 0), num('x', 0)
    info = {'battery': [{'provided_energy': d}], 'load': [{'absorbed_energy': l}], 'balancing': [{'provided_energy': x}]}
    del info[missing]
    if missing == 'battery':
        d = 0
    if missing == 'load':
        l = 0
    if missing == 'balancing':
        x = 0
    check('missing counts as zero', BatteryDischargeShaper()(info, None), ite_(l == 0, 0, limited((d - x) / l)) if missing != 'load' else 0)


def micro(shaper):
    n, t = clock()
    ld, ls = load('', n, t)
    pv, ps = renewable('', n, t)
    b, q, p = battery(initial_step=t)
    return Microgrid([ld, ('pv', pv), b, balancing(t)], add_unbalanced_module=False, reward_shaping_func=shaper), ls[t], ps[t]


def ob_in_microgrid_curtailment():
    m, l, p = micro(PVCurtailmentShaper())
    obs, reward, done, info = m.run({'battery': [0.0]}, normalized=False)
    used = min(l, p)
    check('reward', reward, -(p - used))


def ob_in_microgrid_discharge():
    m, l, p = micro(BatteryDischargeShaper())
    a = num('a', 0)
    assume(l > 0)
    obs, reward, done, info = m.run({'battery': [a]}, normalized=False)
    d = info['battery'][0]['provided_energy']
    open_ = max(l - d, 0)
    short = open_ - min(open_, p)
    check('reward', reward, limited((d - short) / l))


def ob_both_names():
    """loss load of both kinds of balancing module counts"""
    d, l, x, y = num('d', 0), num('l', 0), num('x', 0), num('y', 0)
    info = {'balancing': [{'provided_energy': x}], 'unbalanced_energy': [{'provided_energy': y}], 'battery': [{'provided_energy': d}], 'load': [{'absorbed_energy': l}]}
    check('share of the load', BatteryDischargeShaper()(info, {}), ite_(l == 0, 0, limited((d - x - y) / l)))


def ob_other_names():
    """only modules of the names that are meant count"""
    c, d, l = num('c', 0), num('d', 0), num('l', 0)
    info = {'renewable': [{'curtailment': c, 'provided_energy': d}], 'load': [{'absorbed_energy': l}]}
    check('curtailment elsewhere', PVCurtailmentShaper()(info, {}), 0)
    check('discharge elsewhere', BatteryDischargeShaper()({'storage': [{'provided_energy': d}], 'load': [{'absorbed_energy': l}]}, {}), 0)
