from common import *
from pymgrid.algos import RuleBasedControl
from pymgrid.algos.priority_list import PriorityListElement


CASES = {
    'ob_probes': [{'mix': 'CS CS', 'which': 0}, {'mix': 'CS CB', 'which': 1}, {'mix': 'CB CS', 'which': 0}, {'mix': 'CB CB CB', 'which': 4}],
    'ob_genset': [{'first': True, 'on': True}, {'first': False, 'on': True}, {'first': False, 'on': False}],
}
THOROUGH = {
    'ob_probes': [{'mix': 'CS CB CB', 'which': 0}, {'mix': 'CS CB CB', 'which': 3}, {'mix': 'CB CB CB', 'which': 1}],
}


class Asked(Probe):
    """records the action it is stepped with"""
    module_type = ('asked', 'controllable')

    def step(self, action, normalized=True):
        self.journal.append((action, normalized))
        return super().step(action, normalized=normalized)


class AskedOther(Asked):
    module_type = ('askedother', 'controllable')


class AskedGenset(GensetModule):
    seen = None

    def step(self, action, normalized=True):
        self.seen = (action[0], action[1], normalized)
        return super().step(action, normalized=normalized)


def serve(rem, limits):
    """reference dispatch: (minimum, maximum production, maximum consumption, sink) in list order"""
    out = []
    for lo, hi, cons, sink in limits:
        if abs(rem) <= 0.0001:
            e = 0
        elif rem > 0:
            e = min(hi, max(lo, rem))
        elif sink:
            e = -min(cons, -rem)
        else:
            e = 0
        out.append(e)
        rem = rem - e
    return out


def probe_modules(mix):
    mods = []
    for j, code in enumerate(mix.split()):
        cls = Asked if j % 2 == 0 else AskedOther
        p = cls('p%d' % j, True, code[1] == 'B', idle=j != 0)
        mods.append(('p%d' % j, p))
    return mods


def ob_probes(mix, which):
    n, t = clock()
    ld, ls = load('', n, t)
    pv, ps = renewable('', n, t)
    mods = probe_modules(mix)
    k = len(mods)
    for _, p in mods:
        p.initial_step = t
        assume(p.lim_lo <= p.lim_hi)
    m = Microgrid([ld, ('pv', pv), balancing(t)] + mods, add_unbalanced_module=False)
    lists = RuleBasedControl(m).get_priority_lists(False)
    chosen = lists[which]
    rbc = RuleBasedControl(m, priority_list=chosen)
    rbc.run(max_steps=1)
    check('list used', [e.module[0] for e in rbc.priority_list], [e.module[0] for e in chosen])
    order = [dict(mods)[e.module[0]] for e in chosen]
    want = serve(ls[t] - ps[t], [(p.lim_lo, p.lim_hi, p.lim_c, p.snk) for p in order])
    for p, w, e in zip(order, want, chosen):
        asked = rbc.microgrid.modules[e.module[0]][0].journal[0]
        check('amount', asked[0], w)
        check('not normalised', asked[1], False)
    check('one step', [len(rbc.microgrid.modules[e.module[0]][0].journal) for e in chosen], [2] * k)


def ob_genset(first, on):
    n, t = clock()
    ld, ls = load('', n, t)
    pv, ps = renewable('', n, t)
    lo = pos('run_min')
    hi = num('run_max', 0)
    assume(lo <= hi)
    g = AskedGenset(lo, hi, num('fuel', 0), start_up_time=choice('up', 0, 1, 2), wind_down_time=choice('down', 0, 1), init_start_up=boolean('init'))
    g.initial_step = t
    p = Asked('p', True, True, idle=True)
    p.initial_step = t
    m = Microgrid([ld, ('pv', pv), ('gen', g), ('p', p), balancing(t)], add_unbalanced_module=False)
    status = 1 if on else 0
    lists = [x for x in RuleBasedControl(m).get_priority_lists(False) if (x[0].module[0] == 'gen') == first and [e.action for e in x if e.module[0] == 'gen'] == [status]]
    check('one such list', len(lists), 1)
    rbc = RuleBasedControl(m, priority_list=lists[0], remove_redundant_gensets=False)
    gl = (g.next_min_production(status), g.next_max_production(status), 0, False)
    pl = (p.lim_lo, p.lim_hi, p.lim_c, True)
    want = serve(ls[t] - ps[t], [gl, pl] if first else [pl, gl])
    rbc.run(max_steps=1)
    seen = rbc.microgrid.modules['gen'][0].seen
    check('status requested', seen[0], status)
    check('generator amount', seen[1], want[0] if first else want[1])
    check('not normalised', seen[2], False)
    check('other amount', rbc.microgrid.modules['p'][0].journal[0][0], want[1] if first else want[0])


def ob_same_name():
    """several loads, renewables and two modules under one name"""
    n, t = clock()
    l1, s1 = load('a', n, t)
    l2, s2 = load('b', n, t)
    pv, ps = renewable('', n, t)
    w, ws = renewable('w', n, t)
    v, vs = renewable('v', n, t)
    p0, p1 = Asked('p0', True, True, idle=True), Asked('p1', True, True, idle=True)
    p0.initial_step = t
    p1.initial_step = t
    m = Microgrid([l1, l2, ('pv', pv), ('wind', w), ('pv', v), ('p', p0), ('p', p1), balancing(t)], add_unbalanced_module=False)
    for lst in RuleBasedControl(m).get_priority_lists(True):
        rbc = RuleBasedControl(m, priority_list=lst)
        rbc.run(max_steps=1)
        order = [[p0, p1][e.module[1]] for e in lst]
        want = serve(s1[t] + s2[t] - ps[t] - ws[t] - vs[t], [(p.lim_lo, p.lim_hi, p.lim_c, True) for p in order])
        for e, x in zip(lst, want):
            check('amount', rbc.microgrid.modules['p'][e.module[1]].journal[0][0], x)


def costed(t):
    n = integer('n', 2)
    ld, ls = load('', n, 0)
    mods = probe_modules('CS CB CB')
    return Microgrid([ld] + mods)


def ob_default_order():
    m = costed(0)
    pl = RuleBasedControl(m).priority_list
    c = {'p%d' % i: num('p%d.pmc' % i) for i in range(3)}
    names = [e.module[0] for e in pl]
    check('each module once', sorted(names), ['p0', 'p1', 'p2'])
    costs = [c[x] for x in names]
    check_true('increasing', costs[0] <= costs[1])
    check_true('increasing', costs[1] <= costs[2])


def ob_default_genset():
    n = integer('n', 2)
    ld, ls = load('', n, 0)
    g, p = genset(start_up_time=choice('up', 0, 1))
    q = Asked('p', True, True)
    m = Microgrid([ld, ('gen', g), ('p', q)])
    pl = RuleBasedControl(m).priority_list
    check('both modules', sorted([e.module[0] for e in pl]), ['gen', 'p'])
    gc = p['genset_cost'] + p['co2_per_unit'] * p['cost_per_unit_co2']
    check('cheaper one first', pl[0].module[0], ite_(gc < num('p.pmc'), 'gen', ite_(gc > num('p.pmc'), 'p', pl[0].module[0])))
    check('generator runs', [e.action for e in pl if e.module[0] == 'gen'], [1])


def ob_element_order():
    a = PriorityListElement(('a', 0), 2, integer('x', 0, 1), num('ca'))
    b = PriorityListElement(('b', 0), 2, integer('y', 0, 1), num('cb'))
    check('order', a < b, (num('ca') < num('cb')) | ((num('ca') == num('cb')) & (integer('x', 0, 1) > integer('y', 0, 1))))
    check('other module differs', a == b, False)
    c = PriorityListElement(('a', 0), 2, integer('y', 0, 1), num('cb'))
    check('equality', a == c, (num('ca') == num('cb')) & (integer('x', 0, 1) == integer('y', 0, 1)))


def ob_refuses():
    m = costed(0)
    r = RuleBasedControl(m)
    check('not a list of this microgrid', raised(RuleBasedControl, m, [PriorityListElement(('nobody', 0), 1, 0, 1.0)], exc='ValueError'), True)
    check('incomplete', raised(RuleBasedControl, m, r.get_priority_lists(True)[0][:2], exc='ValueError'), True)
    check('complete', raised(RuleBasedControl, m, r.get_priority_lists(True)[5]), False)


def ob_run_length():
    """until done or the step limit, starting with a reset"""
    t = 1
    ld = LoadModule(time_series=np.array([3.0, 1.0, 4.0, 2.0, 5.0, 2.5]), initial_step=t, final_step=t + 3)
    q = 7.5
    b = BatteryModule(min_capacity=0, max_capacity=10, max_charge=5, max_discharge=5, efficiency=0.5, init_charge=q, initial_step=t)
    m = Microgrid([ld, b, balancing(t)], add_unbalanced_module=False)
    rbc = RuleBasedControl(m)
    rbc.run(max_steps=2)
    check('limit', len(rbc.microgrid.modules['load'][0].log_dict()['reward']), 2)
    check('clock', rbc.microgrid.current_step, t + 2)
    rbc.run(max_steps=1)
    check('starts over', rbc.microgrid.current_step, t + 1)
    rbc.run(max_steps=0)
    check('no step', rbc.microgrid.current_step, t)
    log = rbc.run(max_steps=4)
    check('done', rbc.microgrid.current_step, t + 3)
    check('rows', len(log), 3)
    check('original untouched', m.current_step, t)
    check('original untouched', m.modules['battery'][0].current_charge, q)
