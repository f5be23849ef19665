from common import *
from pymgrid.modules.base import BaseMicrogridModule

CASES = {
    'ob_dispatch': [{'mix': 'FS FK CB DS XS'}, {'mix': 'FK CB CB XK XS'}, {'mix': 'FS CK DB XB XS XK'}, {'mix': 'CB XB XB FK'}, {'mix': 'FS FK XB XS'},
                    {'mix': 'XK XB CS FS'}, {'mix': 'FK XS XB XB'}],
    'ob_control_form': [{'form': 'tuple'}, {'form': 'array'}, {'form': 'column'}],
    'ob_missing_control': [{'mix': 'FK CB DS XB'}],
    'ob_extra_control': [{'mix': 'FK CB XB'}],
    'ob_normalized': [{'normalized': True}, {'normalized': False}],
    'ob_two_steps': [{'mix': 'FK CB XB XS'}],
}
THOROUGH = {'ob_dispatch': [{'mix': 'FS FK CB CB DS XS XS XK'}, {'mix': 'FK FS FK CB DB XS XK XB'}, {'mix': 'CS CS DK XB XS XK FK'}]}


def clip(m, a, role):
    if role == 'source':
        return ite_(a > m.max_production, m.max_production, ite_(a < m.min_production, m.min_production, a))
    return min(a, m.max_consumption)


def jot(m, a):
    """reference: what a module with the limits of m is asked for by the signed action a"""
    if m.is_source and m.is_sink:
        return ite_(a < 0, (m.tag, 'sink', clip(m, -a, 'sink')), (m.tag, 'source', clip(m, a, 'source')))
    if m.is_source:
        return (m.tag, 'source', clip(m, a, 'source'))
    return (m.tag, 'sink', clip(m, -a, 'sink'))


def control_for(m, k=0):
    """arbitrary control; for one-role modules of the right sign"""
    out = {}
    for name, mods in m.controllable.iterdict():
        out[name] = []
        for j, x in enumerate(mods):
            v = num('u_%s_%d_%d' % (name, j, k), None if x.is_sink else 0, None if x.is_source else 0)
            out[name].append(v)
    return out


def journal(m):
    return m.modules.to_list()[0].journal


def net(entries):
    p, c = 0, 0
    for tag, role, v in entries:
        p = p + ite_(role == 'source', v, 0)
        c = c + ite_(role == 'sink', v, 0)
    return p, c


def expected(m, control):
    out = []
    for name, mods in m.fixed.iterdict():
        for x in mods:
            out.append((x.tag, 'source' if x.is_source else 'sink', num(x.tag + '.amount', 0)))
    for name, mods in m.controllable.iterdict():
        for x, u in zip(mods, control[name]):
            out.append(jot(x, u))
    p, c = net(out)
    d = p - c
    surplus = ite_(d > 0, d, 0)
    deficit = ite_(d > 0, 0, -d)
    for name, mods in m.flex.iterdict():
        for x in mods:
            take = min(surplus, x.max_consumption) if x.is_sink else 0
            give = min(deficit, x.max_production) if x.is_source else 0
            if x.is_source and x.is_sink:
                out.append(ite_(take > 0, (x.tag, 'sink', take), (x.tag, 'source', give)))
            elif x.is_source:
                out.append((x.tag, 'source', give))
            else:
                out.append((x.tag, 'sink', take))
            surplus = surplus - take
            deficit = deficit - give
    return out


def limits_ok(mods):
    for _, x in mods:
        if x.is_source:
            assume(x.min_production <= x.max_production)


def ob_dispatch(mix):
    mods = probes(mix)
    limits_ok(mods)
    m = Microgrid(mods, add_unbalanced_module=False)
    u = control_for(m)
    want = expected(m, u)
    p, c = net(want)
    o = outcome(m.run, u, normalized=False)
    check('journal', journal(m), want)
    check('every module once', len(journal(m)), len(mods))


def ob_two_steps(mix):
    mods = probes(mix)
    limits_ok(mods)
    m = Microgrid(mods)
    u = control_for(m)
    want = expected_flex(m, u)
    m.run(u, normalized=False)
    u2 = control_for(m, 1)
    m.run(u2, normalized=False)
    check('journal', journal(m), want + expected_flex(m, u2))


def expected_flex(m, u):
    return expected(FakeGrid(m), u)


class FakeGrid:
    """view of a microgrid without its balancing module"""
    def __init__(self, m):
        self.fixed, self.controllable, self.flex = m.fixed, m.controllable, NoBalancing(m.flex)


class NoBalancing:
    def __init__(self, c):
        self.c = c

    def iterdict(self):
        return [(n, l) for n, l in self.c.iterdict() if n != 'balancing']


def ob_missing_control(mix):
    for missing in ('CB', 'DS'):
        mods = probes(mix)
        limits_ok(mods)
        m = Microgrid(mods, add_unbalanced_module=False)
        u = control_for(m)
        u.pop(missing)
        check('refused', raised(m.run, u, normalized=False, exc='ValueError'), True)
        flex = [x.tag for x in m.flex.to_list()]
        check('no flex module acted', [e for e in journal(m) if e[0] in flex], [])


def ob_extra_control(mix):
    mods = probes(mix)
    limits_ok(mods)
    m = Microgrid(mods)
    u = control_for(m)
    want = expected_flex(m, u)
    u['nosuchmodule'] = [num('z')]
    clear_events('warn')
    m.run(u, normalized=False)
    check('journal', journal(m), want)
    check_true('warned', len(events('warn')) > 0)


def ob_normalized(normalized):
    mods = probes('FK CB CB XB')
    limits_ok(mods)
    m = Microgrid(mods)
    x, y = num('x', 0, 1), num('y', 0, 1)
    a, b = (20 * x - 10, 20 * y - 10) if normalized else (x, y)
    want = expected_flex(m, {'CB': [a, b]})
    m.run({'CB': [np.array([x]), np.array([y])]}, normalized=normalized)
    check('journal', journal(m), want)


def ob_control_form(form):
    """the position in any sequence of controls addresses the module"""
    mods = probes('FK CB DS CB DS')
    limits_ok(mods)
    m = Microgrid(mods)
    a, b, c, d = num('a'), num('b'), num('c', 0), num('d', 0)
    want = expected_flex(m, {'CB': [a, b], 'DS': [c, d]})
    f = {'tuple': lambda x, y: (x, y), 'array': lambda x, y: np.array([x, y]), 'column': lambda x, y: np.array([[x], [y]])}[form]
    m.run({'DS': f(c, d), 'CB': f(a, b)}, normalized=False)
    check('journal', journal(m), want)


def ob_short_control():
    mods = probes('FK CB CB XB')
    limits_ok(mods)
    m = Microgrid(mods)
    check('too few controls refused', raised(m.run, {'CB': [num('a')]}, normalized=False, exc='ValueError'), True)
    flex = [x.tag for x in m.flex.to_list() if hasattr(x, 'tag')]
    check('no flex module acted', [e for e in journal(m) if e[0] in flex], [])


def ob_one_control_for_two():
    """a single number is the control of one module, not of all of that name"""
    mods = probes('FK CB CB XB')
    limits_ok(mods)
    m = Microgrid(mods)
    check('refused', raised(m.run, {'CB': num('a')}, normalized=False, exc='ValueError'), True)
    flex = [x.tag for x in m.flex.to_list() if hasattr(x, 'tag')]
    check('no flex module acted', [e for e in journal(m) if e[0] in flex], [])


def ob_scalar_control():
    """a single module may get its control without a list around it"""
    mods = probes('FK CB XB')
    limits_ok(mods)
    m = Microgrid(mods)
    a = num('a')
    want = expected_flex(m, {'CB': [a]})
    m.run({'CB': a}, normalized=False)
    check('journal', journal(m), want)


def ob_control_untouched():
    mods = probes('FK CB DS XB')
    limits_ok(mods)
    m = Microgrid(mods)
    u = control_for(m)
    before = snapshot(u)
    m.run(u, normalized=False)
    check('control after the step', snapshot(u), before)
