from common import *
from pymgrid.envs import DiscreteMicrogridEnv

CASES = {
    'ob_lists': [{'mix': 'B'}, {'mix': 'G'}, {'mix': 'B G'}, {'mix': 'B N G'}, {'mix': 'B Z'}, {'mix': 'G Z B'}, {'mix': 'Z Z'}, {'mix': 'Z B Z'}],
    'ob_step': [{'k': 0}, {'k': 1}, {'k': 2}, {'k': 3}],
    'ob_bad_number': [{'k': -1}, {'k': 4}, {'k': 7}],
    'ob_step_after_remove': [{'k': 1, 'gone': 0}, {'k': 0, 'gone': 2}],
    'ob_remove_unknown': [{'k': -1}, {'k': -2}, {'k': 4}],
    'ob_remove': [{'k': 0}, {'k': 2}, {'k': 3}],
}


class Asked(Probe):
    module_type = ('asked', 'controllable')

    def step(self, action, normalized=True):
        self.journal.append((action, normalized))
        return super().step(action, normalized=normalized)


class AskedGenset(GensetModule):
    seen = None

    def step(self, action, normalized=True):
        self.seen = (action[0], action[1], normalized)
        return super().step(action, normalized=normalized)


def serve(rem, limits):
    out = []
    for lo, hi, cons, sink in limits:
        if abs(rem) <= 0.0001:
            e = 0
        elif rem > 0:
            e = min(hi, max(lo, rem))
        elif sink:
            e = -min(cons, -rem)
        else:
            e = 0
        out.append(e)
        rem = rem - e
    return out


def modules(mix, t=0):
    out = []
    for j, c in enumerate(mix.split()):
        name = '%s%d' % (c, j)
        if c == 'B':
            p = Asked(name, True, True, idle=True)
        elif c == 'N':
            p = Asked(name, True, True, idle=True)
        else:
            lo = 0 if c == 'Z' else pos(name + 'min')
            hi = num(name + 'max', 0)
            assume(lo <= hi)
            p = AskedGenset(lo, hi, num(name + 'fuel', 0), start_up_time=choice(name + 'up', 0, 1), wind_down_time=0, init_start_up=boolean(name + 'init'))
        p.initial_step = t
        out.append((name, p))
    return out


def env(mix, **kw):
    n, t = clock()
    ld, ls = load('', n, t)
    pv, ps = renewable('', n, t)
    mods = modules(mix, t)
    e = DiscreteMicrogridEnv([ld, ('pv', pv), balancing(t)] + mods, add_unbalanced_module=False, **kw)
    e.reset()
    return e, mods, ls[t], ps[t]


def expected_lists(mods, drop):
    """every order of the sources with every admissible status"""
    if not mods:
        return [()]
    out = []
    for j, (name, p) in enumerate(mods):
        rest = mods[:j] + mods[j + 1:]
        gen = name[0] in 'GZ'
        for a in ([1] if gen and drop and name[0] == 'Z' else [0, 1] if gen else [0]):
            for tail in expected_lists(rest, drop):
                out.append(((name, 0, a),) + tail)
    return out


def ob_lists(mix):
    for drop in (True, False):
        e, mods, l, p = env(mix, remove_redundant_gensets=drop)
        got = [tuple([(x.module[0], x.module[1], x.action) for x in lst]) for lst in e.actions_list]
        want = expected_lists(mods, drop)
        check('number of actions', len(got), len(want))
        check('admissible lists', sorted(got), sorted(want))
        check('size of the space', e.action_space.n, len(want))


def ob_same_name():
    """modules that share a name are told apart by their position"""
    for drop in (True, False):
        n, t = clock()
        ld, ls = load('', n, t)
        ps = [Asked('B%d' % j, True, True, idle=True) for j in (0, 1)]
        g = modules('G', t)[0][1]
        for p in ps:
            p.initial_step = t
        e = DiscreteMicrogridEnv([ld, balancing(t), ('unit', ps[0]), ('gen', g), ('unit', ps[1])], add_unbalanced_module=False, remove_redundant_gensets=drop)
        got = [tuple([(x.module[0], x.module[1], x.action) for x in lst]) for lst in e.actions_list]
        a, b = ('unit', 0, 0), ('unit', 1, 0)
        want = []
        for s in (0, 1):
            c = ('gen', 0, s)
            want.extend([(a, b, c), (a, c, b), (b, a, c), (b, c, a), (c, a, b), (c, b, a)])
        check('number of actions', len(got), len(want))
        check('admissible lists', sorted(got), sorted(want))
        check('size of the space', e.action_space.n, len(want))


def ob_step(k):
    e, mods, l, p = env('B G')
    executes(e, mods, l, p, k)


def ob_step_after_remove(k, gone):
    """the numbers are those of the lists that are left"""
    e, mods, l, p = env('B G')
    e.remove_action(gone)
    executes(e, mods, l, p, k)


def ob_last_step():
    """the step that ends the episode is recorded like the others"""
    n = integer('n', 2)
    ld, ls = load('', n, n - 1)
    mods = modules('B', n - 1)
    e = DiscreteMicrogridEnv([ld, balancing(n - 1)] + mods, add_unbalanced_module=False)
    e.reset()
    o, r, done, info = e.step(0)
    check('over', done, True)
    d = e.get_log(as_frame=False)
    check('a record', ('action', 0, '') in d, True)
    check('recorded', list(d[('action', 0, '')].values()), [0])


def executes(e, mods, l, p, k):
    lst = e.actions_list[k]
    by = dict(mods)
    lim = []
    for x in lst:
        q = by[x.module[0]]
        if x.module[0] == 'B0':
            lim.append((q.lim_lo, q.lim_hi, q.lim_c, True))
        else:
            lim.append((q.next_min_production(x.action), q.next_max_production(x.action), 0, False))
    want = serve(l - p, lim)
    e.step(k)
    for x, w in zip(lst, want):
        q = e.modules[x.module[0]][0]
        if x.module[0] == 'B0':
            check('amount', q.journal[0][0], w)
            check('unnormalised', q.journal[0][1], False)
        else:
            check('status', q.seen[0], x.action)
            check('generator amount', q.seen[1], w)
            check('unnormalised', q.seen[2], False)
    check('recorded', e.get_log()[('action', 0, '')].iloc[0], k)


def ob_bad_number(k):
    e, mods, l, p = env('B G')
    before = snapshot(e)
    check('refused', raised(e.step, k, exc='ValueError'), True)
    check_same('nothing happened', before, snapshot(e))


def ob_remove(k):
    e, mods, l, p = env('B G')
    keep = e.actions_list[:k] + e.actions_list[k + 1:]
    e.remove_action(k)
    check('remaining lists', e.actions_list, keep)
    check('space', e.action_space.n, 3)
    check('last one gone', raised(e.step, 3, exc='ValueError'), True)
    check('cannot remove what is not there', raised(e.remove_action, 3, exc='ValueError'), True)
    check('still three', len(e.actions_list), 3)


def ob_remove_unknown(k):
    e, mods, l, p = env('B G')
    before = snapshot([[(x.module[0], x.module[1], x.action) for x in lst] for lst in e.actions_list])
    check('refused', raised(e.remove_action, k, exc='ValueError'), True)
    check_same('nothing removed', before, snapshot([[(x.module[0], x.module[1], x.action) for x in lst] for lst in e.actions_list]))
    check('size of the space', e.action_space.n, 4)


def ob_sample():
    e, mods, l, p = env('B G')
    a = e.sample_action()
    check_true('lower', a >= 0)
    check_true('upper', a < 4)
