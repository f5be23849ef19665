from common import *

CASES = {
    'ob_inductive_step': [{'on': 0}, {'on': 1}],
    'ob_history': [{'su': 0, 'wd': 0, 'k': 3, 'init': True}, {'su': 1, 'wd': 0, 'k': 4, 'init': True}, {'su': 0, 'wd': 1, 'k': 4, 'init': False},
                   {'su': 2, 'wd': 1, 'k': 5, 'init': False}, {'su': 1, 'wd': 2, 'k': 5, 'init': True}],
    'ob_production': [{'on': 0}, {'on': 1}],
    'ob_initial': [{'init': True}, {'init': False}],
}
THOROUGH = {'ob_history': [{'su': 3, 'wd': 2, 'k': 8, 'init': False}, {'su': 2, 'wd': 3, 'k': 8, 'init': True}, {'su': 0, 'wd': 4, 'k': 9, 'init': True},
                           {'su': 4, 'wd': 0, 'k': 9, 'init': False}, {'su': 3, 'wd': 3, 'k': 9, 'init': True}]}


def after(state, g, su, wd):
    """reference transition: state = (status, goal, up, down), g requested status"""
    status, goal, up, down = state
    same = ite_(g == status, True, False)
    left = ite_(g == 1, up, down)
    flip = ite_(same, False, left == 0)
    nstat = ite_(flip, g, status)
    settled = ite_(same, True, flip)
    nup = ite_(settled, ite_(nstat == 1, 0, su), ite_(g == 1, up - 1, up))
    ndown = ite_(settled, ite_(nstat == 1, wd, 0), ite_(g == 0, down - 1, down))
    return nstat, ite_(settled, nstat, g), nup, ndown


def as_dict(state):
    return dict(zip(('current_status', 'goal_status', 'steps_until_up', 'steps_until_down'), state))


def put(g, state):
    d = dict(zip([k for k in g.serializable_state_attributes()], [0, *state]))
    g.deserialize(d)
    return g


def gen_in_state(on, **kw):
    """a generator in an arbitrary reachable state"""
    su, wd = integer('su', 0), integer('wd', 0)
    g, p = genset(start_up_time=su, wind_down_time=wd, **kw)
    changing = boolean('changing')
    left = integer('left', 0)
    assume(left <= (wd if on else su))
    assume(ite_(changing, left < (wd if on else su), True))
    if on:
        state = (1, ite_(changing, 0, 1), 0, ite_(changing, left, wd))
    else:
        state = (0, ite_(changing, 1, 0), ite_(changing, left, su), 0)
    put(g, state)
    return g, p, state, su, wd


def ob_inductive_step(on):
    g, p, state, su, wd = gen_in_state(on)
    check('state before', g.state_dict(), as_dict(state))
    r = num('request', 0, 1)
    want = after(state, ite_(r > 0.5, 1, 0), su, wd)
    pred = g.next_status(ite_(r > 0.5, 1, 0))
    check('predicted status', pred, want[0])
    check('predicted limits', (g.next_min_production(ite_(r > 0.5, 1, 0)), g.next_max_production(ite_(r > 0.5, 1, 0))),
          (want[0] * p['running_min_production'], want[0] * p['running_max_production']))
    a = num('a', 0)
    obs, reward, done, info = g.step(np.array([r, a]), normalized=False)
    check('state after', g.state_dict(), as_dict(want))
    check('status', (g.current_status, g.goal_status), (want[0], want[1]))
    check_true('counters not negative', ite_(g.state_dict()['steps_until_up'] >= 0, g.state_dict()['steps_until_down'] >= 0, False))
    lo, hi = p['running_min_production'], p['running_max_production']
    check('production', info['provided_energy'], ite_(want[0] == 1, ite_(a > hi, hi, ite_(a < lo, lo, a)), 0))
    check('limits', (g.min_production, g.max_production), (want[0] * lo, want[0] * hi))


def ob_history(su, wd, k, init):
    g, p = genset(start_up_time=su, wind_down_time=wd, init_start_up=init)
    s = 1 if init else 0
    state = (s, s, 0 if init else su, wd if init else 0)
    for j in range(k):
        r = boolean('r%d' % j)
        g.step(np.array([ite_(r, 1, 0), num('a%d' % j, 0)]), normalized=False)
        state = after(state, ite_(r, 1, 0), su, wd)
        check('state after step %d' % j, g.state_dict(), as_dict(state))


def ob_production(on):
    g, p, state, su, wd = gen_in_state(on)
    check('limits', (g.min_production, g.max_production), (on * p['running_min_production'], on * p['running_max_production']))


def ob_initial(init):
    su, wd = integer('su', 0), integer('wd', 0)
    g, p = genset(start_up_time=su, wind_down_time=wd, init_start_up=init)
    s = 1 if init else 0
    check('initial state', g.state_dict(), as_dict((s, s, 0 if init else su, wd if init else 0)))


def ob_normalized_request():
    """the status part of a normalised action is the request itself"""
    g, p, state, su, wd = gen_in_state(0)
    r, x = num('request', 0, 1), num('x', 0, 1)
    g.step(np.array([r, x]))
    check('state after', g.state_dict(), as_dict(after(state, ite_(r > 0.5, 1, 0), su, wd)))


def ob_validation():
    lo, hi = num('lo', 0), num('hi', 0)
    check('minimum above maximum refused', raised(GensetModule, lo, hi, 1, exc='ValueError'), lo > hi)
    g, p = genset()
    r = num('r')
    check('request outside [0, 1] refused', raised(g.step, np.array([r, 0]), normalized=False), ite_(r < 0, True, r > 1))


def ob_reading_predictions_changes_nothing():
    g, p, state, su, wd = gen_in_state(0)
    g.next_status(1), g.next_status(0), g.next_max_production(1), g.next_min_production(0)
    check('state', g.state_dict(), as_dict(state))
