from common import *

CASES = {
    'ob_absolute': [{'kind': 'pv', 'h': 1}, {'kind': 'pv', 'h': 3}, {'kind': 'load', 'h': 2}],
    'ob_increasing': [{'h': 2}, {'h': 4}],
    'ob_later': [{'how': 'step'}, {'how': 'reset'}, {'how': 'horizon'}],
    'ob_longer_horizon': [{'h': 1}, {'h': 3}],
    'ob_near_end': [{'inc': False}, {'inc': True}],
}


def at(s, lo, hi, std, z):
    return min(max(s + std * z, lo), hi)


def mk(kind, s, **kw):
    return (RenewableModule if kind == 'pv' else LoadModule)(time_series=s, **kw)


def draws():
    return list(events('gauss'))


def shown(m, h):
    """the forecast part of the state"""
    return [v for v in m.state][-h:]


def ob_absolute(kind, h):
    """the state of a new module: one draw per future value, scaled by the number"""
    sd = num('std', 0)
    m = mk(kind, np.array([100.0, num('s1', 0, 100), num('s2', 0, 100), 0.0, 5.0]), forecaster=sd, forecast_horizon=h)
    clear_events('gauss')
    m.current_step = 0
    z = draws()
    check('one draw per value', len(z), h)
    lo, hi = m.min_obs[0], m.max_obs[0]
    true = [v for v in m.time_series[1:1 + h, 0]]
    check('forecast', shown(m, h), [at(true[k], lo, hi, sd, z[k]) for k in range(h)])
    check('reported deviation', m.forecaster.noise_std, sd)


def ob_relative():
    """scaled by the mean size of the data of the episode"""
    sd = num('std', 0)
    s = np.array([50.0, 100.0, num('s2', 0, 100), num('s3', 0, 100), 0.0, 7.0])
    m = mk('load', s, forecaster=sd, forecast_horizon=2, forecaster_relative_noise=True, initial_step=1, final_step=5)
    want = sd * ((100.0 + num('s2', 0, 100) + num('s3', 0, 100) + 0.0) / 4)
    check('reported deviation', m.forecaster.noise_std, want)
    clear_events('gauss')
    m.current_step = 1
    z = draws()
    check('forecast', shown(m, 2), [at(-num('s2', 0, 100), -100.0, 0.0, want, z[0]), at(-num('s3', 0, 100), -100.0, 0.0, want, z[1])])


def ob_increasing(h):
    sd = num('std', 0)
    m = mk('pv', np.array([100.0, num('s1', 0, 100), num('s2', 0, 100), num('s3', 0, 100), 0.0, 7.0]), forecaster=sd, forecast_horizon=h, forecaster_increase_uncertainty=True)
    want = [sd * (1 + np.log(1 + k)) for k in range(h)]
    check('reported deviation', [[v for v in r] for r in m.forecaster.noise_std], [[w] for w in want])
    clear_events('gauss')
    m.current_step = 0
    z = draws()
    check('one draw per value', len(z), h)
    true = [v for v in m.time_series[1:1 + h, 0]]
    check('forecast', shown(m, h), [at(true[k], 0.0, 100.0, want[k], z[k]) for k in range(h)])


def ob_grid():
    """several components: an own draw for each"""
    sd = num('std', 0)
    rows = [[100.0, 100.0, 100.0, 1.0], [num('a', 0, 100), num('b', 0, 100), num('c', 0, 100), 0.0], [0.0, 0.0, 0.0, 1.0]]
    m = GridModule(max_import=10, max_export=10, time_series=np.array(rows), forecaster=sd, forecast_horizon=1)
    clear_events('gauss')
    m.current_step = 0
    z = draws()
    check('one draw per component', len(z), 4)
    lo, hi = m.min_obs, m.max_obs
    check('forecast', shown(m, 4), [at(rows[1][k], lo[k], hi[k], sd, z[k]) for k in range(4)])


def ob_later(how):
    """every step, reset and change of the horizon draws anew"""
    sd = num('std', 0)
    m = mk('load', np.array([100.0, num('s1', 0, 100), num('s2', 0, 100), 0.0, 5.0]), forecaster=sd, forecast_horizon=1)
    clear_events('gauss')
    if how == 'step':
        m.step(0.0, normalized=False)
        true = [-num('s2', 0, 100)]
    elif how == 'reset':
        m.reset()
        true = [-num('s1', 0, 100)]
    else:
        m.forecast_horizon = 2
        clear_events('gauss')
        m.current_step = 0
        true = [-num('s1', 0, 100), -num('s2', 0, 100)]
    z = draws()
    check_true('new draws', len(z) >= len(true))
    z = z[-len(true):]
    check('forecast', shown(m, len(true)), [at(true[k], -100.0, 0.0, sd, z[k]) for k in range(len(true))])


def ob_near_end(inc):
    """entries beyond the end carry no noise"""
    sd = num('std', 0)
    m = mk('pv', np.array([100.0, num('s1', 0, 100), 0.0, num('s3', 0, 100)]), forecaster=sd, forecast_horizon=2, forecaster_increase_uncertainty=inc, initial_step=2)
    clear_events('gauss')
    m.current_step = 2
    z = draws()
    check('forecast', shown(m, 2), [at(num('s3', 0, 100), 0.0, 100.0, sd, z[-1]), 50.0])


def ob_microgrid():
    sd = num('std', 0)
    m = Microgrid([LoadModule(time_series=np.array([10.0, num('s1', 0, 10), 0.0])), ('pv', RenewableModule(time_series=np.array([20.0, num('p1', 0, 20), 0.0])))])
    m.set_forecaster(sd, forecast_horizon=1)
    check('reported deviations', (m.modules['load'][0].forecaster.noise_std, m.modules['pv'][0].forecaster.noise_std), (sd, sd))
    m.set_forecaster(sd, forecast_horizon=1, forecaster_relative_noise=True)
    check('relative', m.modules['pv'][0].forecaster.noise_std, sd * (20.0 + num('p1', 0, 20)) / 3)
    m.set_forecaster(sd, forecast_horizon=2, forecaster_increase_uncertainty=True)
    check('increasing', [[v for v in r] for r in m.modules['pv'][0].forecaster.noise_std], [[sd], [sd * (1 + np.log(2))]])


def ob_set_forecaster():
    """a new forecaster: plain noise unless asked otherwise"""
    sd = num('std', 0)
    m = mk('pv', np.array([20.0, num('p1', 0, 20), 0.0]))
    m.set_forecaster(sd, forecast_horizon=2)
    check('plain', m.forecaster.noise_std, sd)
    m.set_forecaster(sd, forecast_horizon=2, forecaster_relative_noise=True)
    check('relative', m.forecaster.noise_std, sd * (20.0 + num('p1', 0, 20)) / 3)
    m.set_forecaster(sd, forecast_horizon=2, forecaster_increase_uncertainty=True)
    check('increasing', [[v for v in r] for r in m.forecaster.noise_std], [[sd], [sd * (1 + np.log(2))]])


def ob_longer_horizon(h):
    """the deviations follow a change of the horizon"""
    sd = num('std', 0)
    m = mk('pv', np.array([100.0, num('s1', 0, 100), num('s2', 0, 100), num('s3', 0, 100), 0.0, 7.0]), forecaster=sd, forecast_horizon=2, forecaster_increase_uncertainty=True)
    m.forecast_horizon = h
    want = [sd * (1 + np.log(1 + k)) for k in range(h)]
    check('reported deviation', [[v for v in r] for r in m.forecaster.noise_std], [[w] for w in want])
    clear_events('gauss')
    m.current_step = 0
    z = draws()
    true = [v for v in m.time_series[1:1 + h, 0]]
    check('forecast', shown(m, h), [at(true[k], 0.0, 100.0, want[k], z[k]) for k in range(h)])


def ob_episode_data():
    """a new forecaster: relative to the data of the episode"""
    sd = num('std', 0)
    s = np.array([50.0, 100.0, num('s2', 0, 100), num('s3', 0, 100), 0.0, 7.0])
    m = mk('load', s, initial_step=1, final_step=4)
    m.set_forecaster(sd, forecast_horizon=2, forecaster_relative_noise=True)
    check('reported deviation', m.forecaster.noise_std, sd * ((100.0 + num('s2', 0, 100) + num('s3', 0, 100)) / 3))
