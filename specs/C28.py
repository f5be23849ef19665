from common import *
from common_nonmodular import *

CASES = {
    'ob_step': [{'mix': 'BIG'}, {'mix': 'BI'}, {'mix': 'BG'}, {'mix': 'IG'}, {'mix': 'B'}, {'mix': 'G'}, {'mix': 'I'}],
    'ob_balance': [{'mix': 'BIG', 'inside': 2}, {'mix': 'BI', 'inside': 1}, {'mix': 'BG', 'inside': 1}, {'mix': 'IG', 'inside': 0},
                   {'mix': 'B', 'inside': 0}, {'mix': 'G', 'inside': 0}, {'mix': 'I', 'inside': 0}],
    'ob_second_step': [{'mix': 'BI'}, {'mix': 'BG'}],
    'ob_charged': [{'mix': 'B', 'first': 'battery_charge'}, {'mix': 'B', 'first': 'battery_discharge'}, {'mix': 'BI', 'first': 'battery_charge'},
                   {'mix': 'BG', 'first': 'battery_discharge'}],
    'ob_time': [{'horizon': 1}, {'horizon': 2}, {'horizon': 3}],
    'ob_reset': [{'mix': 'BI'}, {'mix': 'BG'}],
    'ob_near_zero': [{'mix': 'BI'}, {'mix': 'BG'}],
    'ob_split': [{'part': 'training'}, {'part': 'testing'}],
    'ob_split_episode': [{'size': 0.4, 'part': 'training'}, {'size': 0.4, 'part': 'testing'}, {'size': 0.8, 'part': 'training'}],
    'ob_forecasts': [{'k': 0}, {'k': 1}],
}


def command(mix, tag=''):
    """any command; the generator is either off or asked for more than one unit"""
    c = {}
    if 'B' in mix:
        c['battery_charge'], c['battery_discharge'] = num(tag + 'charge'), num(tag + 'discharge')
    if 'G' in mix:
        g = num(tag + 'genset', 0)
        assume((g == 0) | (g > 1))
        c['genset'] = g
    if 'I' in mix:
        c['grid_import'], c['grid_export'] = num(tag + 'import'), num(tag + 'export')
    return c


def ob_step(mix):
    m, P, data = build(mix)
    c = command(mix)
    values = m.run(dict(c))
    soc = P.get('battery_soc_0', 0)
    e, need = expected(mix, P, data, c, soc, 0)
    p = last(m._df_record_actual_production)
    for k in e:
        check('produced ' + k, p[k], e[k])
    want, co2 = costs(mix, P, data, p, 0)
    got = last(m._df_record_cost)
    for k in want:
        check('cost ' + k, got[k], want[k])
    check('cost entries', set(got.keys()), set(want.keys()))
    check('emissions', m.get_co2(), co2)
    check('get_cost', m.get_cost(), want['total_cost'])
    check('load and pv of the next step', (values['load'], values['pv']), (data['load'][1], data['pv'][1]))
    if 'B' in mix:
        check('state of charge', values['battery_soc'],
              soc + (p['battery_charge'] * P['battery_efficiency'] - p['battery_discharge'] / P['battery_efficiency']) / P['battery_capacity'])
        check('battery follows', m.battery.soc, values['battery_soc'])
    if 'I' in mix:
        check('grid of the next step', (values['grid_status'], values['grid_price_import'], values['grid_price_export'], values['grid_co2']),
              (data['grid_ts'][1], data['grid_price_import'][1], data['grid_price_export'][1], data['grid_co2'][1]))
        check('grid follows', (m.grid.status, m.grid.price_import, m.grid.price_export, m.grid.co2),
              (data['grid_ts'][1], data['grid_price_import'][1], data['grid_price_export'][1], data['grid_co2'][1]))
    check('load and pv follow', (m.load, m.pv), (data['load'][1], data['pv'][1]))
    check('not done', m.done, False)


def ob_balance(mix, inside):
    """whatever the components leave over is curtailed, lost or generated in excess; inside: a roomy battery is asked for what it can do"""
    m, P, data = build(mix, roomy=inside)
    c = command(mix)
    if inside:
        for k in ('battery_charge', 'battery_discharge'):
            assume(c[k] >= 0)
            assume(c[k] <= 10)
    if inside == 2:
        for k in ('grid_import', 'grid_export'):
            assume(c[k] >= 0)
            assume(c[k] <= 10)
        assume((c['genset'] == 0) | (c['genset'] >= 2))
        assume(c['genset'] <= 10)
    m.run(dict(c))
    e, need = expected(mix, P, data, c, P.get('battery_soc_0', 0), 0)
    if inside:
        e, need = expected(mix.replace('B', '') if inside == 1 else '', P, data, c, 0, 0)
        if inside == 2:
            need = need + c['grid_export'] - c['grid_import'] - c['genset']
        need = need + c['battery_charge'] - c['battery_discharge']
    p = last(m._df_record_actual_production)
    pv = data['pv'][0]
    check('pv is either used or curtailed', p['pv_consummed'] + p['pv_curtailed'], pv)
    check_true('pv used', p['pv_consummed'] >= 0)
    check_true('nothing negative', min(p['pv_curtailed'], p['loss_load'], p['overgeneration']) >= 0)
    gap = p['pv_consummed'] + p['loss_load'] - p['overgeneration'] - need
    check_true('balance, lower', gap > -0.0011)
    check_true('balance, upper', gap < 0.0011)
    far = abs(need - pv) >= 0.001
    check('loss load', ite_(far, p['loss_load'], 0), ite_(far, max(need - pv, 0), 0))
    check('overgeneration', ite_(far, p['overgeneration'], 0), ite_(far, max(-need, 0), 0))


def ob_second_step(mix):
    m, P, data = build(mix)
    c = command(mix)
    calm = {k: 0 for k in c}
    m.run(dict(calm))
    soc = m._df_record_state['battery_soc'][-1]
    values = m.run(dict(c))
    e, need = expected(mix, P, data, c, soc, 1)
    p = last(m._df_record_actual_production)
    for k in e:
        check('produced ' + k, p[k], e[k])
    want, co2 = costs(mix, P, data, p, 1)
    got = last(m._df_record_cost)
    for k in want:
        check('cost ' + k, got[k], want[k])
    check('emissions', m.get_co2(), co2)
    check('load and pv of the next step', (values['load'], values['pv']), (data['load'][2], data['pv'][2]))
    if 'I' in mix:
        check('grid of the next step', (values['grid_status'], values['grid_price_import'], values['grid_price_export'], values['grid_co2']),
              (data['grid_ts'][2], data['grid_price_import'][2], data['grid_price_export'][2], data['grid_co2'][2]))
    check('records', {len(v) for v in m._df_record_actual_production.values()} | {len(v) for v in m._df_record_cost.values()}, {2})
    check('commands', {len(v) for v in m._df_record_control_dict.values()}, {2})


def ob_charged(mix, first):
    """the limits of a step are those of the charge the steps before have left"""
    m, P, data = build(mix, roomy=1, fixed={'battery_power_charge': 1000, 'battery_power_discharge': 1000})
    calm = {k: 0 for k in command(mix)}
    x = num('first', 0, 10)
    start = dict(calm)
    start[first] = x
    m.run(start)
    soc = 0.5 + (x * 0.5 if first == 'battery_charge' else -x / 0.5) / 100
    check('charge', m.battery.soc, soc)
    c = dict(calm)
    c['battery_charge'], c['battery_discharge'] = num('charge', 0), num('discharge', 0)
    values = m.run(dict(c))
    e, need = expected(mix, P, data, c, soc, 1)
    p = last(m._df_record_actual_production)
    for k in ('battery_charge', 'battery_discharge'):
        check('produced ' + k, p[k], e[k])
    check('state of charge', values['battery_soc'], soc + (p['battery_charge'] * 0.5 - p['battery_discharge'] / 0.5) / 100)


def ob_near_zero(mix):
    """nothing is needed from the pv: all of it is curtailed"""
    m, P, data = build(mix, load=np.zeros(N))
    c = {k: 0 for k in command(mix)}
    m.run(dict(c))
    p = last(m._df_record_actual_production)
    pv = data['pv'][0]
    check('pv is either used or curtailed', p['pv_consummed'] + p['pv_curtailed'], pv)
    check('rest', (p['loss_load'], p['overgeneration']), (0, 0))


def ob_time(horizon):
    m, P, data = build('BI', horizon)
    calm = {k: 0 for k in command('BI')}
    for k in range(N - horizon):
        check('not done', m.done, False)
        check('load', m.load, data['load'][k])
        m.run(dict(calm))
    check('not done before the last step', m.done, False)
    v = m.run(dict(calm))
    check('done', m.done, True)
    check('time stands still', m.load, data['load'][N - horizon])


def ob_reset(mix):
    m, P, data = build(mix)
    c = command(mix)
    m.run(dict(c))
    m.reset()
    check('time', (m.load, m.pv, m.done), (data['load'][0], data['pv'][0], False))
    check('charge', m.battery.soc, P['battery_soc_0'])
    check('records', {len(v) for v in m._df_record_actual_production.values()} | {len(v) for v in m._df_record_cost.values()}, {0})
    d, P2, data2 = build(mix)
    check('same as fresh', m.run(dict(c)), d.run(dict(c)))
    check('same production', last(m._df_record_actual_production), last(d._df_record_actual_production))
    check('same cost', last(m._df_record_cost), last(d._df_record_cost))


def ob_control_kept():
    for mix in ('BI', 'BG'):
        m, P, data = build(mix)
        c = command(mix)
        c['pv_consummed'] = num('used')
        before = dict(c)
        m.run(c)
        check('control', c, before)


def ob_forecasts(k):
    m, P, data = build('BI', horizon=2)
    calm = {j: 0 for j in command('BI')}
    for j in range(k):
        m.run(dict(calm))
    f = m.forecast_all()
    check('load', list(f['load']), [data['load'][k], data['load'][k + 1]])
    check('pv', list(f['pv']), [data['pv'][k], data['pv'][k + 1]])
    check('status', list(f['grid_status']), [data['grid_ts'][k], data['grid_ts'][k + 1]])
    check('import', list(f['grid_import']), [data['grid_price_import'][k], data['grid_price_import'][k + 1]])
    check('export', list(f['grid_export']), [data['grid_price_export'][k], data['grid_price_export'][k + 1]])
    check('co2', list(f['grid_co2']), [data['grid_co2'][k], data['grid_co2'][k + 1]])


def ob_split(part):
    """only rows of the selected part are used, in order"""
    m, P, data = build('BI', horizon=2)
    m.train_test_split(train_size=0.6)
    if part == 'testing':
        m.reset(testing=True)
    rows = [0, 1, 2] if part == 'training' else [3, 4]
    c = command('BI')
    f = m.forecast_all()
    for key, name in (('load', 'load'), ('pv', 'pv'), ('grid_status', 'grid_ts'), ('grid_import', 'grid_price_import'), ('grid_export', 'grid_price_export'),
                      ('grid_co2', 'grid_co2')):
        check('forecast ' + key, list(f[key]), [data[name][r] for r in rows[:2]])
    check('load and pv', (m.load, m.pv), (data['load'][rows[0]], data['pv'][rows[0]]))
    check('grid', (m.grid.status, m.grid.price_import, m.grid.price_export, m.grid.co2),
          tuple([data[k][rows[0]] for k in ('grid_ts', 'grid_price_import', 'grid_price_export', 'grid_co2')]))
    v = m.run(dict(c))
    p = last(m._df_record_actual_production)
    want, co2 = costs('BI', P, data, p, rows[0])
    check('cost', m.get_cost(), want['total_cost'])
    check('emissions', m.get_co2(), co2)
    check('next', (v['load'], v['pv'], v['grid_status'], v['grid_price_import'], v['grid_price_export'], v['grid_co2']),
          tuple([data[k][rows[1]] for k in ('load', 'pv', 'grid_ts', 'grid_price_import', 'grid_price_export', 'grid_co2')]))
    check('done', m.done, part == 'testing')


def ob_split_episode(size, part):
    """an episode uses the whole part; afterwards everything starts over, on either part or on all of the data"""
    m, P, data = build('BI', horizon=1)
    m.train_test_split(train_size=size)
    if part == 'testing':
        m.reset(testing=True)
    cut = 2 if size == 0.4 else 4
    rows = [0, 1, 2, 3, 4][:cut] if part == 'training' else [0, 1, 2, 3, 4][cut:]
    calm = {k: 0 for k in command('BI')}
    charge = dict(calm, battery_charge=num('charge', 0))
    for i in range(len(rows) - 1):
        check('load and pv', (m.load, m.pv), (data['load'][rows[i]], data['pv'][rows[i]]))
        check('not done', m.done, False)
        m.run(dict(charge if i == 0 else calm))
    check('last row', (m.load, m.pv, m.done), (data['load'][rows[-1]], data['pv'][rows[-1]], False))
    m.run(dict(calm))
    check('done', m.done, True)
    m.reset()
    check('training again', (m.load, m.pv, m.done, m.battery.soc), (data['load'][0], data['pv'][0], False, P['battery_soc_0']))
    m.reset(testing=True)
    check('testing again', (m.load, m.pv, m.done, m.battery.soc), (data['load'][cut], data['pv'][cut], False, P['battery_soc_0']))
    m.train_test_split(cancel=True)
    for i in range(N - 1):
        check('all of the data', (m.load, m.pv, m.grid.price_import, m.done), (data['load'][i], data['pv'][i], data['grid_price_import'][i], False))
        m.run(dict(calm))
    check('last of the data', (m.load, m.pv, m.done), (data['load'][N - 1], data['pv'][N - 1], False))
    m.run(dict(calm))
    check('done at the end', m.done, True)
