from common import *
from common_nonmodular import *
from pymgrid.algos.Control import Benchmarks, ControlOutput
from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl

CASES = {
    'ob_commands': [{'mix': 'B', 'on': 0, 'soc': None}, {'mix': 'BI', 'on': 1, 'soc': None}, {'mix': 'BI', 'on': 0, 'soc': None},
                    {'mix': 'BG', 'on': 0, 'soc': 0.5}, {'mix': 'BG', 'on': 0, 'soc': 0.22}, {'mix': 'BG', 'on': 0, 'soc': 0.2}, {'mix': 'BG', 'on': 0, 'soc': 0.88},
                    {'mix': 'BIG', 'on': 1, 'soc': 0.5}, {'mix': 'BIG', 'on': 0, 'soc': 0.5}],
    'ob_records': [{'mix': 'B'}, {'mix': 'BI'}, {'mix': 'BG'}],
    'ob_second_command': [{'mix': 'B', 'on': 0}, {'mix': 'BI', 'on': 1}, {'mix': 'BI', 'on': 0}, {'mix': 'BG', 'on': 0}],
    'ob_microgrid_kept': [{'mix': 'BI'}, {'mix': 'BG'}],
    'ob_length': [{'horizon': 1}, {'horizon': 2}],
    'ob_benchmark': [{'mix': 'BI'}, {'mix': 'B'}],
}
STORE = {'battery_soc_min': 0.2, 'battery_soc_max': 0.9, 'battery_capacity': 100, 'battery_power_charge': 30, 'battery_power_discharge': 10, 'battery_efficiency': 0.5}


def wanted(mix, on, P, data, k, soc):
    """the command for step k"""
    load, pv = data['load'][k], data['pv'][k]
    cap, eff = P['battery_capacity'], P['battery_efficiency']
    give = max(0, min((soc - P['battery_soc_min']) * cap * eff, P['battery_power_discharge']))
    take = max(0, min((P['battery_soc_max'] - soc) * cap / eff, P['battery_power_charge']))
    net = load - pv
    short, excess = max(net, 0), max(-net, 0)
    out = {'load': load, 'pv': pv}
    if on:
        battery_first = data['grid_price_export'][k] / (eff * eff) < data['grid_price_import'][k]
        out['battery_discharge'] = ite_(battery_first, min(give, short), 0)
        out['battery_charge'] = ite_(battery_first, min(take, excess), 0)
        out['grid_import'], out['grid_export'] = short - out['battery_discharge'], excess - out['battery_charge']
        if 'G' in mix:
            out['genset'] = 0
        return out
    if 'I' in mix:
        out['grid_import'] = out['grid_export'] = 0
    out['battery_discharge'], out['battery_charge'] = min(give, short), min(take, excess)
    if 'G' in mix:
        low = P['genset_rated_power'] * P['genset_pmin']
        runs, small = load > pv + give, low > load
        rest = load - low - pv
        d, c = min(give, max(rest, 0)), min(take, max(-rest, 0))
        out['battery_discharge'] = ite_(runs, ite_(small, 0, d), out['battery_discharge'])
        out['battery_charge'] = ite_(runs, ite_(small, 0, c), out['battery_charge'])
        out['genset'] = ite_(runs, ite_(small, low, low + max(rest, 0) - d), 0)
    return out


def make(mix, on=1, soc=None, horizon=1):
    fixed = dict(STORE)
    if soc is not None:
        fixed['battery_soc_0'] = soc
    if 'G' in mix:
        fixed['genset_rated_power'] = 20
        fixed['genset_pmin'] = 0.25
        fixed['genset_pmax'] = 0.9
    if 'I' in mix:
        return build(mix, horizon, fixed=fixed, grid_ts=np.array([on, 1 - on, on, 1 - on, on]))
    return build(mix, horizon, fixed=fixed)


def ob_commands(mix, on, soc):
    m, P, data = make(mix, on, soc)
    out = NonModularRuleBasedControl(m).run_rule_based(length=2)
    want = wanted(mix, on, P, data, 0, P['battery_soc_0'])
    for k in want:
        check('command ' + k, out['action'][k], [want[k]])
    check('pv is used or curtailed', out['action']['pv_consummed'][0] + out['action']['pv_curtailed'][0], data['pv'][0])


def ob_records(mix):
    """production, costs, emissions and states are those of running the commands"""
    m, P, data = make(mix, 1, 0.5)
    out = NonModularRuleBasedControl(m).run_rule_based(length=3)
    n, P, data = make(mix, 1, 0.5)
    names = [k for k in out['action'] if k not in ('load', 'pv', 'pv_consummed', 'pv_curtailed')]
    for i in range(2):
        n.run({k: out['action'][k][i] for k in names})
    check('steps', {len(v) for v in out['action'].values()}, {2})
    check('production', out['production'], n._df_record_actual_production)
    check('costs', out['cost'], n._df_record_cost)
    check('emissions', out['co2'], n._df_record_co2)
    for k in n._df_record_state:
        if k != 'hour':
            check('state ' + k, out['status'][k], n._df_record_state[k])


def ob_second_command(mix, on):
    """the second command uses the data and the charge of the second step"""
    m, P, data = make(mix, 1 - on, 0.5)
    out = NonModularRuleBasedControl(m).run_rule_based(length=3)
    want = wanted(mix, on, P, data, 1, out['status']['battery_soc'][1])
    for k in want:
        check('command ' + k, out['action'][k][1], want[k])


def ob_microgrid_kept(mix):
    m, P, data = make(mix)
    before = snapshot(m)
    NonModularRuleBasedControl(m).run_rule_based(length=2)
    check_same('microgrid', before, snapshot(m))


def ob_length(horizon):
    """one row per step; a step needs the data of its horizon"""
    m, P, data = make('B', horizon=horizon, soc=0.5)
    rbc = NonModularRuleBasedControl(m)
    for length in (None, 3, N, N + 2):
        out = rbc.run_rule_based(length=length)
        n = (N - 1 if length is None or length >= N else length) - horizon
        check('commands', {len(v) for v in out['action'].values()}, {n})
        check('costs', {len(v) for v in out['cost'].values()}, {n})
        check('load', out['action']['load'], [data['load'][i] for i in range(n)])


def ob_benchmark(mix):
    """the benchmark of a microgrid is this control"""
    m, P, data = make(mix, 1, 0.5)
    b = Benchmarks(m)
    want = NonModularRuleBasedControl(m).run_rule_based()
    b.run_benchmarks('rbc')
    check('stored', b.has_rule_based_benchmark, True)
    check('name', list(b.outputs_dict.keys()), ['rbc'])
    for k in ('action', 'status', 'production', 'cost', 'co2'):
        check('result ' + k, b.rule_based_output[k], want[k])
        check('listed ' + k, b.outputs_dict['rbc'][k], want[k])


def result(tag):
    costs = {'grid': [num(tag + 'a'), num(tag + 'b')], 'total_cost': [num(tag + 't0'), num(tag + 't1')]}
    return ControlOutput(('action', 'status', 'production', 'cost', 'co2'),
                         ({'genset': [1.0, 2.0]}, {'soc': [0.1, 0.2, 0.3]}, {'genset': [1.0, 2.0]}, costs, {'co2': [0.0, 0.5]}), 'mpc')


def ob_compare():
    """results are compared by their total cost"""
    a, b = result('x'), result('y')
    x, y = num('xt0') + num('xt1'), num('yt0') + num('yt1')
    check('equal', a == b, x == y)
    check('less', a < b, x < y)
    check('greater', a > b, x > y)


def ob_frame():
    a = result('x')
    f = a.to_frame()
    check('rows', len(f), 3)
    check('column', list(f[('cost', 'total_cost')])[:2], [num('xt0'), num('xt1')])
    check('state', list(f[('status', 'soc')]), [0.1, 0.2, 0.3])
    for k, v in result('x').items():
        check('unchanged ' + k, a[k], v)
