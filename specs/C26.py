from common import *
import cvxpy as cp
from pymgrid.algos import ModelPredictiveControl

N = 4
STATUS = [1.0, 0.0, 1.0, 1.0, 0.0, 1.0]      # with outages
CASES = {
    'ob_modular': [{'mix': 'BI', 'h': 0}, {'mix': 'BI', 'h': 2}, {'mix': 'BG', 'h': 0}, {'mix': 'BG', 'h': 2}, {'mix': 'BIG', 'h': 0}, {'mix': 'BIG', 'h': 1}, {'mix': 'BIG', 'h': 2}],
    'ob_next_step': [{'mix': 'BI', 'h': 1}, {'mix': 'BG', 'h': 1}, {'mix': 'BIG', 'h': 1}],
    'ob_nonmodular': [{'mix': 'BI', 'h': 0}, {'mix': 'BI', 'h': 2}, {'mix': 'BG', 'h': 2}, {'mix': 'BIG', 'h': 0}, {'mix': 'BIG', 'h': 2}],
    'ob_nonmodular_next': [{'mix': 'BI'}, {'mix': 'BG'}],
    'ob_nonmodular_horizon': [{'mix': 'BI'}, {'mix': 'BG'}, {'mix': 'BIG'}],
    'ob_unlicensed': [{'mix': 'BI'}, {'mix': 'BIG'}],
    'ob_again': [{'mix': 'BI'}, {'mix': 'BIG'}],
}


def data(name, top):
    """unknown values up to top; the last two entries fix the range of the series"""
    return np.concatenate([vector(name, N, lo=0, hi=top), np.array([0.0, top])])


def modules(mix, h, names):
    """load, pv, battery and the components of mix (I grid, G generator) with unknown parameters"""
    f = {'forecaster': 'oracle', 'forecast_horizon': h} if h else {}
    cc = num('cc', 0)
    b, q, p = battery()
    d = dict(p, load=data('load', 100.0), pv=data('pv', 80.0), cc=cc, llc=num('llc', 0), soc=q / p['max_capacity'])
    out = [(names['load'], LoadModule(time_series=d['load'], **f)), (names['pv'], RenewableModule(time_series=d['pv'], **f)), (names['battery'], b)]
    if 'G' in mix:
        lo, hi = num('run_min', 0), pos('run_max')
        assume(lo <= hi)
        d.update(run_min=lo, run_max=hi, fuel=num('fuel', 0), gco2=num('gco2', 0))
        out.append((names['genset'], GensetModule(running_min_production=lo, running_max_production=hi, genset_cost=d['fuel'], co2_per_unit=d['gco2'], cost_per_unit_co2=cc)))
    if 'I' in mix:
        g = np.array([data('price', 2.0), data('export', 1.0), data('carbon', 3.0), STATUS]).T
        d.update(grid=g, mi=num('mi', 0), me=num('me', 0))
        out.append((names['grid'], GridModule(max_import=d['mi'], max_export=d['me'], time_series=g, cost_per_unit_co2=cc, **f)))
    return out, d


OWN = {'load': 'demand', 'pv': 'sun', 'battery': 'store', 'genset': 'diesel', 'grid': 'mains'}
PLAIN = {'load': 'load', 'pv': 'pv', 'battery': 'battery', 'genset': 'genset', 'grid': 'grid'}


def modular(mix, h, names=PLAIN):
    mods, d = modules(mix, h, names)
    return Microgrid(mods, loss_load_cost=d['llc'], overgeneration_cost=num('ogc', 0)), d


def solver(mix, h, license=True, idle=0):
    """every solution a solver might return, after a number of times nothing at all"""
    n = 8 if 'G' in mix else 7
    V = []

    def values(variables):
        x, u = cp.layout(variables, n, h + 1)
        k = len(V)
        x.value = np.zeros(n * (h + 1)) if k < idle else vector('v%d' % k, n * (h + 1), lo=0)
        if u is not None:
            u.value = np.zeros(h + 1) if k < idle else vector('u%d' % k, h + 1, lo=0, hi=1)
        keys = (['g'] if 'G' in mix else []) + ['imp', 'exp', 'ch', 'dis', 'curt', 'loss', 'soc']
        V.append([dict(zip(keys, list(x.value)[j * n:j * n + n]), u=u.value[j] if u is not None else 0) for j in range(h + 1)])

    cp.ENV['values'] = values
    cp.ENV['license'] = license
    cp.ENV['solvers'] = ['CLARABEL', 'GLPK_MI', 'MOSEK', 'SCS']
    cp.ENV['solved'].clear()
    return V


def expected(d, q, mix, t, soc):
    """(objective, required rows, rows that follow from them) of the problem at step t for the quantities q"""
    eta, cap = d['efficiency'], d['max_capacity']
    cost, rows, more = 0, [], []
    for j, x in enumerate(q):
        load, pv = d['load'][t + j], d['pv'][t + j]
        gen = x['g'] if 'G' in mix else 0
        rows.append(('balance', 'eq', gen + x['imp'] - x['exp'] - x['ch'] + x['dis'] - x['curt'] + x['loss'] - load + pv))
        rows.append(('charge law', 'eq', x['soc'] - soc - eta * x['ch'] / cap + x['dis'] / (eta * cap)))
        soc = x['soc']
        rows.append(('highest charge', 'le', soc - 1))
        rows.append(('lowest charge', 'le', d['min_capacity'] / cap - soc))
        rows.append(('charge limit', 'le', x['ch'] - d['max_charge']))
        rows.append(('discharge limit', 'le', x['dis'] - d['max_discharge']))
        rows.append(('curtailment', 'le', x['curt'] - pv))
        rows.append(('loss load', 'le', x['loss'] - load))
        on, mi, me = (d['grid'][t + j, 3], d['mi'], d['me']) if 'I' in mix else (0, 0, 0)
        rows.append(('import limit', 'le', x['imp'] - mi * on))
        rows.append(('export limit', 'le', x['exp'] - me * on))
        for k in ('imp', 'exp', 'ch', 'dis', 'curt', 'loss'):
            rows.append(('non-negative', 'le', -x[k]))
        more.append(('le', -soc))
        cost += d['battery_cost_cycle'] * (x['ch'] + x['dis']) + d['llc'] * x['loss']
        if 'I' in mix:
            g = d['grid'][t + j]
            cost += (g[0] + g[2] * d['cc']) * x['imp'] - g[1] * x['exp']
        if 'G' in mix:
            rows.append(('generator minimum', 'le', d['run_min'] * x['u'] - x['g']))
            rows.append(('generator maximum', 'le', x['g'] - d['run_max'] * x['u']))
            more.append(('le', x['g'] - d['run_max']))
            more.append(('le', -x['g']))
            cost += (d['fuel'] + d['cc'] * d['gco2']) * x['g']
    return cost, rows, more


def found(kind, e, rows, cap):
    """the row is among the rows, as it is or multiplied by the capacity"""
    same = [s * r for k, r in rows if k == kind for s in ((1, -1) if kind == 'eq' else (1,))]
    return one_of(e, same) or one_of(e * cap, same) or one_of(e / cap, same)


def problem(label, got, d, q, mix, t, soc):
    cost, rows, more = expected(d, q, mix, t, soc)
    check(label + ': objective', got['objective'], cost)
    for what, kind, e in rows:
        check_true(label + ': ' + what, found(kind, e, got['rows'], d['max_capacity']))
    allowed = [(k, e) for w, k, e in rows] + more
    for k, r in got['rows']:
        check_true(label + ': no other restriction', found(k, r, allowed, d['max_capacity']))


def flat(c):
    out = []
    for x in c if isinstance(c, (list, tuple)) else [c]:
        out += list(np.array(x).flatten())
    return out


def control(label, got, x, mix, names):
    check(label + ': names', sorted(got), sorted([names['battery']] + [names['genset']] * ('G' in mix) + [names['grid']] * ('I' in mix)))
    check(label + ': battery', flat(got[names['battery']]), [x['dis'] - x['ch']])
    if 'I' in mix:
        check(label + ': grid', flat(got[names['grid']]), [x['imp'] - x['exp']])
    if 'G' in mix:
        check(label + ': generator', flat(got[names['genset']]), [x['u'], x['g']])


def record(m, mix, names):
    """records the controls and lets a step with every component idle pass"""
    seen = []
    idle = {names['battery']: 0.0}
    if 'G' in mix:
        idle[names['genset']] = [np.array([0.0, 0.0])]
    if 'I' in mix:
        idle[names['grid']] = 0.0

    def run(action, normalized=True):
        seen.append((action, normalized))
        return Microgrid.run(m, idle, normalized=False)
    m.run = run
    m.step = run
    return seen


def ob_modular(mix, h):
    m, d = modular(mix, h, OWN)
    V = solver(mix, h)
    seen = record(m, mix, OWN)
    mpc = ModelPredictiveControl(m)
    mpc.run(max_steps=1)
    check('solved once', len(cp.ENV['solved']), 1)
    problem('first step', cp.ENV['solved'][0], d, V[0], mix, 0, d['soc'])
    check('one control, not normalized', [n for a, n in seen], [False])
    control('control', seen[0][0], V[0][0], mix, OWN)


def ob_next_step(mix, h):
    m, d = modular(mix, h)
    V = solver(mix, h)
    seen = record(m, mix, PLAIN)
    mpc = ModelPredictiveControl(m)
    mpc.run(max_steps=2)
    check('solved twice', (len(cp.ENV['solved']), len(seen)), (2, 2))
    problem('second step', cp.ENV['solved'][1], d, V[1], mix, 1, d['soc'])
    control('control', seen[1][0], V[1][0], mix, PLAIN)


def ob_again(mix):
    """a second run starts over"""
    m, d = modular(mix, 1)
    V = solver(mix, 1)
    seen = record(m, mix, PLAIN)
    mpc = ModelPredictiveControl(m)
    mpc.run(max_steps=2)
    mpc.run(max_steps=1)
    problem('second run', cp.ENV['solved'][2], d, V[2], mix, 0, d['soc'])
    control('control', seen[2][0], V[2][0], mix, PLAIN)


def ob_unlicensed(mix):
    """a solver without a license is replaced"""
    m, d = modular(mix, 1)
    V = solver(mix, 1, license=False)
    seen = record(m, mix, PLAIN)
    ModelPredictiveControl(m).run(max_steps=1)
    problem('first step', cp.ENV['solved'][-1], d, V[-1], mix, 0, d['soc'])
    control('control', seen[0][0], V[-1][0], mix, PLAIN)


def quantities(label, got, x, d, mix, t):
    """got: function from the name of an entry to its value"""
    check(label + ': battery', (got('battery_charge'), got('battery_discharge')), (x['ch'], x['dis']))
    if 'I' in mix:
        check(label + ': grid', (got('grid_import'), got('grid_export')), (x['imp'], x['exp']))
    if 'G' in mix:
        check(label + ': generator', got('genset'), x['g'])
    check(label + ': pv', (got('pv'), got('pv_curtailed'), got('pv_consummed')), (d['pv'][t], x['curt'], d['pv'][t] - x['curt']))
    check(label + ': load', got('load'), d['load'][t])


def ob_nonmodular(mix, h):
    m, d = modular(mix, h)
    n = m.to_nonmodular()
    V = solver(mix, h)
    out = ModelPredictiveControl(n).run(max_steps=1)
    problem('first step', cp.ENV['solved'][0], d, V[0], mix, 0, d['soc'])
    quantities('control', lambda k: out['action'][k][-1], V[0][0], d, mix, 0)


def ob_nonmodular_next(mix):
    """the second step of a run: its own data, and its own prices in what it records"""
    m, d = modular(mix, 1)
    n = m.to_nonmodular()
    V = solver(mix, 1, idle=1)
    out = ModelPredictiveControl(n).run(max_steps=2)
    check('solved twice', len(cp.ENV['solved']), 2)
    problem('second step', cp.ENV['solved'][1], d, V[1], mix, 1, d['soc'])
    quantities('control', lambda k: out['action'][k][-1], V[1][0], d, mix, 1)
    for t in (0, 1):
        p = {k: out['production'][k][t] for k in out['production']}
        cost = 0
        if 'I' in mix:
            cost = d['grid'][t, 0] * p['grid_import']
            check('import bill', out['cost']['grid_import'][t], cost)
            check('export bill', out['cost']['grid_export'][t], -d['grid'][t, 1] * p['grid_export'])
        check('fuel', out['cost']['genset'][t] if 'G' in mix else 0, d['fuel'] * p['genset'] if 'G' in mix else 0)
        check('loss load', out['cost']['loss_load'][t], d['llc'] * p['loss_load'])


def ob_nonmodular_horizon(mix):
    """the controls of all steps of the horizon, planned from a later step"""
    from pymgrid.algos.Control import ControlOutput
    from pymgrid.utils.DataGenerator import return_underlying_data
    m, d = modular(mix, 2)
    n = m.to_nonmodular()
    V = solver(mix, 2)
    mpc = ModelPredictiveControl(n)
    sample = return_underlying_data(n).reset_index(drop=True)
    out = mpc.mpc_single_step(sample, ControlOutput(alg_name='saa', empty=True, microgrid=n), 1)
    problem('plan', cp.ENV['solved'][0], d, V[0], mix, 1, d['soc'])
    cost = 0
    for j in range(3):
        x = V[0][j]
        quantities('plan', lambda k: out.df[k].to_list()[j], x, d, mix, 1 + j)
        check('plan: loss load', out.df['loss_load'].to_list()[j], x['loss'])
        cost += d['llc'] * x['loss']
        if 'G' in mix:
            cost += d['fuel'] * x['g']
        if 'I' in mix:
            cost += d['grid'][1 + j, 0] * x['imp'] - d['grid'][1 + j, 1] * x['exp']
    check('cost of the plan', out.cost, cost)
    check('first control', (out.first_dict['battery_charge'], out.first_dict['battery_discharge']), (V[0][0]['ch'], V[0][0]['dis']))
