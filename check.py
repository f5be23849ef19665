#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only OBLIGATION] [--repo DIR]

Decides one property statically: parses /repo/src/pymgrid, abstractly interprets the obligations in
specs/PROPERTY.py over it and compares every observation with the required value graph.
exit 0: no violation   exit 1: VIOLATION line(s)   exit 2: the analysis itself broke
"""
import argparse
import json
import os
import pickle
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'rules'))

import harness as H                      # noqa: E402
from program import Program              # noqa: E402

ASSUME = [
    'real arithmetic: floating-point rounding is not modelled (comparisons within numpy closeness tolerances are)',
    'library semantics (numpy, pandas, gym, copy, inspect, collections, yaml loader/dumper interface) as modelled in engine/lib*.py and engine/stubs',
    'module configurations and history lengths are those listed in specs/%s.py; all numeric parameters, series values, series lengths and actions are unconstrained symbols',
]


def load(prop, repo):
    prog = Program(repo, stubs=os.path.join(HERE, 'engine', 'stubs'))
    for shared in ('common', 'common_nonmodular'):
        prog.load_spec(os.path.join(HERE, 'specs', shared + '.py'), shared)
    mod = prog.load_spec(os.path.join(HERE, 'specs', prop + '.py'), prop)
    return prog, mod


def run_all(prog, mod, obs, jobs, per, deadline, seed):
    """fork one process per obligation (independent term tables), at most `jobs` at a time"""
    todo = list(enumerate(obs))
    running = {}
    results = [None] * len(obs)
    while todo or running:
        while todo and len(running) < jobs:
            i, (fn, cs) = todo.pop(0)
            left = deadline - time.time()
            if left < 5:
                o = H.Outcome()
                o.undecided.append(dict(obligation=fn, case=cs, check='*', why='total time budget'))
                results[i] = o
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                except Exception:
                    pass
                try:
                    o = H.run_obligation(prog, mod, fn, cs, min(per, left), seed)
                except BaseException as e:
                    o = H.Outcome()
                    o.undecided.append(dict(obligation=fn, case=cs, check='*', why='engine error %s %s' % (type(e).__name__, e)))
                try:
                    data = pickle.dumps(o)
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (pid, i, [], time.time() + min(per, left) + 20)
        if not running:
            continue
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            pid, i, buf, _ = running[fd]
            b = os.read(fd, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                results[i] = pickle.loads(b''.join(buf))
            except Exception:
                o = H.Outcome()
                o.undecided.append(dict(obligation=obs[i][0], case=obs[i][1], check='*', why='worker ended early'))
                results[i] = o
        for fd in list(running):
            pid, i, buf, t = running[fd]
            if time.time() > t:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
    return results


def known_entries(prop):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))['findings'] if e['property'] == prop and e.get('status') == 'known']


def matches(e, v):
    if e['obligation'] != v['obligation'] or e['check'] != v['check']:
        return False
    if 'case' in e and any((v.get('case') or {}).get(k) != x for k, x in e['case'].items()):
        return False
    if 'construct' in e and e['construct'] not in (v.get('construct') or ''):
        return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--per', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        prog, mod = load(a.prop, a.repo)
    except Exception as e:
        print('ANALYSIS-BROKEN property=%s cannot load: %s' % (a.prop, e))
        return 2
    obs = H.spec_obligations(mod, a.tier)
    if a.only:
        obs = [o for o in obs if a.only in o[0]]
    per = a.per or (400 if a.tier == 'quick' else 900)
    budget = 780 if a.tier == 'quick' else 6 * 3600
    res = run_all(prog, mod, obs, a.jobs, per, t0 + budget, seed)
    rules = None
    rp = os.path.join(HERE, 'rules', 'rule_%s.py' % a.prop)
    if os.path.exists(rp):
        import importlib
        rm = importlib.import_module('rule_' + a.prop)
        rules = rm.run(prog, a.tier)
        res.append(rules)
    viol, und = [], []
    tot = dict(checks=0, proved=0, refuted=0, cells=0, callsites=0, steps=0)
    fns, labels, unl = {}, {}, {}
    for o in res:
        viol += o.violations
        und += o.undecided
        for k in ('checks', 'proved', 'refuted', 'cells', 'callsites', 'steps'):
            tot[k] += getattr(o, k)
        for k, n in o.visited.items():
            fns[k] = fns.get(k, 0) + n
        for k, n in o.unknown_lib.items():
            unl[k] = unl.get(k, 0) + n
        for k, n in o.labels.items():
            l = labels.setdefault(k, [0, 0, 0])
            for i in range(3):
                l[i] += n[i]
    known = known_entries(a.prop)
    new, hit = [], {}
    for v in viol:
        for i, e in enumerate(known):
            if matches(e, v):
                hit.setdefault(i, []).append(v)
                break
        else:
            new.append(v)
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[i]['what']))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, 'replay')
    seen = set()
    for v in new:
        key = (v['obligation'], v['check'], v.get('construct'))
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, '%s-%d.json' % (a.prop, len(seen)))
        v = dict(v, property=a.prop, rerun='python3 check.py %s --only %s' % (a.prop, v['obligation']))
        with open(path, 'w') as fh:
            json.dump(v, fh, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('  rule: %s / %s %s' % (v['obligation'], v['check'], v.get('case') or ''))
        print('  construct: %s' % v.get('construct'))
        print('  got %s' % str(v.get('actual'))[:300])
        print('  required %s' % str(v.get('expected'))[:300])
        print('  for example %s' % str({k: x for k, x in list((v.get('valuation') or {}).items())[:14]})[:500])
    repo_fns = sorted(k for k in fns if k.startswith('src/'))
    cov = dict(
        explanation='Abstract interpretation of the repository source over gated value graphs. Every obligation of specs/%s.py was '
                    'interpreted over the current source; each check compares the value graph of an observation with the required one '
                    'cell by cell (or shows that no admissible valuation reaches an exception).' % a.prop,
        obligations=tot['checks'], discharged=tot['proved'], refuted=tot['refuted'], undecided=len(und),
        cells_compared=tot['cells'], call_sites_analysed=tot['callsites'], statements_and_expressions_transferred=tot['steps'],
        functions_analysed=len(repo_fns), functions=repo_fns, files_parsed=len(prog.files), source_digest=prog.h.hexdigest(),
        harness_runs=len(obs), checks={k: dict(proved=v[0], refuted=v[1], undecided=v[2]) for k, v in sorted(labels.items())},
        undecided_list=und[:40], unmodelled_library_calls=unl, known_findings=sum(map(len, hit.values())),
        samples=[dict(obligation=o[0], case=o[1]) for o in obs[:5]])
    if rules is not None:
        cov['rule_analysis'] = rules.info
    out = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='other', coverage=cov,
               assumptions=[x % a.prop if '%s' in x else x for x in ASSUME], wall_s=round(time.time() - t0, 2), violations=len(seen))
    if not a.only:
        with open(os.path.join(ev, a.prop + '.json'), 'w') as fh:
            json.dump(out, fh, indent=1, default=str)
    print('%s: %d checks, %d proved, %d refuted, %d undecided; %d functions, %d call sites, %.1fs' % (
        a.prop, tot['checks'], tot['proved'], tot['refuted'], len(und), len(repo_fns), tot['callsites'], time.time() - t0))
    if a.v:
        for o, (fn, cs) in zip(res, obs):
            print('  %-28s %-60s %d/%d %.1fs' % (fn, cs or '', o.proved, o.checks, o.time))
        for v in new:
            print('  VIOL', v['obligation'], v.get('case'), v['check'], v.get('construct'))
        for v in und:
            print('  UNDEC', json.dumps(v, default=str)[:900])
        if unl:
            print('  unmodelled', unl)
    if seen:
        return 1
    if tot['proved'] + tot['refuted'] == 0:
        print('ANALYSIS-BROKEN property=%s nothing could be decided' % a.prop)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
