#!/usr/bin/env python3
"""writes MANIFEST.json: one check per specs/Cxx.py; every other property is listed as not applicable"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C31': 'Optimality of the LP/MILP solution and cost comparison with rule-based control are numerical results of the external solver over '
           'whole trajectories; no static argument in reach bounds them. What problem the solver is given and what is done with its solution is C26.',
    'C33': 'A statement about the contents of data files (yaml/csv/parquet) shipped with the package, not about program paths; comparing data '
           'files with frozen copies would be a text match, not an analysis of the code.',
    'C34': 'A statement about the distribution of generated samples; source inspection cannot decide statistics of numpy generators. '
           'Where randomness may enter at all is C16, and the noise of forecasts as a function of the draws is C32.',
}
PENDING = 'check not built yet'
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'specs', i + '.py')):
        tech = 'abstract interpretation of the source over gated value graphs (global value numbering with gated joins)'
        if os.path.exists(os.path.join(HERE, 'rules', 'rule_%s.py' % i)):
            tech += ' plus call-graph / write-effect rules'
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=tech, level='other',
            level_note='Each observation named in specs/%s.py is compared as a value graph over unconstrained symbolic inputs; equal graphs hold for '
                       'every value of those inputs in real arithmetic. Alarms are definite disagreements with a valuation. Assumes the library '
                       'models in engine/lib*.py and engine/stubs, the module mixes and history lengths listed in the spec, and no '
                       'floating-point rounding; undecided observations are listed in the evidence and never alarm.' % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
m = dict(version=1, setup_cmd='python3 -m compileall -q engine check.py', checks=checks, not_applicable=na,
         notes='Static analysis only; pymgrid is parsed on every run, never imported or executed.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
