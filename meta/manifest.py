"""python3 meta/manifest.py: rewrites MANIFEST.json (every property with a module in mc/checks is claimed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'meta'))
from properties import P

NA = {}
DEFAULT_NOTE = ('Exhaustive within the stated bounds on the real code: every listed history / configuration / random outcome is executed '
                'and compared with an independent reference model. Assumes the bounded space is representative; trusts numpy/PyPy and '
                'the reference model in mc/checks/%s.py.')
checks = []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'mc', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='bash run.sh %s --tier quick' % i,
                           thorough_cmd='bash run.sh %s --tier thorough' % i,
                           technique='explicit-state / stateless bounded model checking of the implementation against a reference model',
                           level='model_checking', level_note=DEFAULT_NOTE % i.lower()))
    else:
        NA.setdefault(i, 'no check built yet')
claimed = {c['property'] for c in checks}
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in claimed],
         notes='All checks run the real code of /repo under /opt/pypyvenv/bin/python; no hooks in /repo are needed.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(m['not_applicable']), 'not')
