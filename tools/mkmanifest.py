"""writes MANIFEST.json out of vf/config.py"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vf import config
checks = []
for p, c in sorted(config.CHECKS.items()):
    checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}',
                   'thorough_cmd': f'python3 check.py {p} --tier thorough',
                   'technique': c.get('technique', 'contract-based deductive verification (pysx/z3) with bounded stand-ins'),
                   'level': c['level'], 'level_note': c.get('note', '')})
json.dump({'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable':
           config.NOT_APPLICABLE if hasattr(config, 'NOT_APPLICABLE') else []},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
