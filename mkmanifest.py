import json
from checks import CHECKS
notes=json.load(open('level_notes.json'))
m=dict(version=1,setup_cmd='python3 run_check.py --list',checks=[],not_applicable=[],
 hooks=dict(guard='HIF_VERIF',enable='no hooks are needed: the checks compile the unmodified headers',source_commits=[]))
for p in sorted(CHECKS):
    m['checks'].append(dict(property=p,quick_cmd='python3 run_check.py %s quick'%p,thorough_cmd='python3 run_check.py %s thorough'%p,
      technique=notes[p]['technique'],level='exploration',level_note=notes[p]['note']))
have={c['property'] for c in m['checks']}
for l in open('properties.jsonl'):
    d=json.loads(l)
    if d['id'] not in have: m['not_applicable'].append(dict(property=d['id'],reason='no check registered yet'))
json.dump(m,open('MANIFEST.json','w'),indent=1)
