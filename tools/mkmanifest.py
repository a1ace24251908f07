"""Writes MANIFEST.json from the properties that have a plan in driver/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/driver')
import props
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 harness/build.py && sh tools/warm.sh',
     'hooks': {'guard': 'none', 'enable': 'No hook in /repo: harness/build.py links the unchanged sources with -Wl,--wrap stand-ins.', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.PLAN:
        m['checks'].append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                            'technique': props.TECH.get(i, props.TECH_DEFAULT), 'level': 'model_checking',
                            'level_note': props.NOTE.get(i, props.NOTE_DEFAULT)})
    else:
        m['not_applicable'].append({'property': i, 'reason': props.NA.get(i, 'no check built yet')})
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
