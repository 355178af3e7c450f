"""Writes MANIFEST.json from contracts/props.py (claimed properties) and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/contracts')
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='VP_VERIF', enable='no hooks: contracts live in /verif and the functions are extracted from /repo as they are', source_commits=[]), checks=[], not_applicable=[])
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 tools/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
                                evidence_file='evidence/%s.json' % i, technique=P.get('technique', 'contract-based deductive verification: functions extracted from /repo on every run, Verus/Z3 discharges every obligation'),
                                level=P.get('level', 'proof'), level_note=P.get('note', '')))
    else:
        m['not_applicable'].append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
