import json, os
from props import P
try:
    from props import NA
except ImportError:
    NA = []
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
with open(root + '/properties.jsonl', 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=p['mech'], **({'state': p['state']} if p['state'] else {})))
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash /verif/run.sh setup',
         hooks=dict(guard='none', enable='no hooks: the checks use public interfaces only', source_commits=[]),
         checks=[dict(property=p['id'],
                      quick_cmd='bash /verif/run.sh check %s quick' % p['id'],
                      thorough_cmd='bash /verif/run.sh check %s thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'],
                      technique=p['technique'], level=p.get('level') or 'model_checking', level_note=p['note']) for p in P],
         not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes='properties.jsonl and this file are generated by tools/gen.py from tools/props.py; see DESIGN.md')
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
