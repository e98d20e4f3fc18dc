import json
plan = json.load(open('/verif/plan.json'))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {}
checks = []
for p in props:
    if p not in plan: continue
    g = plan[p]
    checks.append(dict(property=p, quick_cmd='./check.py %s --tier quick' % p, thorough_cmd='./check.py %s --tier thorough' % p,
        technique='TLA+ specification (%s) model-checked with TLC; runs of the code judged as behaviours of the specification by TLC (%s)%s' % (', '.join(g['mc']) or g['tv'], g['tv'], '; behaviours generated by TLC replayed in the code' if g.get('gen') else ''),
        level='model_checking', level_note=g['note']))
json.dump(dict(version=1, setup_cmd='./tools/setup.sh', hooks=dict(guard='', enable='none: only the public interface is observed', source_commits=[]), checks=checks,
    not_applicable=[dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in plan]), open('/verif/MANIFEST.json', 'w'), indent=1)
