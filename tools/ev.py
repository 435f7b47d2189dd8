import json,sys
for p in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{p}.json'));c=e['coverage']
    for k,v in c['per_rule'].items():
        print(p,k,v['generated'],v['discharged'],[s['where'].split('/')[-1] for s in c['samples'] if s['rule']==k])
    if c.get('error'): print(c['error'][-1500:])
