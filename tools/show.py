import json
d=json.load(open('/verif/.build/o.json'))
for n,e in d['entries'].items():
    print(n,'complete',e['complete'],'wall',e['wall_s'],'paths',e['paths'],'reach',e['reach'],'steps',e['steps'],'maxpath',e['max_path_steps'],'q',e['queries'],'solver',e['solver_s'],'unk',e['unknown'],'mism',e['mismatches'],e['mismatch_examples'][:2],'err',{k[:300]:v for k,v in e['engine_errors'].items()})
    for v in e['violations']: print('   ',json.dumps(v)[:700])
