import json
d=json.load(open('/verif/.build/o.json'))
for n,e in d['entries'].items():
    print(n, sorted(e['label_s'].items(), key=lambda x:-x[1])[:12], e['solver_max_s'])
