import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b
p=set(o['passed']); m=[t for t in st if t not in p]
print(len(st),'stable,',len(m),'not passing',m[:20]); sys.exit(1 if m else 0)
