import json,sys
d=json.load(open(sys.argv[1])); print(d['trace'][-2200:]); print(json.dumps(d['case'])[:3000])
