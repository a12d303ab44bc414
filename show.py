import json,sys
d=json.load(open(sys.argv[1]));print(d['class'],d['message']);print(d['plan']['config'])
for o in d['plan']['ops']: print(json.dumps(o))
