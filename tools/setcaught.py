import json,sys,os
for i in sys.argv[1:]:
    p='/verif/seeded/%s/meta.json'%i; m=json.load(open(p)); m['caught_by']=[m['property']]; json.dump(m,open(p,'w'),indent=1)
