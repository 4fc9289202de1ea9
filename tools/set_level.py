import json,sys
p='/verif/levels.json'; d=json.load(open(p)); i,l,n=sys.argv[1:4]
e={'level':l,'note':n}
for a in sys.argv[4:]:
    k,v=a.split('=',1); e.setdefault(k,[]).append(v)
d[i]=e; json.dump(d,open(p,'w'),indent=1)
