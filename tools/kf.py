#!/usr/bin/env python3
# kf.py fixed Cxx commit "what"  |  kf.py known Cxx entry labelregex "what"
import json,sys
f='/verif/known_findings.json'; d=json.load(open(f))
if sys.argv[1]=='fixed': _,_,p,c,w=sys.argv; d.append(dict(property=p,fixed=c,record='fixed: property=%s %s %s'%(p,c,w)))
else: _,_,p,e,l,w=sys.argv; d.append(dict(property=p,entry=e,label=l,what=w))
open(f,'w').write('[\n '+',\n '.join(json.dumps(x) for x in d)+'\n]\n')
