#!/usr/bin/env python3
"""kf.py PROP COMMIT TEXT: record a repaired defect"""
import json,sys
p='/verif/known-findings.json'; k=json.load(open(p)); prop,c,t=sys.argv[1:4]
k.append({'id':'fx-%s-%s'%(prop.lower(),c),'property':prop,'status':'fixed','what':'fixed: property=%s %s %s'%(prop,c,t),'commit':c}); json.dump(k,open(p,'w'),indent=1)
