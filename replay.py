#!/usr/bin/env python3
"""replay.py FILE: rebuild the harness natively (ASan) from /repo's current sources and run it on a recorded counterexample."""
import sys,os,re,tempfile,shutil
sys.argv=[sys.argv[0]]+sys.argv[1:]
f=sys.argv[1]; t=open(f).read(); name=re.search(r'# property (\S+) unit (\S+)',t).group(2)
import check as C
u=[u for u in C.U.UNITS if u['name']==name][0]
w=tempfile.mkdtemp(); b=C.Builder(w)
p=dict(u.get('params',{})); m=re.search(r'# params (.*)',t)
if m: p.update({k:int(v) for k,v in (x.split('=') for x in m.group(1).split() if '=' in x)})
rc,o=C.replay(b.native(u),os.path.abspath(f),p,w); shutil.rmtree(w); print(o); print('exit',rc)
sys.exit(0 if rc==0 else 1)
