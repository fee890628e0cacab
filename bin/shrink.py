"""Shrinks a replay file by removing operations while the driver still crashes (only for crashes) -- debugging aid."""
import sys, json; sys.path.insert(0,'/verif/bin')
import vf
d=json.load(open(sys.argv[1]))['data']; key=sys.argv[2] if len(sys.argv)>2 else 'crash'
exe=vf.BUILD+'/d/'+d['driver']; wd=vf.work('shrink')
ops=d['ops']
def bad(o):
    t={'id':0,'ops':[vf.strip(x) for x in o]}; t.update(d['params'] or {})
    r=vf._run_chunk(exe,wd,'x',[t])[0]
    return isinstance(r,dict) and key in json.dumps(r)
n=len(ops)
i=0; chunk=8
while chunk>=1:
    i=0
    while i<len(ops):
        c=ops[:i]+ops[i+chunk:]
        try: b=bad(c)
        except Exception: b=False
        if b: ops=c
        else: i+=chunk
    chunk//=2
for o in ops: print(json.dumps(vf.strip(o)))
