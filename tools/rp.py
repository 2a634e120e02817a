#!/usr/bin/env python3
"""rp.py ENTRY PARAMS [lsx options]: run, and replay the first violation natively"""
import sys, json, subprocess, os
R='/verif'
sys.path.insert(0,R+'/replay')
import native
ir=os.environ.get('IR',R+'/harness/target/release/deps/harness.ll')
o=subprocess.run([R+'/engine/target/release/lsx','run','--ir',ir,'--entry',sys.argv[1],'--params',sys.argv[2]]+sys.argv[3:],capture_output=True,text=True).stdout
d=json.loads(o)
print(d['complete'],d['wall_s'],d['stats']['paths'],d['reasons'])
for v in d['violations'][:3]:
    case=dict(entry=sys.argv[1],params=[int(x) for x in sys.argv[2].split(',')],kind=v['kind'],label=v['label'],values=v['values'],schedule=v['schedule'])
    print(v['kind'],v['label']); print(native.replay(ir,case,'/tmp/rp'))
