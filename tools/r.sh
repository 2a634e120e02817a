#!/bin/bash
# r.sh entry params [options]
e=$1; p=$2; shift 2
/verif/engine/target/release/lsx run --ir ${IR:-/verif/harness/target/release/deps/harness.ll} --entry $e --params $p "$@" | python3 -c "
import json,sys
d=json.load(sys.stdin); f=d.pop('functions'); s=d['stats']
print(d['entry'],d['params'],'COMPLETE' if d['complete'] else 'incomplete',d['wall_s'],'s paths',s['paths'],'pruned',s['pruned_paths'],'q',s['queries'],'sat/unsat',s['solver_sat'],s['solver_unsat'],'solver_s',s['solver_s'],'steps',s['instructions'],'sched',s['scheduling_points'],'cov',d['covers'],'fns',len(f),d['reasons'])
for v in d['violations']: print('   VIOL',v['kind'],v['label'],v['values'],v['schedule'],v['stack'])
"
