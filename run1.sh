#!/bin/bash
# developer aid: run one harness: run1.sh HARNESS [param=value..]
h=$1; shift
/verif/build/engine /verif/build/ir/all.ll $h /tmp/r_$h.json "$@"; rc=$?
python3 - $h $rc <<'P'
import json,sys
d=json.load(open('/tmp/r_%s.json'%sys.argv[1]))
print(sys.argv[1],'rc',sys.argv[2],{k:d[k] for k in ('paths','pruned','asserts','assert_queries','queries','full_queries','solver_s','wall_s','covers')}, 'INC',d['inconclusive'][:3])
for v in d['violations'][:3]: print('  VIOL',v['kind'],v['what'],v['stack'][:6],[(a,b[:80]) for a,b in v['draws']])
P
