#!/bin/bash
# try.sh CRATE RUN [PARAM...]: one engine run, summarised
C=$1; R=$2; shift 2; P=""; for p in "$@"; do P="$P --param $p"; done
/verif/build/engine/release/symir /verif/build/$C/prog.ll --run $R $P --jobs 8 --secs ${SECS:-100} --fuel 200000000 --out /tmp/o.json 2>&1 | tail -3
python3 - "$C" "$R" "$@" <<'P'
import json,sys,subprocess
j=json.load(open('/tmp/o.json'))
print(sys.argv[1:],'complete',j['complete'],'paths',j['paths'],'wall',j['wall_s'],'assumed',j['assumed_away'],'steps',j['steps'],'weight',j['weight'],'viol',j['violation_counts'],'reach',{k:v['count'] for k,v in j['reach'].items()})
for k,v in list(j['incomplete'].items())[:6]: print('  INC',k[:600],v)
seen=set()
for v in j['violations']:
    if v['label'] in seen: continue
    seen.add(v['label'])
    r=subprocess.run([f'/verif/build/{sys.argv[1]}/native',sys.argv[2],v['model']]+sys.argv[3:],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
    print('  VIOL',v['label'],v['model'],r.returncode,r.stdout[-700:])
P
