#!/bin/bash
# tools/seed.sh ID PROP NEEDS BREAKS <demo body on stdin>; the bug is the current diff of /repo
set -e
d=/verif/seeded/$1; mkdir -p $d
{ cat <<'H'
#!/bin/bash
RUC=$PWD/_build/Release/ruc
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; cd "$W"
fail() { echo "DEMO: $*"; exit 1; }
vm() { "$RUC" "$1" -o "$2" -VM >"$2.log" 2>&1; }
vmx() { vm "$1" x.vm && timeout 20 python3 "$HERE/vmrun.py" x.vm; }
run() { "$RUC" "$1" -o p.ll -LLVM >p.log 2>&1 && clang -w p.ll -lm -o p.exe >>p.log 2>&1 && timeout 10 ./p.exe; }
H
cat; } > $d/demo.sh
grep -q 'vmx' $d/demo.sh && sed 1,10d $d/demo.sh | grep -q vmx && cp /verif/tools/vmrun.py $d/ || true
python3 - "$@" <<'P'
import json,sys
_,i,p,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1,ensure_ascii=False)
P
cd /verif && python3 tools/plant.py $1 $2
