#!/bin/bash
# mut.sh CHECKS FILE PYEXPR-OLD PYEXPR-NEW : replace first occurrence in /repo/FILE, run the checks, restore
CH="$1"; F="$2"
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
python3 - "$F" "$3" "$4" <<'P' || { git checkout -q -- .; exit 1; }
import sys
f,a,b=sys.argv[1:]
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
s=open(f).read()
if a not in s: print('NOT FOUND'); sys.exit(1)
open(f,'w').write(s.replace(a,b,1))
P
for c in $CH; do /verif/check $c | grep -E "^src/|BROKEN|VIOL|discharged" ; done
git checkout -q -- .
