#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": takes the current uncommitted diff of /repo as the patch and restores /repo;
# demo.cpp is read from stdin.
S=/verif/seeded/$1; mkdir -p "$S"
git -C /repo diff > "$S/patch.diff"; git -C /repo checkout -- .
cp /verif/tools/seedlib/demo.sh /verif/tools/seedlib/*.hpp "$S/"
cat > "$S/demo.cpp"
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4],"caught_by":[]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
wc -l "$S/patch.diff"
