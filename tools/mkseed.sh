#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS < demo.rs : takes the working-tree diff of /repo as the patch, then restores /repo.
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
[ -s $d/patch.diff ] || { echo EMPTY PATCH; exit 1; }
cat > $d/demo.rs; cp /verif/tools/demo.sh $d/demo.sh; cp /verif/harness/Cargo.lock $d/Cargo.lock
python3 - "$@" <<'P' > $d/meta.json
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
