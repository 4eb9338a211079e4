#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "breaks": takes the diff of /tmp/seedsrc (a copy of /repo) and /tmp/demo.rs
S=/verif/seeded/$1; mkdir -p "$S"
git -C /tmp/seedsrc diff > "$S/patch.diff"; cp /tmp/demo.rs "$S/demo.rs"; cp /verif/tools/seedtmpl/demo.sh "$S/demo.sh"; chmod +x "$S/demo.sh"
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
git -C /tmp/seedsrc checkout -q -- .
wc -l "$S/patch.diff"
