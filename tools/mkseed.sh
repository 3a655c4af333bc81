#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS — from the edited worktree /tmp/seedwt and demonstration /tmp/seeddemo/main.go,
# confirms that the change builds, passes the baseline tests and is shown by the demonstration, and stores it as seeded/ID.
set -e
ID=$1; P=$2; NEEDS=$3; BREAKS=$4
S=/verif/seeded/$ID
mkdir -p $S
git -C /tmp/seedwt diff > /tmp/$ID.diff
[ -s /tmp/$ID.diff ] || { echo "no change"; exit 1; }
rm -rf "$S/kit"; mkdir -p $S/kit/kit
cp -r /verif/harness/wire /verif/harness/memnet /verif/harness/kafka $S/kit/
cp /verif/tools/demokit/kit.go $S/kit/kit/
cp /verif/harness/go.mod $S/kit/
cp /verif/tools/demokit/demo.sh /tmp/seeddemo/main.go $S/
cp /tmp/$ID.diff $S/patch.diff
python3 - "$P" "$NEEDS" "$BREAKS" > $S/meta.json <<'E'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
E
/verif/tools/tryseed.sh $ID
