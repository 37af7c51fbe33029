#!/bin/sh
# seed.sh <id> <property> <needs> <breaks>: take the change made in /tmp/work
# (a copy of /repo) and the demonstration on stdin, confirm both, and keep
# them as /verif/seeded/<id>.
id=$1; d=/verif/seeded/$1
git -C /tmp/work diff > /tmp/seed.diff
[ -s /tmp/seed.diff ] || { echo "no change"; exit 1; }
cat > /tmp/demo.sh
fail() { echo "SEED $id: $*"; exit 1; }
git -C /tmp/work diff --name-only | grep -q _test && fail "touches tests"
(cd /repo && sh /tmp/demo.sh >/tmp/demo.out 2>&1) || { cat /tmp/demo.out | tail -20; fail "demo fails on the unchanged tree"; }
(cd /tmp/work && go build ./... && go vet . ./cmd/... ) || fail "does not build"
(cd /tmp/work && go test ./... 2>&1 | grep -- '^ *--- FAIL' | sort > /tmp/seed.fails)
(cd /repo && go test ./... 2>&1 | grep -- '^ *--- FAIL' | sort > /tmp/base.fails)
sed -i 's/ (.*//' /tmp/seed.fails /tmp/base.fails
comm -23 /tmp/seed.fails /tmp/base.fails | grep . && fail "breaks tests"
(cd /tmp/work && sh /tmp/demo.sh >/tmp/demo.out 2>&1) && fail "demo passes with the change"
git -C /tmp/work status --short | grep -v '^ M' && fail "leftovers"
mkdir -p $d && cp /tmp/seed.diff $d/patch.diff && cp /tmp/demo.sh $d/demo.sh && chmod +x $d/demo.sh
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
# detection
(cd /verif && XGEN_REPO=/tmp/work XGENLINT_HOME=/tmp/exp/home /tmp/exp/xl check all 2>&1 | grep -a VIOLATION | sed 's/replay.*//' | tr '\n' ' ')
echo "SEED $id kept"
git -C /tmp/work checkout -q -- .
