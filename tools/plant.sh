#!/bin/bash
# plant.sh ID: patch in /repo's working tree is taken as the change (uncommitted), main.rs must be in /verif/seeded/ID.
# Verifies: builds, stable tests pass, demo 0 without / nonzero with, then runs the property's check.
id=$1; d=/verif/seeded/$id; export DEMO_TARGET=/tmp/demo-target
[ -f $d/demo.sh ] || cp /verif/tools/demo/demo.sh /verif/tools/demo/Cargo.toml $d/
git -C /repo diff --quiet || git -C /repo diff > $d/patch.diff
git -C /repo checkout -q -- .
(cd /repo && bash $d/demo.sh); a=$?
git -C /repo apply $d/patch.diff || exit 1
(cd /repo && bash $d/demo.sh); b=$?
echo "demo: clean $a patched $b"
[ "${NOTEST:-}" ] || bash /tmp/t.sh
for p in $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])") ${ALSO:-}; do
 /verif/check.sh $p > /tmp/plant.$id.$p.out 2>/tmp/plant.$id.$p.err; echo "check $p exit $?"; grep -a "^VIOLATION\|^ERROR" /tmp/plant.$id.$p.out | head -3; grep -a "^\[" /tmp/plant.$id.$p.err | cut -c1-200 | head -5
done
git -C /repo checkout -q -- .
