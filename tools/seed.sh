#!/bin/bash
# tools/seed.sh ID [check|nocheck]: confirm a planted bug in /repo (must be clean) and run its check.
id=$1; S=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
trap undo EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build fails"; exit 2; }
(cd /repo && bash $S/demo.sh >/tmp/seed_demo0 2>&1); d0=$?
git -C /repo apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_build 2>&1 || { echo "$id: patched build fails"; tail -5 /tmp/seed_build; exit 2; }
(cd /repo && bash $S/demo.sh >/tmp/seed_demo1 2>&1); d1=$?
bash /opt/vp/test.sh /tmp/seed_py.json >/dev/null 2>&1
py=$(python3 -c "import json;d=json.load(open('/tmp/seed_py.json'));print(d if not isinstance(d,dict) else {k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})")
cc=
[ "$3" = cc ] && { bash /opt/vp/test_cc.sh /tmp/seed_cc.json >/dev/null 2>&1; cc=$(python3 -c "import json;d=json.load(open('/tmp/seed_cc.json'));print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})"); }
echo "$id: demo base=$d0 patched=$d1 py=$py cc=$cc"
if [ "$2" != nocheck ]; then
  cd /verif; s=$(date +%s)
  for p in $prop $4; do ./check $p quick >/tmp/seed_check_$p 2>&1; rc=$?
  echo "$id: check $p rc=$rc $(grep -c '^VIOLATION' /tmp/seed_check_$p) violations, $(( $(date +%s)-s )) s"; done
fi
