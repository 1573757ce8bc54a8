#!/bin/bash
# test.sh ID...: applies each planted bug to a copy of /repo, tests and demonstrates it, then runs the property's check against it in /repo.
V="$(cd "$(dirname "$0")/../.." && pwd)"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
	S="$V/seeded/$id"
	P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
	(cd /repo && bash "$S/demo.sh" >/tmp/exp/demo0.log 2>&1); d0=$?
	git -C /repo apply "$S/patch.diff" || { echo "$id: does not apply"; continue; }
	if bash /opt/vp/build.sh >/tmp/exp/b.log 2>&1; then b=0; else b=1; tail -3 /tmp/exp/b.log; fi
	t=$(bash /opt/vp/test.sh /tmp/exp/o.json 2>&1 | tail -1)
	(cd /repo && bash "$S/demo.sh" >/tmp/exp/demo1.log 2>&1); d1=$?
	if [ -z "$NOCHECK" ]; then
	s=$(date +%s); timeout 900 "$V/check.sh" "${CHECK:-$P}" >/tmp/exp/c.log 2>&1; c=$?; e=$(date +%s)
	fi
	git -C /repo checkout -- .
	v=$(grep -m1 '^VIOLATION' /tmp/exp/c.log | cut -c1-100)
	ok=BAD; [ $d0 = 0 ] && [ $d1 != 0 ] && [ $b = 0 ] && ok=ok
	echo "$id $P seed=$ok (demo $d0/$d1 build $b) tests: $t | check exit $c in $((e-s)) s $v"
done
bash /opt/vp/build.sh >/dev/null 2>&1
