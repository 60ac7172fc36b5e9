#!/bin/bash
# seed.sh make ID     : takes /repo's uncommitted changes as seeded/ID/patch.diff and reverts them
# seed.sh verify ID.. : the patch applies, builds, passes the tests, and the demo tells both trees apart
# seed.sh run ID [CHECK..] : runs the check of the bug's property (or the given ones) against it
root=$(cd "$(dirname "$0")/.." && pwd)
cmd=$1; shift
clean() { git -C /repo checkout -q -- .; }
[ "$cmd" = make ] || [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
case $cmd in
make)
	mkdir -p "$root/seeded/$1"
	git -C /repo diff > "$root/seeded/$1/patch.diff"
	clean
	wc -l "$root/seeded/$1/patch.diff" ;;
verify)
	for id in "$@"; do
		d=$root/seeded/$id
		git -C /repo apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
		bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id: DOES NOT BUILD"; tail -5 /tmp/seed.log; clean; continue; }
		(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed.demo1 2>&1); with=$?
		bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
		missing=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
b=b.get('passed',b.get('stable',b)) if isinstance(b,dict) else b
print(len(set(b)-set(o['passed'])))")
		clean
		bash /opt/vp/build.sh >/tmp/seed.log 2>&1
		(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed.demo0 2>&1); without=$?
		v=OK; [ "$with" != 0 ] && [ "$without" = 0 ] && [ "$missing" = 0 ] || v=BAD
		echo "$id: $v demo with=$with without=$without tests lost=$missing : $(tail -1 /tmp/seed.demo1)"
	done ;;
run)
	id=$1; shift
	git -C /repo apply "$root/seeded/$id/patch.diff" || exit 2
	trap clean EXIT
	checks=${*:-$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")}
	for c in $checks; do
		s=$(date +%s); "$root/check.sh" $c quick > /tmp/seed.check 2>&1; rc=$?
		echo "$id $c exit=$rc $(($(date +%s)-s))s: $(grep -m1 VIOLATION /tmp/seed.check; grep -A3 -m1 VIOLATION /tmp/seed.check | sed -n 2p | cut -c1-300)"
	done ;;
esac
