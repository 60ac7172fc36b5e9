#!/bin/bash
# matrix.sh ID... : runs, in copies of both trees, the quick check of the property of each planted bug.
# CHECKS="C08 C09" runs those checks instead; JOBS runs at once (default 2); KEEP=<dir> keeps the replay files.
root=$(cd "$(dirname "$0")/.." && pwd)
one() {
	id=$1; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
	git clone -q /repo "$w/repo" && cp -a "$root/sim" "$root/check.sh" "$root/known-findings.txt" "$w/" && cp -a "$root/properties.jsonl" "$root/MANIFEST.json" "$w/"
	if [ "$id" != clean ]; then
		git -C "$w/repo" apply "$BUGS/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; return; }
		checks=${CHECKS:-$(python3 -c "import json;print(json.load(open('$BUGS/$id/meta.json'))['property'])")}
	else checks=$CHECKS; fi
	for c in $checks; do
		s=$(date +%s)
		VSIM_REPO=$w/repo VSIM_HOME=$w/sim "$w/check.sh" $c ${TIER:-quick} $ARGS > "$w/out" 2>&1; rc=$?
		echo "$id $c exit=$rc $(($(date +%s)-s))s: $(grep -m1 -A2 VIOLATION "$w/out" | tr '\n' ' ' | cut -c1-330)"
		[ -z "$KEEP" ] || cp "$w"/replays/*.json "$KEEP/" 2>/dev/null
		[ "$rc" = 0 ] || [ "$rc" = 1 ] || tail -5 "$w/out"
	done
}
export -f one; export KEEP root BUGS=${BUGS:-$root/seeded} CHECKS TIER ARGS
printf '%s\n' "$@" | xargs -P "${JOBS:-2}" -I{} bash -c 'one {}'
