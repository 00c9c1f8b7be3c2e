#!/bin/bash
# development tool: applies seeded/ID (or a .diff given with its property as ID=file) to a private copy of /repo,
# bound over /repo in a namespace of its own, and runs the property's check there
cd /verif
for id in "$@"; do
	case $id in
	*=*) p=${id%%=*}; f=${id#*=};;
	*) p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])"); f=/verif/seeded/$id/patch.diff;;
	esac
	d=$(mktemp -d /tmp/ts.XXXXXX); cp -a /repo "$d/repo"; mkdir "$d/out" "$d/ev"
	(cd "$d/repo" && git apply "$f") || { echo "$id does not apply"; rm -rf "$d"; continue; }
	s=$(date +%s); out=$(unshare -rm bash -c "mount --bind $d/repo /repo; mkdir -p /verif/out /verif/evidence; mount --bind $d/out /verif/out; mount --bind $d/ev /verif/evidence; cd /verif; bash run.sh $p" 2>&1); rc=$?
	echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c 'failing input:') inputs; $(echo "$out" | grep VIOLATION | sed 's/.*json//') | $(echo "$out" | grep -m1 'failed obl\|failing input' | cut -c1-160)"
	[ -n "$TRYLOG" ] && echo "$out" > "$TRYLOG"
	rm -rf "$d"
done
