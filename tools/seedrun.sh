#!/bin/bash
# dev tool: seedrun.sh BINARY [ID...]: run the analyzer on each planted bug
bin=$1; shift
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
for id in "${ids[@]}"; do
	w=$(mktemp -d /tmp/seedrunXXXX); cp -a /repo "$w/repo"; mkdir -p "$w/v/evidence"; cp /verif/known-findings.txt "$w/v/"
	git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || echo "PATCH FAILS $id"
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	"$bin" -property "$p" -verif "$w/v" -repo "$w/repo" >"$w/out" 2>&1; rc=$?
	echo "$id $p rc=$rc $(grep -c '^VIOLATION' $w/out)"
	[ $rc = 1 ] || tail -5 "$w/out"
	rm -rf "$w"
done
