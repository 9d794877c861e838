#!/bin/bash
# Development aid: run the check of each given planted bug in a scratch copy of /repo.   trybugs.sh ID...
cd "$(dirname "$0")/.."
for b in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
	T=$(mktemp -d /tmp/tb.XXXXXX)
	cp -a /repo "$T/repo"; git -C "$T/repo" apply "$PWD/seeded/$b/patch.diff"
	t0=$(date +%s)
	out=$(VERIF_REPO="$T/repo" VERIF_EVID="$T/evidence" python3-vt check.py $p 2>&1 | grep -v WARNING); 
	echo "$b: $(echo "$out" | grep -E '^VIOLATION' | sed 's/replay=[^ ]*//') [$(( $(date +%s) - t0 )) s]"
	echo "$out" | grep -E 'FAIL:|failed obl' | head -3 | cut -c1-300
	rm -rf "$T"
done
