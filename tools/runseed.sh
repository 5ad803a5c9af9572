#!/bin/bash
# runseed.sh ID [PROP...]: runs checks against a planted bug in a scratch copy of /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
tmp=$(mktemp -d /tmp/rs.XXXXXX); trap 'rm -rf "$tmp"' EXIT
cp -a /repo "$tmp/repo"; git -C "$tmp/repo" checkout -q -- .
git -C "$tmp/repo" apply /verif/seeded/$id/patch.diff || exit 2
for q in $p; do
  s=$(date +%s); out=$(VERIF_REPO=$tmp/repo "$here/check.sh" $q quick 2>&1); rc=$?
  echo "$id $q rc=$rc $(( $(date +%s)-s ))s: $(echo "$out" | grep -v '^ ' | head -1 | cut -c1-150)"
  [ $rc = 2 ] && echo "$out" | tail -20
done
