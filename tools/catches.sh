#!/bin/bash
# catches.sh [ID...]: runs each planted bug's own check on it and records the result in /verif/catches.tsv.
cd /verif
out=/verif/catches.tsv; touch $out
ids=${*:-$(ls seeded)}
for id in $ids; do
  l=$(NOTEST=1 tools/seedcheck.sh $id 2>/dev/null | tail -1)
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  r=missed; case "$l" in *" exit 1: "*) r=$(echo "$l" | sed -E 's/.* exit 1: ([^:]*): .*/\1/' | cut -c1-60);; esac
  grep -v "^$id	" $out > $out.new; printf '%s\t%s\t%s\n' "$id" "$p" "$r" >> $out.new; sort $out.new > $out; rm -f /verif/catches.tsv.new
done
