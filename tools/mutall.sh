#!/bin/bash
# mutall.sh [ids]: runs each planted bug against its property's check.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  echo -n "$d: "; python3 tools/mut.py seeded/$d/patch.diff $p
done
