#!/bin/bash
# tryseed.sh: run the property's check against each seeded bug
cd /verif
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
 timeout 900 ./run.sh $p > /tmp/out.txt 2>&1; rc=$?
 git -C /repo checkout -q -- .
 n=$(grep -ac '^failed obligation' /tmp/out.txt); o=$(grep -a '^failed obligation' /tmp/out.txt | head -1 | cut -c20-90)
 k=$(grep -ac 'failing input:' /tmp/out.txt); h=""; [ "$k" -gt 0 ] && h="input"; [ "$n" -gt 0 ] && h="proof ($o)${h:+, $h}"; [ -z "$h" ] && h=missed
 sed -i "/^$d /d" /verif/tools/seeded_results.txt 2>/dev/null; echo "$d $h" >> /verif/tools/seeded_results.txt
 echo "$d rc=$rc $(grep -ac 'failing input' /tmp/out.txt) $(grep -a VIOLATION /tmp/out.txt) | $(grep -a 'failing input' /tmp/out.txt | head -1 | cut -c1-150)"
done
