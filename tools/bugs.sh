#!/bin/bash
# usage: bugs.sh [seed ids...] : which checks (the property's own) catch which planted bugs, 6 at a time
cd /verif/seeded; L=${@:-$(ls)}
one() { P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])"); echo "$1 $(N=1 bash /verif/tools/mutant.sh /verif/seeded/$1/patch.diff $P | tr '\n' ' ')"; }
export -f one; echo $L | tr ' ' '\n' | xargs -P 5 -I{} bash -c 'one {}'
