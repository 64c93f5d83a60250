#!/bin/bash
# Author's tool: runs the checks of the given properties against a seeded change, then undoes it.
#   tools/catch.sh <id> [property...]   (default: the property in meta.json)
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)}
git -C /repo apply $d/patch.diff || exit 2
for p in $props; do
  /verif/tools/run.sh check $p >/tmp/catch.out 2>/tmp/catch.err; rc=$?
  echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/catch.out) $(grep -m1 -A2 'kind' /tmp/catch.err | tr '\n' ' ' | cut -c1-200)"
done
git -C /repo checkout -- .
