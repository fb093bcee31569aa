#!/bin/bash
# usage: newseed.sh <id> : turn the edits in the scratch worktree /tmp/wt into seeded/<id>/patch.diff and reset it
mkdir -p /verif/seeded/$1; git -C /tmp/wt diff > /verif/seeded/$1/patch.diff; git -C /tmp/wt checkout -q -- .; wc -l /verif/seeded/$1/patch.diff
