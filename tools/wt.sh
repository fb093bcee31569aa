#!/bin/bash
# refresh the scratch worktree /tmp/wt to /repo's HEAD
git -C /tmp/wt fetch -q /repo HEAD && git -C /tmp/wt reset -q --hard FETCH_HEAD
