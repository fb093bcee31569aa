"""usage: ed.py FILE OLD NEW [count]: replace text in the scratch copy /tmp/wt (must match exactly once unless count given)"""
import sys
p = "/tmp/wt/src/" + sys.argv[1]
s = open(p).read()
n = s.count(sys.argv[2])
want = int(sys.argv[4]) if len(sys.argv) > 4 else 1
if n != want:
    sys.exit(f"{n} matches in {p}")
open(p, "w").write(s.replace(sys.argv[2], sys.argv[3]))
