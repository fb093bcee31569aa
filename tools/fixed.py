"""usage: fixedn.py <property> <n> "<what failed>": records the n-th last /repo commit (0: the last) as a repair."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
c = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short=12", f"HEAD~{sys.argv[2]}"], capture_output=True, text=True).stdout.strip()
d["fixed"].append(f"fixed: property={sys.argv[1]} {c} {sys.argv[3]}")
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False)
