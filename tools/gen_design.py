"""Writes DESIGN.md from tools/design.tmpl: fills in the tables of models, fixes and planted bugs."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = open(f"{V}/tools/design.tmpl").read()
old = {}
if os.path.exists(f"{V}/DESIGN.md"):  # numbers of checks not run here stay
    old = {m[1]: m[0] for m in re.finditer(r"^\| (C\d\d) \|.*$", open(f"{V}/DESIGN.md").read(), re.M)}
rows = []
for l in open(f"{V}/properties.jsonl"):
    i = json.loads(l)["id"]
    try:
        d = json.load(open(f"{V}/evidence/{i}.json"))
    except OSError:
        if i in old:
            rows.append(old[i])
        continue
    if d["tier"] != "quick" and i in old:
        rows.append(old[i])
        continue
    c = d["coverage"]
    mods = sorted({m["model"] for m in c["models"]} | {s["trace"] for s in c["samples"]})
    st = "; ".join(f"{m['cfg'][:-4]} {m['states']:,}" for m in c["models"] if not m.get("contrast"))
    n = sum(1 for m in c["models"] if m.get("contrast"))
    rows.append(f"| {i} | {', '.join(mods)} | {st or 'enumerated scenarios'}" + (f" / {n} refuted" if n else "") + f" | {c['traces_validated_against_impl']:,} |")
t = t.replace("@TABLE@", "\n".join(rows))
fx = json.load(open(f"{V}/known_findings.json"))
by = {}
for f in fx["fixed"]:
    m = re.match(r"fixed: property=(C\d\d) (\w+) (.*)", f, re.S)
    by.setdefault(m[1], []).append(f"- `{m[2][:10]}` {m[3]}")
t = t.replace("@FIXED@", f"{len(fx['fixed'])} defects were found by the checks on the pinned tree and fixed (one `fix:` commit each); {len(fx['findings'])} findings are open.\n\n"
              + "\n".join(f"**{k}**\n\n" + "\n".join(v) + "\n" for k, v in sorted(by.items())))
b = []
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    b.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {d.get('caught', d['property'])} |")
t = t.replace("@BUGS@", "\n".join(b)).replace("@MORE@\n", "")
open(f"{V}/DESIGN.md", "w").write(t)
