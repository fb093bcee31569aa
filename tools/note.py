"""note.py ID "technique" "note": set a manifest entry and regenerate."""
import json, sys, os, subprocess
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"level_notes.json")
d=json.load(open(p))
if len(sys.argv)>3:
    d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
    json.dump(d,open(p,"w"),indent=1,ensure_ascii=False)
subprocess.check_call([sys.executable,os.path.join(os.path.dirname(p),"gen_manifest.py")])
