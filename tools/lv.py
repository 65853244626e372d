"""python3 tools/lv.py C07 technique note: set the level entry and regenerate MANIFEST.json"""
import json
import subprocess
import sys
p = '/verif/tools/levels.json'
d = json.load(open(p))
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(dict(sorted(d.items())), open(p, 'w'), indent=0, ensure_ascii=False)
subprocess.check_call(['python3', '/verif/tools/mkmanifest.py'])
