"""python3 tools/fixed.py C07 'grep of commit subject' ...: append fixed: lines for /repo commits whose subject
starts with fix: and that the known-findings file does not list yet, under the given property."""
import subprocess
import sys
prop = sys.argv[1]
path = '/verif/known_findings.txt'
have = open(path).read()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
with open(path, 'a') as f:
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if s.startswith('fix: ') and h not in have:
            f.write(f'fixed: property={prop} {h} {s[5:]}\n')
            print(prop, h, s)
