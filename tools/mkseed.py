#!/opt/veriftools/pyvenv/bin/python3
"""mkseed.py <id> <property> <needs> <what>  : takes the diff of /tmp/wt, stores it in seeded/<id>, and resets /tmp/wt.  demo files are written by hand."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, p, needs, what = sys.argv[1:5]
d = '%s/seeded/%s' % (V, i)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/tmp/wt', 'diff'], capture_output=True, text=True).stdout
assert diff
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': p, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
subprocess.run(['git', '-C', '/tmp/wt', 'checkout', '-q', '--', '.'])
