#!/opt/veriftools/pyvenv/bin/python3
"""replay.py <replay file>: rebuilds the unit from /repo and runs the counterexample through the compiled function."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner, units, contract
d = json.load(open(sys.argv[1]))
if not d.get('counterexample'):
    print('no failing input; failed obligations:', json.dumps(d['failed_obligations'], indent=1))
    sys.exit(0)
prop = runner.load_prop(d['property'])
con = next(c for c in prop.contracts() if c.label == d['contract'])
wd = tempfile.mkdtemp(prefix='verif_replay_')
try:
    js, so = units.build(con.unit, wd)
    mod, nat = contract.Module(js), contract.Native(so)
    if isinstance(con, contract.Trial):
        r = contract.trial_one(con, nat, d['counterexample']['input'])
    else:
        r = contract.check_concrete(con, mod, nat, d['counterexample']['input'])
    print('input    ', json.dumps(d['counterexample']['input']))
    print('result   ', 'contract holds on the current tree' if r is None else json.dumps(r, default=str))
finally:
    shutil.rmtree(wd, ignore_errors=True)
os._exit(0 if r is None else 1)
