#!/opt/veriftools/pyvenv/bin/python3
"""./check.py <property> [--only substring]... [-v]"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import runner

if __name__ == '__main__':
    a = sys.argv[1:]
    v = '-v' in a
    a = [x for x in a if x != '-v']
    only = []
    while '--only' in a:
        i = a.index('--only')
        only.append(a[i + 1])
        del a[i:i + 2]
    try:
        rc = runner.main(a[0], only, v)
    except runner.units.BuildError as e:
        print('BUILD ERROR: /repo does not compile:', e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
