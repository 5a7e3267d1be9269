"""Runs the contracts of one property: builds the units, discharges, replays, writes the evidence."""
import os
import sys
import json
import time
import signal
import shutil
import tempfile
import importlib.util
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'props'))
import units
import contract
from contract import TIER, SEED

NPROC = int(os.environ.get('VERIF_JOBS', '8'))
LIMIT = 200 if TIER == 'quick' else 1800       # per contract, seconds
DEADLINE = 720 if TIER == 'quick' else 6 * 3600  # whole check


def load_prop(pid):
    path = os.path.join(VERIF, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('prop_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Worker:
    def __init__(self, tasks, fn):
        self.r, w = os.pipe()
        self.tasks = list(tasks)
        self.cur = 0
        self.buf = b''
        self.t = time.time()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            try:
                for t in self.tasks:
                    d = fn(t)
                    os.write(w, (json.dumps(d, default=str) + '\n').encode())
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        os.close(w)


def d_confirmed(d):
    return d.get('status') == 'failed' and bool(d.get('replay'))


def run_tasks(n, fn, on_timeout, weights=None, deadline=None):
    """tasks 0..n-1 in forked workers, one task per fork batch; hard time limit per task"""
    import select
    deadline = deadline or DEADLINE
    order = list(range(n))
    if weights:
        order.sort(key=lambda i: -weights[i])
    results = {}
    queue = order[:]
    batch = 1   # a fresh process each: solver behaviour then depends on the contract alone
    workers = []
    t0 = time.time()
    while queue or workers:
        while queue and len(workers) < NPROC:
            if weights and weights[queue[0]] > 1:
                b, queue = queue[:1], queue[1:]
            else:
                b, queue = queue[:batch], queue[batch:]
            workers.append(Worker(b, fn))
        rl, _, _ = select.select([w.r for w in workers], [], [], 1.0)
        for w in list(workers):
            if w.r in rl:
                data = os.read(w.r, 1 << 20)
                if data:
                    w.buf += data
                    while b'\n' in w.buf:
                        line, w.buf = w.buf.split(b'\n', 1)
                        results[w.tasks[w.cur]] = json.loads(line)
                        w.cur += 1
                        w.t = time.time()
                        if d_confirmed(results[w.tasks[w.cur - 1]]) and TIER == 'quick':
                            deadline = min(deadline, time.time() - t0 + 90)   # a violation is established; finish soon
                else:
                    os.close(w.r)
                    os.waitpid(w.pid, 0)
                    workers.remove(w)
                    for j, t in enumerate(w.tasks[w.cur:]):
                        if j == 0:
                            results[t] = on_timeout(t, 'the verifier process died')
                        else:
                            queue.insert(0, t)
                    continue
            over = time.time() - t0 > deadline
            if time.time() - w.t > LIMIT or over:
                os.kill(w.pid, signal.SIGKILL)
                os.waitpid(w.pid, 0)
                os.close(w.r)
                workers.remove(w)
                for j, t in enumerate(w.tasks[w.cur:]):
                    if j == 0:
                        results[t] = on_timeout(t, 'time limit of %d s' % (LIMIT if not over else deadline))
                    else:
                        queue.insert(0, t)
        if time.time() - t0 > deadline:
            for t in queue:
                results[t] = on_timeout(t, 'deadline of the whole check')
            queue = []
    return [results[i] for i in range(n)]


def main(pid, only=None, verbose=False):
    t0 = time.time()
    prop = load_prop(pid)
    wd = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return run(pid, prop, wd, t0, only, verbose)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(pid, prop, wd, t0, only, verbose):
    cons = prop.contracts()
    if only:
        cons = [c for c in cons if any(o in c.label for o in only)]
    mods, nats = {}, {}
    for u in sorted({c.unit for c in cons}):
        js, so = units.build(u, wd)
        mods[u] = contract.Module(js)
        nats[u] = contract.Native(so)
        nats[u].load()
    tb = time.time() - t0
    # contracts may be generated from the module (e.g. one per instantiation)
    if hasattr(prop, 'late'):
        cons = prop.late(cons, mods)

    def one(i):
        c = cons[i]
        return contract.check_contract(c, mods[c.unit], nats[c.unit]).dict()

    def dead(i, why):
        r = contract.Result(cons[i].label)
        r.status = 'timeout'
        r.note = why
        r.obls = 1
        return r.dict()
    rs = run_tasks(len(cons), one, dead, [getattr(c, 'weight', 1) for c in cons])
    # a proof that did not finish is tried once more with other solver seeds
    to = [i for i, r in enumerate(rs) if r['status'] == 'timeout']
    done = TIER == 'quick' and any(d_confirmed(r) for r in rs)
    if to and not done and time.time() - t0 < DEADLINE - LIMIT - 150:
        def again(j):
            for o in ('smt.random_seed', 'sat.random_seed', 'nlsat.seed'):
                contract.z3.set_param(o, 7)
            return one(to[j])
        for i, r in zip(to, run_tasks(len(to), again, lambda j, why: dead(to[j], why), deadline=DEADLINE - 120 - (time.time() - t0))):
            rs[i] = r
    # a contract whose proof did not finish gets the bounded stand-in
    to = [i for i, r in enumerate(rs) if r['status'] == 'timeout']
    if to and not done:
        def fb(j):
            c = cons[to[j]]
            r = contract.Result(c.label)
            r.note = rs[to[j]]['note']
            r.obls = 0 if isinstance(c, contract.Trial) else 1
            try:
                contract.check_trial(c, mods[c.unit], nats[c.unit], r) if isinstance(c, contract.Trial) else contract.fallback(c, mods[c.unit], nats[c.unit], r)
            except Exception:
                r.status = 'error'
            return r.dict()
        for i, r in zip(to, run_tasks(len(to), fb, lambda j, why: dead(to[j], why), deadline=max(60, 850 - (time.time() - t0)))):
            rs[i] = r
    lemmas = []
    if hasattr(prop, 'lemmas') and not only:
        lemmas = run_lemmas(prop)
    return report(pid, prop, cons, rs, lemmas, t0, tb, verbose, only)


def run_lemmas(prop):
    """lemmas over the contracts, each (name, [assumptions], goal)"""
    out = []
    for nm, hyp, goal in prop.lemmas():
        r, be, tm, mdl = contract.solve(list(hyp) + [contract.z3.Not(goal)], contract.T_Z3)
        cov = contract.solve(list(hyp), contract.T_Z3)[0] if hyp else 'sat'
        out.append((nm, r, be, tm, cov))
    return out


def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') != 'fixed']


def report(pid, prop, cons, rs, lemmas, t0, tb, verbose, only):
    failed = [r for r in rs if r['status'] == 'failed']
    bounded = [r for r in rs if r['status'] in ('bounded', 'undecided', 'timeout')]
    errors = [r for r in rs if r['status'] == 'error']
    obl = sum(r['obls'] for r in rs) + len(lemmas)
    dis = sum(r['discharged'] for r in rs) + sum(1 for l in lemmas if l[1] == 'unsat' and l[4] == 'sat')
    by, kinds = {}, {}
    for r in rs:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    for l in lemmas:
        kinds['lemma'] = kinds.get('lemma', 0) + 1
        if l[1] == 'unsat':
            by[l[2]] = by.get(l[2], 0) + 1
    stime = sum(r['solver_time'] for r in rs) + sum(l[3] for l in lemmas)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    kn = known(pid)
    known_hit = []

    def rfile(r):
        safe = ''.join(ch if ch.isalnum() or ch in '._-' else '_' for ch in r['label'])[:80]
        p = os.path.join(rdir, '%s-%s.json' % (pid, safe))
        with open(p, 'w') as f:
            json.dump({'property': pid, 'contract': r['label'], 'function': r['fname'], 'failed_obligations': r['failed'],
                       'counterexample': r['replay'], 'note': r['note'],
                       'how': 'python3-vt /verif/engine/replay.py ' + p}, f, indent=1, default=str)
        return p
    viol = 0
    conf, unconf = [], []
    for r in failed:
        k = next((k for k in kn if k.get('contract') == r['label'] and (not k.get('obligation') or any(k['obligation'] in f[0] for f in r['failed']))), None)
        if k:
            known_hit.append(k)
            continue
        (conf if r['replay'] else unconf).append(r)
    missing = [r for r in errors if r['note'] and 'not found' in r['note']]
    unconf += missing
    lem_bad = [l for l in lemmas if not (l[1] == 'unsat' and l[4] == 'sat')]
    for r in conf:
        lines.append('VIOLATION property=%s replay=%s' % (pid, rfile(r)))
    for r in unconf:
        p = rfile(r)
        if not conf:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    for l in lem_bad:
        print('LEMMA NOT DISCHARGED', l[0], l[1], l[4])
    for k in kn:
        if k in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {
        'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': './check.py %s' % pid,
            'trusted_base': ['clang-16 front end and the sroa/simplifycfg/instsimplify/loop-simplify/lcssa passes (C++ to LLVM IR)',
                             'engine/irdump.cpp, engine/dom.py, engine/core.py, engine/contract.py (verification-condition generator)',
                             'z3 5.3.2 / cvc5 1.1.2'] + getattr(prop, 'TRUSTED', []),
            'contracts': len(rs), 'contracts_proved': sum(1 for r in rs if r['status'] == 'proved'),
            'contracts_bounded_only': [{'contract': r['label'], 'why': r['bounded_note'] or r['note']} for r in bounded],
            'contracts_failed': [{'contract': r['label'], 'obligations': r['failed'][:5], 'replayed': bool(r['replay'])} for r in failed],
            'contracts_without_answer': [{'contract': r['label'], 'why': r['note']} for r in errors],
            'functions_under_contract': sorted({r['fname'] for r in rs if r['fname']}),
            'functions_executed_inside': sorted({f for r in rs for f in r['inlined']})[:200],
            'obligations_by_kind': kinds, 'discharged_by_backend': by, 'solver_seconds': round(stime, 2),
            'loops': sorted({'%s: %s' % (l[0], ', '.join(l[1])) for r in rs for l in r['loops']}),
            'vacuity_covers_sat': sum(1 for r in rs if r['cover'] in ('sat', 'executed')),
            'lemmas': [{'name': l[0], 'result': l[1], 'hypotheses': l[4]} for l in lemmas],
            'differential_executions_of_compiled_code': sum(r['samples'] for r in rs),
            'build_seconds': round(tb, 1),
            'samples': [{'contract': r['label'], 'function': r['fname'], 'obligations': r['obls'], 'discharged': r['discharged'],
                         'kinds': r['kinds']} for r in rs[:3]],
        },
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])) + sorted({'external or contract-replaced callee: ' + a for r in rs for a in r['assumed'] if not a.startswith('llvm.')})
        + sorted({t for c in cons for t in c.trusted}),
        'wall_s': round(time.time() - t0, 2), 'violations': len(conf) + len(unconf),
    }
    if not only:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s: %d contracts, %d obligations, %d discharged (%s), solver %.1f s, wall %.1f s, %d concrete executions'
          % (pid, len(rs), obl, dis, ', '.join('%s %d' % x for x in sorted(by.items())), stime, time.time() - t0,
             sum(r['samples'] for r in rs)))
    for r in rs:
        if r['status'] != 'proved' or verbose or r['note']:
            print('  %-9s %s  obl %d/%d  %.1fs  cover=%s %s %s' % (r['status'], r['label'], r['discharged'], r['obls'], r['wall'], r['cover'],
                  ('FAILED: ' + '; '.join('%s=%s' % tuple(f) for f in r['failed'][:3])) if r['failed'] else '', (r['note'] or '')[-600:]))
            if r['replay']:
                print('     input', json.dumps(r['replay'], default=str)[:600])
            if verbose and r['loops']:
                print('     loops', r['loops'])
    for l in lines:
        print(l)
    if lines:
        return 1
    if obl == 0 or lem_bad:
        print('no obligations or undischarged lemma: the check itself is broken')
        return 2
    return 0
