# -*- coding: utf-8 -*-
"""
Runner: `run.py <ID>` runs a check; `run.py --replay <file>` replays a
violation; `run.py <ID> --case N` runs one case.
"""
from __future__ import annotations

import argparse
import collections
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from mon import core  # noqa: E402

sys.path.insert(0, core.REPO)
warnings.simplefilter('ignore')

WALL_LIMIT = {'quick': 420, 'thorough': 3300}


def load(prop):
    return importlib.import_module('mon.props.' + prop.lower())


def _init():
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')


def _job(args):
    prop, seed, tier, cases, deadline = args
    mod = load(prop)
    res = []
    for c in cases:
        if time.time() > deadline:
            break
        r = core.run_case(mod, prop, seed, tier, c)
        res.append(r)
        if r['status'] == 'violation':
            break
    return res


def _worker(conn):
    _init()
    parent = os.getppid()
    while True:
        while not conn.poll(5):
            if os.getppid() != parent:
                os._exit(1)
        job = conn.recv()
        if job is None:
            return
        conn.send(_job(job))


def run_jobs(jobs, nproc, lost):
    """Yield the results of jobs run by forked workers, in any order.

    Every worker has its own pipe, and no lock is shared, so that workers may
    be killed, or die, at any time. A job whose worker died is run once more.
    """
    mp = multiprocessing.get_context('fork')
    queue = collections.deque((j, 0) for j in jobs)
    busy = {}

    def start():
        mine, theirs = mp.Pipe()
        proc = mp.Process(target=_worker, args=(theirs,), daemon=True)
        proc.start()
        theirs.close()
        return mine, proc

    def feed(mine, proc):
        if queue:
            item = queue.popleft()
            busy[mine] = (proc, item)
            mine.send(item[0])
        else:
            mine.send(None)
            mine.close()
            proc.join(5)
            if proc.is_alive():
                proc.kill()

    try:
        for _ in range(min(nproc, len(jobs))):
            feed(*start())
        while busy:
            for mine in multiprocessing.connection.wait(list(busy)):
                proc, item = busy.pop(mine)
                try:
                    res = mine.recv()
                except (EOFError, OSError):
                    proc.kill()
                    mine.close()
                    if item[1]:
                        lost.append(item[0])
                    else:
                        queue.append((item[0], 1))
                    if queue:
                        feed(*start())
                    continue
                yield res
                try:
                    feed(mine, proc)
                except OSError:
                    job = busy.pop(mine, None)
                    if job:
                        queue.append(job[1])
                    if queue:
                        feed(*start())
    finally:
        for mine, (proc, _) in busy.items():
            proc.kill()


def known_findings():
    out = []
    path = os.path.join(core.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                out.append(line)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--case', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--n', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    opt = ap.parse_args()
    if opt.tier not in WALL_LIMIT:
        opt.tier = 'quick'

    if opt.replay:
        r = json.load(open(opt.replay))
        opt.prop, opt.seed, opt.tier, opt.case = (
            r['property'], r['seed'], r['tier'], r['case'])
    prop = opt.prop

    start = time.time()
    os.makedirs(os.path.join(core.EVID, 'replays'), exist_ok=True)
    evfile = os.path.join(core.EVID, prop + '.json')

    try:
        mod = load(prop)
    except Exception as e:
        import traceback
        frames = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        if any(f.filename.startswith(core.REPO) for f in frames):
            # the code under test cannot be imported at all
            path = os.path.join(core.EVID, 'replays', prop + '-import.json')
            json.dump({'property': prop, 'seed': opt.seed, 'tier': opt.tier,
                       'case': 0, 'message': 'import failed: %r' % e},
                      open(path, 'w'))
            write_evidence(evfile, prop, opt, {}, 1, start, {}, mod=None)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        return 3

    if opt.case is not None:
        _init()
        r = core.run_case(mod, prop, opt.seed, opt.tier, opt.case)
        print(json.dumps(r, indent=1, default=str))
        if r['status'] == 'violation':
            print(r['message'])
            print('VIOLATION property=%s replay=%s' % (
                prop, opt.replay or 'case:%d' % opt.case))
            return 1
        return 0 if r['status'] in ('ok', 'skip') else 2

    n = opt.n or mod.CASES[opt.tier]
    ns = len(mod.STRATA)
    n = max(ns, (n // ns) * ns)
    chunk = max(1, min(25, n // (opt.jobs * 4) or 1))
    deadline = start + WALL_LIMIT[opt.tier]
    jobs = [(prop, opt.seed, opt.tier,
             list(range(i, min(n, i + chunk))), deadline)
            for i in range(0, n, chunk)]

    total = collections.Counter()
    strata = collections.Counter()
    status = collections.Counter()
    sigs, samples, violations, odd = set(), {}, [], []
    lost = []
    for res in run_jobs(jobs, opt.jobs, lost):
        for r in res:
            status[r['status']] += 1
            if r['status'] == 'ok':
                strata[str(r['stratum'])] += 1
            total.update(r['counters'])
            sigs.update(r['sigs'])
            if r['sample'] and len(samples) < 400:
                samples.setdefault(str(r['stratum']), r['sample'])
            if r['status'] == 'violation':
                violations.append(r)
            elif r['status'] in ('env', 'timeout'):
                odd.append(r)
        if len(violations) >= 5:
            break
    if lost:
        # a worker process that died twice in the same cases
        status['env'] += len(lost)
        odd.extend({'message': 'worker died in cases %s' % (j[3],)}
                   for j in lost)

    # a watchdog is not a verdict, but a workload that does not end in a
    # second, solitary run either is something the monitor saw
    for r in [o for o in odd if o['status'] == 'timeout'][:1]:
        _init()
        r2 = core.run_case(mod, prop, opt.seed, opt.tier, r['case'])
        if r2['status'] == 'timeout':
            r2['status'] = 'violation'
            r2['message'] = ('the workload did not terminate within %d s, '
                             'twice' % core.CASE_TIMEOUT)
            violations.append(r2)
        elif r2['status'] == 'violation':
            violations.append(r2)

    extra = {'strata': dict(strata), 'case status': dict(status)}
    nviol = len(violations)
    write_evidence(evfile, prop, opt, total, nviol, start, extra, mod=mod,
                   sigs=sigs, samples=samples)

    for line in known_findings():
        if 'property=%s ' % prop in line:
            print('KNOWN-FINDING: ' + line[len('finding:'):].strip())

    if violations:
        violations.sort(key=lambda r: r['case'])
        r = violations[0]
        path = os.path.join(core.EVID, 'replays', '%s-%d-%d.json' % (
            prop, opt.seed, r['case']))
        json.dump(dict(r, property=prop, seed=opt.seed, tier=opt.tier),
                  open(path, 'w'), indent=1, default=str)
        print('case %d (%s): %s' % (r['case'], r['stratum'], r['message']))
        print(r.get('trace', ''))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1

    need = getattr(mod, 'NEED', {})
    missing = [k for k in need if total.get(k, 0) < need[k]]
    if missing or not status['ok'] or status['env']:
        print('INCONCLUSIVE property=%s missing=%s status=%s' % (
            prop, missing, dict(status)))
        for o in odd[:3]:
            print(o.get('message'), o.get('trace'))
        return 2
    if status['timeout']:
        print('note: %d cases hit the watchdog once' % status['timeout'])
    print('held property=%s cases=%d distinct=%d wall=%.1fs %s' % (
        prop, status['ok'], len(sigs), time.time() - start, dict(total)))
    return 0


def write_evidence(path, prop, opt, total, nviol, start, extra, mod,
                   sigs=(), samples=None):
    status = extra.get('case status', {})
    ev = {
        'property': prop,
        'tier': opt.tier,
        'seed': opt.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': int(sum(status.values())),
            'distinct_nontrivial': len(sigs),
            'rule': getattr(mod, 'RULE', 'import failed'),
            'samples': [dict(v, stratum=k) for k, v in
                        sorted((samples or {}).items())][:12],
            'observed events': {k: int(v) for k, v in sorted(total.items())},
            'cases per stratum': extra.get('strata', {}),
            'case status': status,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'violations': nviol,
        'wall_s': round(time.time() - start, 2),
    }
    with open(path, 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
