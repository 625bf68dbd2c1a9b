"""Parent process of a check: shards the generated-input search over worker processes, merges what they
measured into evidence/<id>.json, writes the shrunk failing case (if any) and decides the exit code."""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARD_LIMIT_S = {'quick': 820, 'thorough': 4 * 3600}


def worker_env(scratch, i):
    work = os.path.join(scratch, f'w{i}')
    for sub in ('data', 'home', 'cwd', 'tmp', 'mpl'):
        os.makedirs(os.path.join(work, sub), exist_ok=True)
    env = dict(os.environ)
    env.update({
        'DATA_FOLDER': os.path.join(work, 'data'),
        'HOME': os.path.join(work, 'home'),
        'TMPDIR': os.path.join(work, 'tmp'),
        'MPLCONFIGDIR': os.path.join(work, 'mpl'),
        'MPLBACKEND': 'Agg', 'CUDA_VISIBLE_DEVICES': '', 'TF_CPP_MIN_LOG_LEVEL': '3',
        'TF_ENABLE_ONEDNN_OPTS': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'TF_NUM_INTRAOP_THREADS': '1', 'TF_NUM_INTEROP_THREADS': '1',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONWARNINGS': 'ignore',
        'PYTHONPATH': os.pathsep.join([os.environ.get('VERIF_REPO', '/repo'), os.path.join(ROOT, 'vendor'), os.path.join(ROOT, 'pbt')]),
        'VERIF_SCRATCH': work,
    })
    return work, env


def main():
    prop = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    procs = []
    try:
        if mode in ('replay', 'findings'):
            work, env = worker_env(scratch, 0)
            args = [os.path.abspath(a) if mode == 'replay' else a for a in sys.argv[3:]]
            return subprocess.call([sys.executable, '-u', os.path.join(ROOT, 'pbt', 'worker.py'), prop, mode] + args,
                                   env=env, cwd=os.path.join(work, 'cwd'))
        tier = 'thorough' if mode == 'thorough' else 'quick'
        return explore(prop, tier, seed, scratch, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, tier, seed, scratch, procs):
    t0 = time.time()
    nshards = int(os.environ.get('VERIF_SHARDS', '8'))
    outs, logs = [], []
    for i in range(nshards):
        work, env = worker_env(scratch, i)
        out = os.path.join(scratch, f'out{i}.json')
        log = os.path.join(scratch, f'log{i}.txt')
        with open(log, 'w') as lf:
            procs.append(subprocess.Popen(
                [sys.executable, '-u', os.path.join(ROOT, 'pbt', 'worker.py'), prop, 'explore', tier, str(seed), str(i),
                 str(nshards), out], env=env, cwd=os.path.join(work, 'cwd'), stdout=lf, stderr=subprocess.STDOUT,
                stdin=subprocess.DEVNULL, start_new_session=True))
        outs.append(out)
        logs.append(log)

    stop_sent = None
    timed_out = False
    while True:
        alive = [p for p in procs if p.poll() is None]
        if not alive:
            break
        now = time.time()
        failed = any(p.poll() == 1 for p in procs)
        if stop_sent is None and (failed or now - t0 > HARD_LIMIT_S[tier]):
            timed_out = not failed
            stop_sent = now
            for p in alive:
                p.send_signal(signal.SIGTERM)
        if stop_sent is not None and now - stop_sent > 20:
            for p in alive:
                p.kill()
        time.sleep(0.2)

    res = []
    errors = []
    for i, (p, out) in enumerate(zip(procs, outs)):
        r = None
        if os.path.exists(out):
            try:
                with open(out) as f:
                    r = json.load(f)
            except ValueError:
                r = None
        if r is None:
            errors.append((i, f'worker ended with code {p.returncode} and no result'))
        else:
            res.append(r)
            if r.get('error'):
                errors.append((i, r['error']))

    violations = [v for r in res for v in r['violations']]
    violations.sort(key=lambda v: (len(v['case_json']), v['case_json']))

    units = {}
    hashes = set()
    samples = []
    known = {}
    for r in res:
        for name, u in r['units'].items():
            d = units.setdefault(name, {'cases': 0, 'nontrivial': 0, 'labels': {}, 'shrinking_runs': 0, 'rule': u['rule'],
                                        'budget_exhausted_shards': 0})
            d['cases'] += u['cases']
            d['nontrivial'] += u['nontrivial']
            d['shrinking_runs'] += u['shrinking_runs']
            d['budget_exhausted_shards'] += 1 if u['budget_exhausted'] else 0
            for k, v in u['labels'].items():
                d['labels'][k] = d['labels'].get(k, 0) + v
        hashes.update(r['hashes'])
        for k in r['known']:
            known[k['id']] = k
    by_unit = {}
    for r in res:
        for s in r['samples']:
            by_unit.setdefault(s['unit'], [])
            if len(by_unit[s['unit']]) < 3:
                by_unit[s['unit']].append(s)
    for u in sorted(by_unit):
        samples.extend(by_unit[u])
    evaluations = sum(u['cases'] for u in units.values())
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': res[0]['level'] if res else 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': ' || '.join(f'{n}: {units[n]["rule"]}' for n in sorted(units)),
            'samples': samples,
            'units': {n: units[n] for n in sorted(units)},
            'shards': nshards,
        },
        'assumptions': res[0]['assumptions'] if res else [],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    for k in sorted(known.values(), key=lambda k: k['id']):
        if k['reproduces']:
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
        else:
            print(f'note: listed finding {k["id"]} did not reproduce')

    if violations:
        v = violations[0]
        h = hashlib.sha1((v['unit'] + v['case_json']).encode()).hexdigest()[:10]
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', f'{prop}-{v["unit"]}-{h}.json'.replace(' ', '_'))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'unit': v['unit'], 'case': json.loads(v['case_json']), 'error': v['error']},
                      f, indent=1)
            f.write('\n')
        print(f'{prop}: unit {v["unit"]} failed: {v["error"][:1500]}')
        print(f'  case: {v["case_json"][:1500]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors or timed_out or not res:
        for i, e in errors[:2]:
            print(f'HARNESS-ERROR shard {i} (of {len(errors)}): {e}')
            with open(logs[i]) as f:
                print(f.read()[-800:])
        if timed_out:
            print('HARNESS-ERROR hard time limit reached')
        return 2
    print(f'{prop} {tier} seed={seed}: held on {evaluations} cases ({len(hashes)} distinct non-trivial) '
          f'in {evidence["wall_s"]} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
