"""Worker process: runs the generated search of one shard, one replay, or the known findings."""
import importlib
import importlib.machinery
import json
import os
import sys
import traceback

from hypothesis import HealthCheck, Phase, Verbosity, given, seed as hseed, settings
import core


def _uncached_code(loader, fullname, orig=importlib.machinery.SourceFileLoader.get_code):
    if loader.path.startswith(os.environ.get('VERIF_REPO', '/repo') + '/'):  # compile the current source, whatever compiled files lie around
        return loader.source_to_code(loader.get_data(loader.path), loader.path)
    return orig(loader, fullname)


def load(prop):
    importlib.machinery.SourceFileLoader.get_code = _uncached_code
    import DRecPy
    assert os.path.abspath(DRecPy.__file__).startswith(os.environ.get('VERIF_REPO', '/repo') + '/'), DRecPy.__file__
    return importlib.import_module('props.' + prop.lower())


def run_findings(mod):
    out = []
    with open(os.path.join(core.ROOT, 'known_findings.json')) as f:
        listed = [k for k in json.load(f)['findings'] if k['property'] == mod.ID]
    for k in listed:
        fn = mod.FINDINGS[k['id']]
        with core.Case(-1, None) as ctx:
            rep = bool(fn(ctx))
        out.append({'id': k['id'], 'what': k['what'], 'reproduces': rep})
    return out


def explore(prop, tier, seed, shard, nshards, out):
    result = {'units': {}, 'violations': [], 'hashes': [], 'samples': [], 'known': [], 'error': None,
              'level': 'exploration', 'assumptions': []}
    hashes = set()
    rc = 0
    try:
        core.install_sigterm()
        mod = load(prop)
        result['level'] = getattr(mod, 'LEVEL', 'exploration')
        result['assumptions'] = mod.ASSUMPTIONS
        core.freeze()
        if shard == 0:
            result['known'] = run_findings(mod)
        for unit in mod.UNITS:
            n = unit.count(tier, nshards, shard)
            if n <= 0:
                continue
            st = core.UnitState(unit, tier)
            run_unit(unit, st, n, seed * 10007 + shard * 131 + core.stable_hash(unit.name) % 1000003)
            result['units'][unit.name] = st.summary()
            hashes.update(st.hashes)
            result['samples'].extend(st.samples)
            if st.best is not None:
                result['violations'].append(st.best)
                rc = 1
                break
            if core.STOPPED:
                break
    except core.StopRun:
        pass
    except BaseException:
        result['error'] = traceback.format_exc()[-3000:]
        rc = rc or 2
    core.disarm()
    result['hashes'] = sorted(hashes)
    with open(out + '.part', 'w') as f:
        json.dump(result, f)
    os.rename(out + '.part', out)
    sys.stdout.flush()
    os._exit(rc)


def run_unit(unit, st, n, seed):
    @hseed(seed)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
              print_blob=False, verbosity=Verbosity.quiet, suppress_health_check=list(HealthCheck),
              phases=(Phase.explicit, Phase.generate, Phase.target, Phase.shrink))
    @given(unit.strategy)
    def prop_test(case):
        st.execute(case)

    try:
        prop_test()
    except core.StopRun:
        pass
    except BaseException:
        if st.best is None:  # nothing the code under test did: a defect of the harness
            raise


def replay(prop, path):
    mod = load(prop)
    with open(path) as f:
        rec = json.load(f)
    unit = [u for u in mod.UNITS if u.name == rec['unit']][0]
    st = core.UnitState(unit, 'quick')
    try:
        st.execute(rec['case'])
    except Exception:
        traceback.print_exc()
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'{prop}: replay of {path} held')
    return 0


if __name__ == '__main__':
    if sys.argv[2] == 'explore':
        explore(sys.argv[1], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), sys.argv[7])
    elif sys.argv[2] == 'replay':
        sys.exit(replay(sys.argv[1], sys.argv[3]))
    else:
        mod = load(sys.argv[1])
        for k in run_findings(mod):
            print(k)
