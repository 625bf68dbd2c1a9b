"""Plants and evaluates bugs. usage:
  bug.py new ID PROPERTY   (stdin: JSON {"edits": [[file, old, new], ...], "needs":, "what_it_breaks":, "demo": python source})
  bug.py try ID [PROP...]  tests + demo in a scratch copy of /repo, then the check(s) against that copy
Every scratch copy lives under /tmp/bugs and is removed."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0: behaviour as specified; non-zero: broken.
here="$(cd "$(dirname "$0")" && pwd)"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export DATA_FOLDER="$work/data" HOME="$work" TMPDIR="$work" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
export PYTHONPATH="$PWD" WORK="$work" PYTHONHASHSEED=0
mkdir -p "$DATA_FOLDER"
cd "$work" && timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
'''

def copy(bug):
    d = f'/tmp/bugs/{bug}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/bugs', exist_ok=True)
    subprocess.check_call(['cp', '-a', os.environ.get('BUG_BASE', '/repo'), d])
    return d

def new(bug, prop):
    spec = json.load(sys.stdin)
    d = copy(bug)
    try:
        for f, old, new_ in spec['edits']:
            p = os.path.join(d, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new_ = old.replace('\n', '\r\n'), new_.replace('\n', '\r\n')
            assert s.count(old) == 1, (f, s.count(old), old)
            with open(p, 'w', newline='') as fh:
                fh.write(s.replace(old, new_))
        diff = subprocess.check_output(['git', '-C', d, 'diff'])
    finally:
        shutil.rmtree(d)
    out = os.path.join(ROOT, 'seeded', bug)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
    open(os.path.join(out, 'demo.py'), 'w').write(spec['demo'].strip('\n') + '\n')
    json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['what_it_breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    print(subprocess.check_output(['git', '-C', os.environ.get('BUG_BASE', '/repo'), 'apply', '--check', '--verbose', os.path.join(out, 'patch.diff')], stderr=subprocess.STDOUT).decode())

def try_(bug, props, tests=True):
    out = os.path.join(ROOT, 'seeded', bug)
    meta = json.load(open(os.path.join(out, 'meta.json')))
    d = copy(bug)
    try:
        demo = lambda: subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=d, capture_output=True)
        clean = demo()
        subprocess.check_call(['git', '-C', d, 'apply', os.path.join(out, 'patch.diff')])
        broken = demo()
        line = f'{bug}: demo clean={clean.returncode} broken={broken.returncode}'
        if clean.returncode:
            print(clean.stdout.decode()[-600:], clean.stderr.decode()[-600:])
        if tests:
            s = open('/opt/vp/test.sh').read().replace('/repo', d).replace('/usr/bin/python3 /opt/vp/results.py', '/usr/bin/python3 /opt/vp/results.py')
            open(f'{d}.test.sh', 'w').write(s)
            subprocess.run(['bash', f'{d}.test.sh', f'{d}.json'], capture_output=True)
            got = set(json.load(open(f'{d}.json'))['passed'])
            b = json.load(open('/opt/vp/BASELINE.json'))
            want = set(b.get('passed') or b.get('stable') or b.get('tests'))
            line += f' tests missing={sorted(want - got)[:3]}'
        for p in props or [meta['property']]:
            r = subprocess.run(['bash', os.path.join(ROOT, 'check.sh'), p], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            line += f' | {p}: exit {r.returncode}'
            if r.returncode:
                line += '\n     ' + '\n     '.join(x[:400] for x in r.stdout.splitlines() if not x.startswith('KNOWN'))
        print(line, flush=True)
    finally:
        shutil.rmtree(d)
        for x in ('.test.sh', '.json'):
            if os.path.exists(d + x):
                os.remove(d + x)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'new':
        new(a[1], a[2])
    elif a[0] == 'try':
        try_(a[1], a[2:])
    elif a[0] == 'check':
        try_(a[1], a[2:], tests=False)
