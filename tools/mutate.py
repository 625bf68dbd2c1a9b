"""Mutation testing of the checks (development only). usage:
  mutate.py list [FILE...]            number of mutants per file
  mutate.py tests N SEED [FILE...]    samples N mutants, keeps those the repository's tests do not notice (8 at a time)
  mutate.py checks [MAX]              runs the checks against the kept ones; prints those no check notices
State lives in /tmp/mut."""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
B = 'DRecPy/Recommender/Baseline/'
E = 'DRecPy/Evaluation/'
PROPS = {
    'DRecPy/Dataset/db_dataset.py': 'C02 C01 C05 C07 C08 C06 C03 C04 C09 C25', 'DRecPy/Dataset/mem_dataset.py': 'C02 C01 C05 C06 C03 C04 C07 C09',
    'DRecPy/Dataset/dataset_abc.py': 'C06 C02 C01', 'DRecPy/Dataset/dataset_factory.py': 'C03', 'DRecPy/Dataset/file_utils.py': 'C08 C26', 'DRecPy/Dataset/integrated_datasets.py': 'C26',
    'DRecPy/Evaluation/loss_tracker.py': 'C24 C23', 'DRecPy/Recommender/caser.py': 'C27 C21 C22 C25', 'DRecPy/Recommender/cdae.py': 'C27 C21 C22 C25', 'DRecPy/Recommender/dmf.py': 'C27 C21 C22 C25',
    'DRecPy/Recommender/recommender_abc.py': 'C21 C23 C22 C25 C27', 'DRecPy/Sampler/list_sampler.py': 'C11', 'DRecPy/Sampler/point_sampler.py': 'C10',
    E + 'Metrics/ranking.py': 'C15', E + 'Metrics/regression.py': 'C16', E + 'Metrics/metric_abc.py': 'C15 C16', E + 'Processes/predictive_evaluation.py': 'C16', E + 'Processes/ranking_evaluation.py': 'C17',
    E + 'Processes/recommendation_evaluation.py': 'C18', E + 'Splits/leave_k_out.py': 'C12 C26', E + 'Splits/matrix_split.py': 'C13', E + 'Splits/random_split.py': 'C14',
    B + 'aggregation.py': 'C20', B + 'base_knn.py': 'C20 C21', B + 'item_knn.py': 'C20', B + 'user_knn.py': 'C20', B + 'similarity.py': 'C19 C20',
    'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py': 'C23', 'DRecPy/Recommender/EarlyStopping/max_validation_value_rule.py': 'C23'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
CMPTXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '*'), ast.Mod: ('%', '//')}
QUIET = ('_log', '_info', '_warn', '_error', 'print', 'set_description', 'update', 'close', 'refresh')


def mutants(rel):
    src = open('/repo/' + rel, newline='').read().replace('\r\n', '\n')
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    data = src.encode()
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def add(a, b, new, kind):
        out.append({'file': rel, 'a': a, 'b': b, 'new': new, 'kind': kind, 'line': data[:a].count(b'\n') + 1, 'old': data[a:b].decode()})

    def between(x, y, old, new, kind):
        a, b = span(x)[1], span(y)[0]
        mid = data[a:b].decode()
        k = mid.find(old)
        if k >= 0:
            add(a + k, a + k + len(old), new, kind)

    def walk(n, skip=False):
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if name in QUIET or name in ('_log_initial_info',):
                return
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('logging', 'plt'):
                return
        if isinstance(n, ast.JoinedStr) or isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Assert):
            walk(n.test)
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in ('display_graph', '__str__', '_log_initial_info'):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            between(n.left, n.comparators[0], CMPTXT[o], CMP[o], 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(n.left, n.right, *BIN[type(n.op)], 'arithmetic')
        elif isinstance(n, ast.BoolOp):
            a, b = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            between(n.values[0], n.values[1], a, b, 'boolean')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            add(a, b, data[span(n.operand)[0]:span(n.operand)[1]].decode(), 'not')
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool, float):
            a, b = span(n)
            add(a, b, repr(not n.value) if type(n.value) is bool else repr(n.value + 1), 'constant')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Constant)):
            a, b = span(n.test)
            add(a, b, 'not (%s)' % data[a:b].decode(), 'negate')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if name not in QUIET:
                add(*span(n), 'pass', 'delete')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and len(ast.dump(n)) and isinstance(n, ast.AugAssign) | (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            add(*span(n), 'pass', 'delete')
        elif isinstance(n, ast.Continue):
            add(*span(n), 'pass', 'delete')
        elif isinstance(n, ast.Break):
            add(*span(n), 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(*span(n), 'return None', 'return')
        if isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg and k.arg not in ('verbose', 'desc', 'total'):
                    # drop the keyword argument, with the comma before it
                    a, b = span(k)
                    before = data[:a].decode().rstrip()
                    if before.endswith(','):
                        add(len(before.encode()) - 1, b, '', 'keyword')
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.arguments):
                continue  # defaults
            walk(c)
    tree = ast.parse(src)
    walk(tree)
    ok = []
    for m in out:
        new = data[:m['a']] + m['new'].encode() + data[m['b']:]
        try:
            ast.parse(new)
            ok.append(m)
        except SyntaxError:
            pass
    return ok


def apply(m, d):
    p = os.path.join(d, m['file'])
    raw = open(p, newline='').read()
    crlf = '\r\n' in raw
    data = raw.replace('\r\n', '\n').encode()
    if os.environ.get('MUT_REF'):  # the commit the mutant was made from: find the same place in the current file
        ref = subprocess.run(['git', '-C', '/repo', 'show', os.environ['MUT_REF'] + ':' + m['file']], capture_output=True).stdout.replace(b'\r\n', b'\n')
        for k in (400, 200, 100, 60):
            ctx = ref[max(0, m['a'] - k):m['b'] + k]
            if data.count(ctx) == 1:
                d = data.find(ctx) - max(0, m['a'] - k)
                m = dict(m, a=m['a'] + d, b=m['b'] + d)
                break
    assert data[m['a']:m['b']].decode() == m['old']
    new = (data[:m['a']] + m['new'].encode() + data[m['b']:]).decode()
    open(p, 'w', newline='').write(new.replace('\n', '\r\n') if crlf else new)


def tests(m):
    d = f'{W}/t{m["n"]}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    os.makedirs(d + '/data')
    try:
        apply(m, d + '/repo')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3', HOME=d, DATA_FOLDER=d + '/data', OMP_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1')
        first = {'Dataset': 'tests/Dataset', 'Evaluation': 'tests/Evaluation', 'Recommender': 'tests/Recommender', 'Sampler': 'tests/Recommender'}[m['file'].split('/')[1]]
        r = 0
        for target in [first, 'tests']:
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', target, '-q', '-x', '-W', 'ignore', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=100', '--ignore=tests/Dataset/test_integrated_datasets.py',
                                    '--ignore=tests/Recommender/Baseline/test_item_cf.py', '--ignore=tests/Recommender/Baseline/test_user_cf.py'], cwd=d + '/repo', env=env, capture_output=True, timeout=600).returncode
            except subprocess.TimeoutExpired:
                r = 99
            if r:
                break
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def show(m):
    return f'{m["file"]}:{m["line"]} [{m["kind"]}] {m["old"][:100]!r} -> {m["new"][:100]!r}'


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    if cmd == 'list':
        for f in args or PROPS:
            print(len(mutants(f)), f)
    elif cmd == 'tests':
        n, seed, files = int(args[0]), int(args[1]), args[2:] or list(PROPS)
        pool = [m for f in files for m in mutants(f)]
        random.Random(seed).shuffle(pool)
        pool = pool[:n]
        done = set()
        if os.path.exists(W + '/tests.jsonl'):
            done = {(x['file'], x['old'], x['new'], x['line']) for x in map(json.loads, open(W + '/tests.jsonl'))}
        pool = [dict(m, n=k) for k, m in enumerate(pool) if (m['file'], m['old'], m['new'], m['line']) not in done]

        def one(m):
            r = tests(m)
            with open(W + '/tests.jsonl', 'a') as f:
                f.write(json.dumps(dict(m, tests=r)) + '\n')
        with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
            list(ex.map(one, pool))
    elif cmd == 'checks':
        done = set()
        if os.path.exists(W + '/checks.jsonl'):
            done = {(x['file'], x['old'], x['new'], x['line']) for x in map(json.loads, open(W + '/checks.jsonl'))}
        todo = [m for m in map(json.loads, open(W + '/tests.jsonl')) if m['tests'] == 0 and (m['file'], m['old'], m['new'], m['line']) not in done]
        for m in todo[:int(args[0]) if args else None]:
            d = W + '/c'
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
            try:
                apply(m, d)
            except AssertionError:
                continue
            by = None
            for p in PROPS[m['file']].split():
                if not os.path.exists(f'{ROOT}/pbt/props/{p.lower()}.py'):
                    continue
                r = subprocess.run(['bash', ROOT + '/check.sh', p], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                if r.returncode:
                    by = p if r.returncode == 1 and 'VIOLATION' in r.stdout else p + '!' + str(r.returncode)
                    break
            with open(W + '/checks.jsonl', 'a') as f:
                f.write(json.dumps(dict(m, by=by)) + '\n')
            print(by, show(m), flush=True)
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
