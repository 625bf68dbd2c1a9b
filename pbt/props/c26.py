"""C26: built-in datasets, with a stand-in for the network that serves generated archives in the published formats."""
import collections
import io
import os
import shutil
import sys
import urllib.request
import zipfile
from unittest import mock

import requests
from hypothesis import strategies as st

import DRecPy
from DRecPy.Dataset import DatabaseInteractionDataset, MemoryInteractionDataset, available_datasets, get_full_dataset, get_test_dataset, get_train_dataset
from core import Unit, check, raises
import dsgen as g
import splitlib
from props.c08 import in_child

ID = 'C26'
ASSUMPTIONS = ['files have the published formats; some user has more than 10 records', 'ids of a column are all numbers or all hold letters',
               'one process at a time uses the data folder', 'a process dies between two lines of the package or of the modules it writes files with']
FINDINGS = {}
PACKAGE = os.path.dirname(os.path.abspath(DRecPy.__file__))
GET = {'full': get_full_dataset, 'train': get_train_dataset, 'test': get_test_dataset}
# name: (file served, folder in the archive, full file, delimiter, header, columns)
FORMATS = {
    'ml-100k': ('ml-100k.zip', 'ml-100k', 'u.data', '\t', None, ['user', 'item', 'interaction', 'timestamp']),
    'ml-1m': ('ml-1m.zip', 'ml-1m', 'ratings.dat', '::', None, ['user', 'item', 'interaction', 'timestamp']),
    'ml-10m': ('ml-10m.zip', 'ml-10M100K', 'ratings.dat', '::', None, ['user', 'item', 'interaction', 'timestamp']),
    'ml-20m': ('ml-20m.zip', 'ml-20m', 'ratings.csv', ',', 'userId,movieId,rating,timestamp', ['user', 'item', 'interaction', 'timestamp']),
    'bx': ('BX-Book-Ratings.csv', None, None, ';', '"User-ID";"ISBN";"Book-Rating"', ['user', 'item', 'interaction'])}


class Network:
    """Answers requests for the published files: script says how each one ends."""
    def __init__(self, files, script):
        self.files, self.script, self.served, self.failed = files, list(script), collections.Counter(), 0

    def answer(self, url):
        name = url.rstrip('/').split('/')[-1]
        how = self.script.pop(0) if self.script else 'ok'
        if how != 'ok':
            self.failed += 1
        if how == 'unreachable':
            raise requests.exceptions.ConnectionError('unreachable')
        if name not in self.files or how == 'not found':
            return 404, b'<html>not found</html>'
        if how == 'server error':
            return 503, b'<html>try again</html>'
        data = self.files[name]
        if how == 'cut short' and name.endswith('.zip'):
            return 200, data[:len(data) // 2]
        if how == 'other page' and name.endswith('.zip'):
            return 200, b'<html>sign in</html>'
        if how in ('cut short', 'other page'):
            return 503, b''
        self.served[name] += 1
        return 200, data

    def send(self, adapter, request, **kw):
        code, data = self.answer(request.url)
        r = requests.models.Response()
        r.status_code, r.url, r.request, r.raw = code, request.url, request, io.BytesIO(data)
        r.reason = 'answer'
        return r

    def urlopen(self, url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        code, data = self.answer(url)
        if code != 200:
            raise urllib.request.HTTPError(url, code, 'answer', {}, None)
        return io.BytesIO(data)

    def __enter__(self):
        me = self
        self.quick = splitlib.schedule(False)
        self.quick.__enter__()
        self.patches = [mock.patch.object(requests.adapters.HTTPAdapter, 'send', lambda a, r, **k: me.send(a, r, **k)), mock.patch.object(urllib.request, 'urlopen', self.urlopen)]
        for p in self.patches:
            p.start()
        return self

    def __exit__(self, *a):
        for p in self.patches:
            p.stop()
        self.quick.__exit__(None, None, None)


@st.composite
def content(draw, name):
    """Rows of the full file, and for ml-100k those of its train and test files."""
    counts = draw(st.lists(st.sampled_from([1, 3, 9, 10, 11, 12, 15, 23]), min_size=1, max_size=4))
    counts.append(draw(st.sampled_from([11, 12, 15])))
    users = draw(st.lists(st.integers(1, 300), min_size=len(counts), max_size=len(counts), unique=True))
    base = draw(st.integers(0, 50))
    rate = st.sampled_from({'bx': [0, 5, 10, 8], 'ml-10m': [0.5, 3.0, 4.5, 5.0], 'ml-20m': [0.5, 3.0, 3.5, 5.0]}.get(name, [1, 3, 5]))
    marks = draw(st.lists(st.sampled_from(['X', 'x', '\xc9', '\xf1', '\xfc', 'A', '.', ',x', ' x', '&X', '\xdf']), min_size=4, max_size=4))
    rows = []
    for u, n in zip(users, counts):
        for k in range(n):
            i = base + 7 * k % 31 + (k // 31) * 40
            if name == 'bx':
                i = '%03d%s%s' % (i, marks[k % 4], 'X')
            rows.append([u, i, draw(rate)] + ([] if name == 'bx' else [8 * 10 ** 8 + 37 * len(rows) % 1000]))
    if draw(st.booleans()):
        rows = draw(st.permutations(rows))
    out = {'full': rows}
    if name == 'ml-100k':
        out['test'] = [list(r) for r in draw(st.permutations(rows))[:draw(st.integers(1, 8))]]
        out['train'] = [list(r) for r in draw(st.permutations(rows))[:draw(st.integers(2, 12))]]
    return out


def text(name, rows, eol):
    _, _, _, delim, header, _ = FORMATS[name]
    lines = [] if header is None else [header]
    for r in rows:
        lines.append(delim.join('"%s"' % v for v in r) if name == 'bx' else delim.join(str(v) for v in r))
    return eol.join(lines) + eol


def archive(name, data, eol, listed):
    served, folder, full, _, _, _ = FORMATS[name]
    if folder is None:
        return served, text(name, data['full'], eol).encode('latin1')
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED) as z:
        if listed:
            z.writestr(folder + '/', '')
        z.writestr(folder + '/README', 'about')
        z.writestr('%s/%s' % (folder, full), text(name, data['full'], eol))
        if name == 'ml-100k':
            z.writestr(folder + '/ua.base', text(name, data['train'], eol))
            z.writestr(folder + '/ua.test', text(name, data['test'], eol))
            z.writestr(folder + '/ub.base', text(name, data['test'][:1], eol))
            z.writestr(folder + '/u.item', 'caf\xe9|1\n'.encode('latin1'))
        else:
            z.writestr(folder + '/movies.dat', '1::x::y\n')
    return served, buf.getvalue()


CALL = st.tuples(st.just('get'), st.sampled_from(['full', 'train', 'test', 'train', 'test']), st.booleans())


@st.composite
def gen(draw, crash=False):
    names = draw(st.lists(st.sampled_from(list(FORMATS)), min_size=1, max_size=1 if crash else 2, unique=True))
    case = {'data': {n: draw(content(n)) for n in names}, 'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])), 'listed': draw(st.booleans()),
            'script': [] if crash else draw(st.lists(st.sampled_from(['ok', 'ok', 'ok', 'unreachable', 'not found', 'server error', 'cut short', 'other page']), max_size=3)),
            'ops': [list(o) + [draw(st.sampled_from(names))] for o in draw(st.lists(st.one_of(CALL, CALL, CALL, CALL, st.just(('remove', None, None)), st.just(('use', 'train', True))), min_size=1 if crash else 2, max_size=3 if crash else 7))]}
    if not crash and draw(st.booleans()):
        case['ops'] += [['get', p, draw(st.booleans()), names[0]] for p in draw(st.permutations(['train', 'test', 'full']))]
    if crash:
        case['ops'] = [o for o in case['ops'] if o[0] == 'get'] or [['get', 'train', False, names[0]]]
        case['at'] = draw(st.integers(0, 1000))
        case['focus'] = draw(st.booleans())
    return case


def records(rows, columns):
    return [{c: g.norm(v) for c, v in zip(columns, r)} for r in rows]


def count(recs):
    return collections.Counter(tuple(sorted((k, repr(g.key(v))) for k, v in r.items())) for r in recs)


class Expect:
    def __init__(self, ctx, case):
        self.ctx, self.case, self.seen = ctx, case, {}

    def verify(self, name, part, oom, ds):
        columns = FORMATS[name][5]
        check(isinstance(ds, DatabaseInteractionDataset if oom else MemoryInteractionDataset), 'storage of %s', type(ds))
        got = [{k: v for k, v in g.norm_rec(r).items() if k not in ('rid', 'uid', 'iid')} for r in ds.values_list()]
        check(len(ds) == len(got) and set(ds.columns) - {'uid', 'iid'} == set(columns + ['rid']), 'columns %r', ds.columns)
        data = self.case['data'][name]
        if part in data:
            want = records(data[part], columns)
            check(count(got) == count(want), '%s of %s: %r, expected %r', part, name, got[:4], want[:4])
            check([g.key(r['item']) for r in got] == [g.key(r['item']) for r in want], 'order of the records')
        else:
            per = collections.Counter(r[0] for r in data['full'])
            full = count(records([r for r in data['full'] if per[r[0]] >= 10], columns))
            mine = count(got)
            check(not mine - full, '%s of %s holds other records: %r', part, name, list((mine - full))[:3])
            for u, n in per.items():
                have = sum(r['user'] == u for r in got)
                held = 10 if n > 10 else 0
                want = 0 if n < 10 else held if part == 'test' else n - held
                check(have == want, 'user %r with %d records has %d in the %s set', u, n, have, part)
            other = self.seen.get((name, 'train' if part == 'test' else 'test'))
            if other is not None:
                check(mine + other == full, 'train and test of %s are not a partition', name)
                self.ctx.label('both parts')
        before = self.seen.setdefault((name, part), count(got))
        check(before == count(got), '%s of %s has changed', part, name)


def serve(case):
    return dict(archive(n, d, case['eol'], case['listed']) for n, d in case['data'].items())


def run(ctx, case):
    g.set_opt('default')
    data = ctx.path('data')
    with mock.patch.dict(os.environ, DATA_FOLDER=data), Network(serve(case), case['script']) as net:
        exp, stored, gets = Expect(ctx, case), set(), 0
        check(set(available_datasets()) == set(FORMATS), 'available datasets')
        for op, part, oom, name in case['ops']:
            if op == 'remove':
                shutil.rmtree(os.path.join(data, name), ignore_errors=True)
                stored.discard(name)
                continue
            failed = net.failed
            served = net.served[FORMATS[name][0]]
            try:
                ds = ctx.track(GET[part](name, force_out_of_memory=oom, verbose=False))
            except Exception as e:
                check(net.failed > failed and name not in stored, 'could not get the %s dataset of %s (%s: %s)', part, name, type(e).__name__, e)
                ctx.label('failed download')
                continue
            check(net.failed == failed, 'a failed download was used')
            check(net.served[FORMATS[name][0]] - served == (name not in stored), '%d downloads', net.served[FORMATS[name][0]] - served)
            stored.add(name)
            gets += 1
            exp.verify(name, part, oom, ds)
            if op == 'use':
                # changes to a returned dataset do not reach later calls
                ds.assign_internal_ids()
                ds.apply('interaction', lambda x: x + 1)
                ds.select('interaction > 2', copy=False)
                ctx.label('changed')
        for bad in ('', 'ml', 'ML-100K', 'bx.csv', 'ml-100k/../bx'):
            for f in GET.values():
                try:
                    f(bad)
                    check(False, 'dataset %r was not refused', bad)
                except FileNotFoundError:
                    pass
        if len(case['data']) > 1:
            ctx.label('two datasets')
        ctx.label(*case['data'])
        ctx.nontrivial(gets > 1 and any('train' in k for k in exp.seen))


def crash(ctx, case):
    g.set_opt('default')
    data = ctx.path('data')
    in_child.error = ctx.path('error')
    left = ctx.path('dead')
    name = list(case['data'])[0]
    files = serve(case)

    def child(at, folder):
        os.environ['DATA_FOLDER'] = folder
        counted = [0]

        def local(frame, event, arg):
            if event == 'line':
                counted[0] += 1
                if counted[0] >= at:
                    with open(left, 'w') as f:
                        f.write(os.path.basename(frame.f_code.co_filename))
                    os._exit(0)
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if case['focus']:
                return local if 'integrated_datasets' in f or frame.f_code.co_name in ('save', 'extractall', 'extract', '_extract_member') else None
            return local if f.startswith(PACKAGE) or '/zipfile' in f or f.endswith(('/pandas/io/formats/csvs.py', '/shutil.py')) else None
        with Network(files, []):
            sys.settrace(tracer)
            for _, part, oom, n in case['ops']:
                GET[part](n, force_out_of_memory=oom, verbose=False)
            sys.settrace(None)
        with open(left, 'w') as f:
            f.write(str(counted[0]))
        os._exit(0)
    status = in_child(lambda: child(10 ** 12, ctx.path('trial')))
    check(status == 0, 'the calls failed: %r %s', status, open(in_child.error).read() if os.path.exists(in_child.error) else '')
    with open(left) as f:
        at = 1 + int(f.read()) * case['at'] // 1000
    status = in_child(lambda: child(at, data))
    check(status == 0, 'the process that was to be killed failed: %r', status)
    with open(left) as f:
        where = f.read()
        ctx.label('died at the end' if where.isdigit() else 'killed in ' + where)
    exp = Expect(ctx, case)
    with mock.patch.dict(os.environ, DATA_FOLDER=data), Network(files, []):
        for part in ('test', 'train', 'full') if case['at'] % 2 else ('train', 'test', 'full'):
            exp.verify(name, part, False, ctx.track(GET[part](name, verbose=False)))
    # and as if nothing had happened
    with mock.patch.dict(os.environ, DATA_FOLDER=ctx.path('trial')), Network(files, []):
        for part in ('train', 'test'):
            exp.verify(name, part, True, ctx.track(GET[part](name, verbose=False, force_out_of_memory=True)))
    ctx.nontrivial()


UNITS = [
    Unit('calls', gen(), run, 'file contents x calls, parts, storages and removals in any order x failing downloads; non-trivial: two or more datasets were read, one of them a train set', quick=1280, thorough=24000),
    Unit('crashes', gen(crash=True), crash, 'the process dies at a random line while downloading or splitting, then the calls are made again; every case non-trivial', quick=640, thorough=12000),
]
