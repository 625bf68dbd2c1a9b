"""C08: temporary files. In-process histories, and processes killed at any line of the package, then a fresh import."""
import gc
import os
import signal
import sqlite3
import sys
import time

from hypothesis import strategies as st

import DRecPy
from DRecPy.Dataset import InteractionDataset, DatabaseInteractionDataset
from core import Unit, check
import dsgen as g

ID = 'C08'
ASSUMPTIONS = ['a dead process is no longer in the process table', 'a closed dataset is not used any more',
               'a process dies between two lines of the package (os._exit without any cleanup), not within one sqlite or file system call',
               'the registers of temporary files (tmp_files*.txt*) may stay in the folder']
FINDINGS = {}
PACKAGE = os.path.dirname(os.path.abspath(DRecPy.__file__))

TABLES = g.tables(min_rows=2, max_rows=8, id_kinds=('small', 'plain'), max_distinct=4, extra=False)
REF = st.integers(0, 9)
CREATE = st.tuples(st.just('create'), st.integers(0, 1), st.sampled_from([1, 2, 10 ** 5]))
OPS = st.one_of(
    st.tuples(st.just('derive'), REF, st.sampled_from(['select', 'copy', 'drop', 'unique', 'select', 'inplace']), st.integers(0, 8)),
    st.tuples(st.just('derive'), REF, st.sampled_from(['select', 'copy', 'drop', 'unique', 'select', 'inplace']), st.integers(0, 8)),
    st.tuples(st.just('change'), REF, st.sampled_from(['apply', 'ids', 'retype'])),
    st.tuples(st.just('read'), REF), st.tuples(st.just('peek'), REF),
    st.tuples(st.just('close'), REF), st.tuples(st.just('close_twice'), REF), st.tuples(st.just('close_use'), REF, st.integers(0, 99)), st.tuples(st.just('forget'), REF), st.tuples(st.just('forget_generator'), REF),
    st.tuples(st.just('bad_load'), st.integers(0, 3)), st.tuples(st.sampled_from(['import', 'import', 'crashed']), st.integers(0, 1)),
    st.tuples(st.just('save'), REF, st.integers(0, 1)), st.tuples(st.just('open'), st.integers(0, 1)))
HISTORY = st.fixed_dictionaries({'tables': st.tuples(TABLES, TABLES), 'ops': st.tuples(CREATE, st.lists(st.one_of(OPS, OPS, CREATE), min_size=1, max_size=13)).map(lambda x: [x[0]] + x[1]), 'opt': st.sampled_from(['default', 'eager', 'mid', 'lazy'])})
# datasets over a file of the user, which they may use for what they derive, but not litter
ON_SAVED = st.one_of(st.tuples(st.just('derive'), REF, st.sampled_from(['select', 'copy', 'drop', 'unique', 'inplace']), st.integers(0, 3)),
                     st.tuples(st.just('change'), REF, st.sampled_from(['apply', 'ids', 'retype', 'rename'])), st.tuples(st.just('change'), REF, st.sampled_from(['retype', 'rename'])),
                     st.tuples(st.just('read'), REF), st.tuples(st.just('peek'), REF), st.tuples(st.just('close'), REF), st.tuples(st.just('forget'), REF),
                     st.tuples(st.just('forget_generator'), REF), st.tuples(st.just('open'), st.just(1)))
SAVED = st.fixed_dictionaries({'tables': st.tuples(TABLES, TABLES),
                               'ops': st.lists(ON_SAVED, min_size=2, max_size=12).map(lambda x: [('create', 0, 10 ** 5), ('save', 0, 1), ('open', 1), ('forget', 0)] + x),
                               'opt': st.sampled_from(['default', 'eager', 'eager', 'mid'])})
LAST = st.one_of(st.tuples(st.just('close'), REF), st.tuples(st.just('forget'), REF), CREATE, st.just(('save', 0, 0)))
CRASH = st.one_of(
    st.fixed_dictionaries({'history': HISTORY, 'at': st.integers(0, 1000), 'focus': st.sampled_from(['any', 'files'])}),
    # the process dies within the last step
    st.tuples(HISTORY, LAST, st.integers(0, 1000), st.integers(0, 1)).map(
        lambda x: {'history': {**x[0], 'ops': x[0]['ops'] + ([['save', 0, 0], ['create', x[3], 1], ['save', -1, 0]] if x[1][0] == 'save' else [x[1]])}, 'at': x[2], 'focus': 'last'}))
FOREVER = 10 ** 12
USER_FILES = ['notes.txt', 'interactions_1.tmp.sqlite', 'mine.sqlite', 'tmp_files.csv']


class World:
    """Runs a history; keeps, for every dataset, the rows it must hold and the group of datasets sharing its file."""
    def __init__(self, folder, case):
        self.folder, self.case = folder, case
        self.data = os.path.join(folder, 'data')
        os.makedirs(self.data, exist_ok=True)
        for n in USER_FILES:
            with open(os.path.join(self.data, n), 'w') as f:
                f.write('user ' + n)
        self.csv = []
        for k, t in enumerate(case['tables']):
            self.csv.append(os.path.join(folder, f'in{k}.csv'))
            with open(self.csv[-1], 'w', encoding='utf-8') as f:
                f.write(g.to_csv_text(t))
        self.live, self.gens, self.groups, self.kinds = [], [], {}, set()
        self.dead = []        # half-read generators of closed datasets
        self.cut = set()      # saved files of which a dataset was closed while it was being read
        self.saved = {}       # file number -> rows it holds (without rid)
        self.next_group = 0
        self.stale = set()    # files of another process that died

    def temp_files(self):
        return {n for n in os.listdir(self.data) if n not in USER_FILES and not n.startswith('tmp_files')}

    def save_path(self, k):
        return os.path.join(self.folder if k else self.data, f'saved{k}.sqlite')

    def add(self, ds, rows, group):
        self.live.append({'ds': ds, 'rows': rows, 'group': group})

    def pick(self, ref):
        return self.live[ref % len(self.live)] if self.live else None

    def step(self, op):
        kind = op[0]
        if kind == 'create':
            before = self.temp_files()
            t = self.case['tables'][op[1]]
            ds = InteractionDataset(self.csv[op[1]], columns=list(t['columns']), in_memory=False, verbose=False, chunksize=op[2])
            self.add(ds, g.model_rows(t), self.next_group)
            self.groups[self.next_group] = self.temp_files() - before
            self.next_group += 1
        elif kind == 'bad_load':
            p = os.path.join(self.folder, 'bad.csv')
            with open(p, 'w') as f:
                f.write('a,b,1\n' * op[1] + 'c,d,not a number\n')
            try:
                InteractionDataset(p, columns=['user', 'item', 'interaction'], in_memory=False, verbose=False, chunksize=1)
            except Exception:
                pass
            else:
                check(False, 'a file with an invalid interaction was loaded')
        elif kind == 'open':
            if op[1] not in self.saved:
                return
            ds = InteractionDataset(self.save_path(op[1]), verbose=False)
            self.add(ds, [dict(r, rid=k) for k, r in enumerate(self.saved[op[1]])], ('saved', op[1]))
            self.groups.setdefault(('saved', op[1]), set())
        elif kind == 'import':  # another process imports the package
            in_child.error = os.path.join(self.folder, 'error')
            status = in_child(lambda: importer(self.data))
            check(status == 0, 'importing the package in another process failed: %r %s', status, open(in_child.error).read() if os.path.exists(in_child.error) else '')
            self.stale.clear()
        elif kind == 'crashed':  # another process loads a dataset and is killed
            before = self.temp_files()
            t = self.case['tables'][op[1]]

            def dead():
                ds = InteractionDataset(self.csv[op[1]], columns=list(t['columns']), in_memory=False, verbose=False)
                os._exit(0 if len(ds) == len(t['rows']) else 4)
            in_child.error = os.path.join(self.folder, 'error')
            status = in_child(dead)
            check(status == 0, 'loading in another process failed: %r %s', status, open(in_child.error).read() if os.path.exists(in_child.error) else '')
            self.stale |= self.temp_files() - before
        elif kind == 'forget_generator':
            if self.gens:
                self.gens.pop(op[1] % len(self.gens))
            self.dead.clear()
            gc.collect()
        else:
            e = self.pick(op[1])
            if e is None:
                return
            ds, rows = e['ds'], e['rows']
            if kind == 'derive':
                if op[2] == 'select':
                    self.add(ds.select(f'rid >= {op[3]}'), [r for r in rows if r['rid'] >= op[3]], e['group'])
                elif op[2] == 'inplace':
                    ds.select(f'rid != {op[3]}', copy=False)
                    e['rows'] = [r for r in rows if r['rid'] != op[3]]
                elif op[2] == 'copy':
                    self.add(ds.copy(), list(rows), e['group'])
                elif op[2] == 'drop':
                    self.add(ds.drop([op[3]]), [r for r in rows if r['rid'] != op[3]], e['group'])
                else:
                    first = {}
                    for r in sorted(rows, key=lambda r: r['rid']):
                        first.setdefault(r['user'], {'user': r['user'], 'rid': r['rid']})
                    u = ds.unique(['user'])
                    g.same_records(u.values_list(), first.values(), 'unique')
                    u.close()
            elif kind == 'change':
                if self.gens or self.dead or not rows:
                    return
                if op[2] == 'apply':
                    if isinstance(rows[0]['interaction'], str):
                        return
                    ds.apply('interaction', lambda x: x + 1.0)
                    e['rows'] = [dict(r, interaction=r['interaction'] + 1.0) for r in rows]
                elif op[2] == 'retype':
                    if isinstance(rows[0]['interaction'], str):
                        return
                    ds.apply('interaction', lambda x: int(x))
                    e['rows'] = [dict(r, interaction=int(r['interaction'])) for r in rows]
                elif op[2] == 'rename':  # interactions become strings
                    ds.apply('interaction', lambda x: 'v%s' % x if isinstance(x, str) else 'w%g' % x)
                    e['rows'] = [dict(r, interaction='v%s' % r['interaction'] if isinstance(r['interaction'], str) else 'w%g' % r['interaction']) for r in rows]
                else:
                    ds.assign_internal_ids()
                    ds.remove_internal_ids()
            elif kind == 'read':
                self.check_values(e)
            elif kind == 'peek':
                it = ds.values()
                want = sorted(rows, key=lambda r: r['rid'])
                if want:
                    check(g.norm_rec(next(it)) == g.norm_rec(want[0]), 'first record')
                    self.gens.append((it, want[1:], ds))
            elif kind in ('close', 'close_twice', 'close_use'):
                own = [x for x in self.gens if x[2] is ds]
                if own:  # closed before what is being read from it
                    self.dead += [x[0] for x in own]
                    self.gens = [x for x in self.gens if x[2] is not ds]
                    self.kinds.add('close while reading')
                    if isinstance(e['group'], tuple):
                        self.cut.add(e['group'][1])
                del own
                self.live.remove(e)
                ds.close()
                if kind == 'close_twice':
                    ds.close()
                elif kind == 'close_use' and not self.gens and not self.dead:
                    g.use_closed(ds, op[2])
            elif kind == 'forget':
                self.live.remove(e)
                del e, ds
                gc.collect()
            elif kind == 'save':
                if op[2] in self.saved and any(x['group'] == ('saved', op[2]) for x in self.live) or self.gens:
                    return
                path = self.save_path(op[2])
                self.pending = (op[2], [{k: v for k, v in r.items() if k != 'rid'} for r in sorted(rows, key=lambda r: r['rid'])])
                self.crash_note(self.pending)
                ds.save(path)
                self.saved[op[2]] = self.pending[1]
        self.kinds.add(kind)

    def crash_note(self, pending):
        pass

    def check_values(self, e):
        g.same_records(e['ds'].values_list(), e['rows'], 'a dataset in use')

    def check_files(self):
        if self.gens:  # a half-read generator keeps its dataset alive
            return
        used = {x['group'] for x in self.live}
        want = set()
        for k in used:
            want |= self.groups[k]
        got = {n for n in self.temp_files() if not n.startswith('saved')}
        check(want <= got, 'files %r of datasets in use were removed', want - got)
        extra = got - want - self.stale
        check(not extra, 'files %r are left behind, though no dataset uses them', extra)

    def check_user_files(self):
        for n in USER_FILES:
            p = os.path.join(self.data, n)
            check(os.path.exists(p) and open(p).read() == 'user ' + n, 'file %s of the user was removed or changed', n)
        for p in self.csv:
            check(os.path.exists(p), 'the source file was removed')


def run(ctx, case):
    g.set_opt(case['opt'])
    w = World(ctx.dir, case)
    old = os.environ.get('DATA_FOLDER')
    os.environ['DATA_FOLDER'] = w.data
    try:
        for op in case['ops']:
            w.step(op)
            w.check_files()
            w.check_user_files()
        while w.gens:
            it, rest, owner = w.gens.pop()
            g.same_records(list(it), rest, 'a half-read generator')
            del it, owner
        w.dead.clear()
        gc.collect()
        for e in w.live:
            w.check_values(e)
        k = len(w.live)
        while w.live:
            w.live.pop()['ds'].close()
            w.check_files()
        gc.collect()
        w.check_files()
        left = {n for n in os.listdir(w.data) if n not in USER_FILES and not n.startswith('saved')} - w.stale
        if 'crashed' in w.kinds:
            left = {n for n in left if not n.startswith('tmp_files')}
        check(not left, 'files %r are left in the data folder after everything was closed', left)
        for n, rows in w.saved.items():
            check(read_sqlite(w.save_path(n), rows), 'the saved file %d changed', n)
            check(n in w.cut or tables(w.save_path(n)) == ['interactions'], 'tables %r are left in the saved file', tables(w.save_path(n)))
        w.check_user_files()
        ctx.label(*w.kinds)
        ctx.nontrivial('derive' in w.kinds and w.kinds & {'close', 'forget', 'close_twice', 'close_use'} and k > 0)
    finally:
        w.live.clear()
        w.gens.clear()
        w.dead.clear()
        gc.collect()
        os.environ['DATA_FOLDER'] = old if old is not None else ''
        if old is None:
            del os.environ['DATA_FOLDER']


def tables(path):
    con = sqlite3.connect(path)
    try:
        return sorted(r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type = 'table'"))
    finally:
        con.close()


def read_sqlite(path, rows):
    """The saved file holds exactly these rows."""
    if not os.path.exists(path):
        return False
    con = sqlite3.connect(path)
    try:
        cur = con.execute('SELECT * FROM interactions')
        cols = [d[0] for d in cur.description]
        got = [{k: v for k, v in zip(cols, r) if k not in ('uid', 'iid', 'rid')} for r in cur.fetchall()]
    finally:
        con.close()
    return g.srt(map(g.norm_rec, got)) == g.srt(map(g.norm_rec, rows))


def in_child(fn, limit=60):
    """Runs fn in a forked process; returns its exit status (negative: signal)."""
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            fn()
            os._exit(0)
        except BaseException as e:
            try:
                with open(in_child.error, 'w') as f:
                    f.write(repr(e))
            except BaseException:
                pass
            os._exit(3)
    end = time.time() + limit
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(status)
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
        time.sleep(0.001)


def importer(data):
    os.environ['DATA_FOLDER'] = data
    for m in [m for m in sys.modules if m == 'DRecPy' or m.startswith('DRecPy.')]:
        del sys.modules[m]
    import DRecPy.Dataset


def crash(ctx, case):
    folder = ctx.dir
    hist = case['history']
    data = os.path.join(folder, 'data')
    in_child.error = os.path.join(folder, 'error')
    log = os.path.join(folder, 'log')
    left = os.path.join(folder, 'dead')

    def child(at, folder=folder, data=data, log=log):
        os.environ['DATA_FOLDER'] = data
        g.set_opt(hist['opt'])
        w = World(folder, hist)
        fd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
        w.crash_note = lambda pending: os.write(fd, (repr((pending, w.saved.get(pending[0]))) + '\n').encode())
        count = [0]

        def local(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] >= at:
                    os.close(os.open(left, os.O_CREAT | os.O_WRONLY))
                    os._exit(0)
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            return local if f.startswith(PACKAGE) and (case['focus'] != 'files' or 'file_utils' in f or frame.f_code.co_name in ('close', 'save', '_open_connection')) else None
        for k, op in enumerate(hist['ops']):
            if case['focus'] != 'last' or k == len(hist['ops']) - 1:
                sys.settrace(tracer)
            w.step(op)
        sys.settrace(None)
        if at == FOREVER:
            with open(left, 'w') as f:
                f.write(str(count[0]))
        os._exit(0)
    # once to the end, to know how many lines run; then again, dying at one of them
    trial = os.path.join(folder, 'trial')
    os.makedirs(trial)
    status = in_child(lambda: child(FOREVER, trial, os.path.join(trial, 'data'), os.path.join(trial, 'log')))
    check(status == 0, 'the history failed: %r %s', status, open(in_child.error).read() if os.path.exists(in_child.error) else '')
    with open(left) as f:
        at = 1 + int(f.read()) * case['at'] // 1000
    os.remove(left)
    status = in_child(lambda: child(at))
    check(status == 0, 'the process that was to be killed failed: %r %s', status, open(in_child.error).read() if os.path.exists(in_child.error) else '')

    before = {n for n in os.listdir(data) if n not in USER_FILES and not n.startswith(('tmp_files', 'saved'))}
    status = in_child(lambda: importer(data))
    check(status == 0, 'importing the package after the crash failed: %r %s', status, open(in_child.error).read() if os.path.exists(in_child.error) else '')
    after = {n for n in os.listdir(data) if n not in USER_FILES and not n.startswith(('tmp_files', 'saved'))}
    check(not after, 'files %r are left behind after the process was killed and the package imported again', after)
    for n in USER_FILES:
        p = os.path.join(data, n)
        check(os.path.exists(p) and open(p).read() == 'user ' + n, 'file %s of the user was removed or changed', n)
    saves = [eval(x) for x in open(log)] if os.path.exists(log) else []
    expect = {}
    for (n, rows), old in saves:
        expect[n] = [rows, old] if (n, rows) == saves[-1][0] else [rows]
    killed = os.path.exists(left)
    for n, options in expect.items():
        p = os.path.join(data if not n else folder, f'saved{n}.sqlite')
        if None in options and not os.path.exists(p):
            continue
        check(any(read_sqlite(p, r) for r in options if r is not None), 'saved file %d was lost or changed by the crash', n)
    ctx.label('killed' if killed else 'died at the end', case['focus'])
    if saves:
        ctx.label('saves')
    ctx.nontrivial(bool(before))


UNITS = [Unit('histories', HISTORY, run, 'histories over out-of-memory datasets; non-trivial: datasets were derived, and some closed before the end', quick=2400, thorough=80000),
         Unit('saved', SAVED, run, 'the same over a saved file; non-trivial: as above', quick=900, thorough=20000),
         Unit('crashes', CRASH, crash, 'histories killed at a random line; non-trivial: the dead process left temporary files', quick=1600, thorough=40000)]
