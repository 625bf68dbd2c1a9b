"""C12: leave_k_out. Per-user hold-out contract, determinism under any thread schedule, untouched source."""
from heapq import heappush, heapreplace

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Evaluation.Splits import leave_k_out
import dsgen as g
import splitlib as s

ID = 'C12'
ASSUMPTIONS = []


@st.composite
def gen(draw, stamps=False):
    src = draw(s.sources(timestamp=stamps, max_users=draw(st.sampled_from([2, 3, 5]))))
    if stamps and draw(st.integers(0, 2)) > 0:  # records in chronological order
        k = src['table']['columns'].index('timestamp')
        src['table']['rows'].sort(key=lambda r: r[k])
    if stamps and draw(st.booleans()):
        k = src['table']['columns'].index('timestamp')
        src['table']['columns'][k] = 'ts'
        src['table']['types']['ts'] = 'int'
        label = 'ts'
    else:
        label = 'timestamp'
    return {'src': src, 'k': draw(st.one_of(st.integers(1, 4), st.sampled_from([0.1, 0.25, 0.34, 0.5, 0.6, 0.75, 0.9, 0.99]))),
            'min': draw(st.sampled_from([0, 0, 1, 2, 3, 4, 6])), 'seed': draw(st.integers(0, 1000)), 'other': draw(st.one_of(st.none(), st.sampled_from(g.BACKENDS))), 'label': label, 'stamps': stamps}


def held_out(rows, k):
    n = k if isinstance(k, int) else int(len(rows) * k)
    return n if len(rows) > n > 0 else 0


def known_last(rows, n, label):
    """The documented defect (known finding): the window slides over the records in stored order."""
    heap = []
    for r in rows:
        (heappush if len(heap) < n else heapreplace)(heap, (r[label], r['rid']))
    return {rid for _, rid in heap}


def fn(ctx, case):
    ds, rows = s.make(ctx, case['src'])
    kw = dict(k=case['k'], min_user_interactions=case['min'], seed=case['seed'], verbose=case['src']['verbose'])
    if case['stamps']:
        kw.update(last_timestamps=True)
        if case['label'] != 'timestamp':
            kw.update(timestamp_label=case['label'])
    per = {}
    for r in rows:
        per.setdefault(r['user'], []).append(r)
    removed = [r['rid'] for rs in per.values() if len(rs) < case['min'] for r in rs]
    results = []
    for threads in (case['src']['threads'], 1, 4):
        with s.schedule(kw['verbose']):
            train, test = leave_k_out(ds, max_concurrent_threads=threads, **kw)
        tr, te = s.check_result(ctx, ds, rows, train, test, removed)
        results.append((tr, te))
        for u, rs in per.items():
            got = [r for r in rs if r['rid'] in te]
            want = 0 if len(rs) < case['min'] else held_out(rs, case['k'])
            check(len(got) == want, 'user %r with %d records: %d held out, expected %d (k=%r, min=%d)', u, len(rs), len(got), want, case['k'], case['min'])
            if got:
                check(any(r['rid'] in tr for r in rs), 'user %r of the test set is not in the train set', u)
            if case['stamps'] and got:
                rest = [r for r in rs if r['rid'] not in te]
                ok = min(r[case['label']] for r in got) >= max(r[case['label']] for r in rest)
                chrono = all(a[case['label']] <= b[case['label']] for a, b in zip(rs, rs[1:]))
                if not ok and not chrono:
                    ok = {r['rid'] for r in got} == known_last(rs, want, case['label'])  # known finding
                    ctx.label('known finding')
                check(ok, 'user %r: held out %r, left %r in the train set', u, got, rest)
        kw['verbose'] = False
    check(results[0] == results[1] == results[2], 'the split depends on the number of threads')
    if case['other'] not in (None, case['src']['backend']):
        other, _ = s.make(ctx, dict(case['src'], backend=case['other']))
        train, test = leave_k_out(other, **kw)
        check(tuple(s.check_result(ctx, other, rows, train, test, removed)) == results[0], 'the split depends on the storage of the dataset')
        ctx.label('two storages')
    if results[0][1]:
        ctx.label('ratio' if isinstance(case['k'], float) else 'fixed')
    ctx.nontrivial(len(per) > 1 and results[0][1] and results[0][0])


@st.composite
def gen_big(draw):
    src = draw(s.big_sources())
    ni = src['big'][1]
    return {'src': src, 'k': draw(st.sampled_from([1, 2, max(1, ni - 1), 0.25, 0.5, 0.9])), 'min': draw(st.sampled_from([0, ni, ni + 1])),
            'seed': draw(st.integers(0, 1000)), 'other': draw(st.one_of(st.none(), st.sampled_from(g.BACKENDS))), 'label': 'timestamp', 'stamps': False}


def fn_big(ctx, case):
    fn(ctx, dict(case, src=s.expand(case['src'])))


def finding_window(ctx):
    """held out with last_timestamps: not the latest records when a user's records are not stored chronologically"""
    t = {'columns': ['user', 'item', 'interaction', 'timestamp'], 'types': {}, 'rows': [[1, 1, 1., 30], [1, 2, 1., 20], [1, 3, 1., 10]]}
    _, test = leave_k_out(g.build(ctx, t, 'mem_df'), k=1, last_timestamps=True, verbose=False)
    return [r['timestamp'] for r in test.values_list()] != [30]


FINDINGS = {'leave-k-out-last-timestamps': finding_window}


@st.composite
def gen_cov(draw):
    t = draw(g.tables(min_rows=4, max_rows=10, id_kinds=('int', 'plain'), max_distinct=2, extra=False))
    return {'table': t, 'k': draw(st.sampled_from([1, 2, 0.5])), 'backend': draw(st.sampled_from(g.BACKENDS)), 'base': draw(st.integers(0, 10 ** 6))}


def fn_cov(ctx, case):
    """Over many seeds every record of a user with held-out records is held out sometimes, and kept sometimes."""
    g.set_opt('default')
    ds = g.build(ctx, case['table'], case['backend'])
    rows = g.model_rows(case['table'])
    per = {}
    for r in rows:
        per.setdefault(r['user'], []).append(r)
    out, kept = set(), set()
    runs = 120 if case['backend'] != 'db' else 70
    for j in range(runs):
        train, test = leave_k_out(ds, k=case['k'], seed=case['base'] + 97 * j, verbose=False, max_concurrent_threads=2)
        te = set(test.values_list('rid', to_list=True))
        out |= te
        kept |= set(train.values_list('rid', to_list=True))
        for d in (train, test):
            if hasattr(d, 'close'):
                d.close()
    for u, rs in per.items():
        n = held_out(rs, case['k'])
        if n and len(rs) / min(n, len(rs) - n) <= 4:  # (3/4)^70 < 2e-9
            for r in rs:
                check(r['rid'] in out, 'record %r of user %r is never held out, in %d seeds', r['rid'], u, runs)
                check(r['rid'] in kept, 'record %r of user %r is always held out, in %d seeds', r['rid'], u, runs)
            ctx.nontrivial()


@st.composite
def gen_bad(draw):
    return {'k': draw(st.sampled_from([0, -1, 1.0, 1.5, 0.0, -0.5, 'ok'])), 'threads': draw(st.sampled_from([1, 0, -2])), 'backend': draw(st.sampled_from(g.BACKENDS))}


def fn_bad(ctx, case):
    t = {'columns': ['user', 'item', 'interaction'], 'types': {}, 'rows': [[1, 1, 1.], [1, 2, 1.], [2, 3, 1.]]}
    ds = g.build(ctx, t, case['backend'])
    k = 1 if case['k'] == 'ok' else case['k']
    valid = case['k'] == 'ok' and case['threads'] > 0
    check(raises(leave_k_out, ds, k=k, max_concurrent_threads=case['threads'], verbose=False) != valid,
          'k=%r, threads=%r: %s', k, case['threads'], 'refused' if valid else 'accepted')
    ctx.nontrivial(not valid)


UNITS = [
    Unit('random', gen(), fn, 'source (backend, filter, ids) x k (count or ratio) x minimum x seed x three thread counts; non-trivial: two or more '
         'users, both sets non-empty', quick=2400, thorough=40000),
    Unit('last', gen(stamps=True), fn, 'the same, holding out the latest records', quick=1600, thorough=30000),
    Unit('large', gen_big(), fn_big, 'the same on over a thousand records, of few or many users', quick=32, thorough=640),
    Unit('coverage', gen_cov(), fn_cov, 'the same data under many seeds; non-trivial: some user has records held out', quick=48, thorough=1200),
    Unit('refused', gen_bad(), fn_bad, 'invalid arguments are refused', quick=80, thorough=200),
]
