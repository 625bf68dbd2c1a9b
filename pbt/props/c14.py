"""C14: random_split. Exact size, partition, determinism, every record can be sampled."""
import math

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Evaluation.Splits import random_split
import dsgen as g
import splitlib as s

ID = 'C14'
ASSUMPTIONS = []
FINDINGS = {}
RATIOS = [0.01, 0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.95, 0.99]


@st.composite
def gen(draw):
    return {'src': draw(s.sources(max_rows=22)), 'ratio': draw(st.one_of(st.none(), st.sampled_from(RATIOS))), 'seed': draw(st.integers(0, 1000)),
            'other': draw(st.sampled_from(g.BACKENDS)), 'bad': draw(st.sampled_from([0, 1, -0.2, 1.2, 0.0, 1.0]))}


def fn(ctx, case):
    ds, rows = s.make(ctx, case['src'])
    kw = {} if case['ratio'] is None else {'test_ratio': case['ratio']}
    n = math.floor(len(rows) * (0.25 if case['ratio'] is None else case['ratio']))
    check(raises(random_split, ds, test_ratio=case['bad'], seed=case['seed'], verbose=False), 'test_ratio %r was accepted', case['bad'])
    if n == 0:
        check(raises(random_split, ds, seed=case['seed'], verbose=False, **kw), 'an empty test set was accepted')
        g.same_records(s.recs(ds), rows, 'the source after a refused split')
        ctx.label('refused')
        return
    results = []
    for verbose in (case['src']['verbose'], False):
        with s.schedule(verbose):
            train, test = random_split(ds, seed=case['seed'], verbose=verbose, **kw)
        results.append(s.check_result(ctx, ds, rows, train, test))
        check(len(results[-1][1]) == n, 'the test set has %d of %d records, expected %d', len(results[-1][1]), len(rows), n)
        ds.count_unique('user')
    check(results[0] == results[1], 'two splits with the same seed differ')
    if case['other'] != case['src']['backend']:
        other, _ = s.make(ctx, dict(case['src'], backend=case['other']))
        train, test = random_split(other, seed=case['seed'], verbose=False, **kw)
        check(s.check_result(ctx, other, rows, train, test) == results[0], 'the split depends on the storage of the dataset')
        ctx.label('two storages')
    ctx.nontrivial(len(rows) > 3)


@st.composite
def gen_big(draw):
    return {'src': draw(s.big_sources()), 'ratio': draw(st.one_of(st.none(), st.sampled_from(RATIOS))), 'seed': draw(st.integers(0, 1000)),
            'other': draw(st.sampled_from(g.BACKENDS)), 'bad': 0}


def fn_big(ctx, case):
    fn(ctx, dict(case, src=s.expand(case['src'])))


@st.composite
def gen_cov(draw):
    t = draw(g.tables(min_rows=3, max_rows=12, id_kinds=('int', 'plain'), extra=False))
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'base': draw(st.integers(0, 10 ** 6)), 'ratio': draw(st.sampled_from([0.34, 0.5, 0.67]))}


def fn_cov(ctx, case):
    g.set_opt('default')
    ds = g.build(ctx, case['table'], case['backend'])
    rows = g.model_rows(case['table'])
    n = math.floor(len(rows) * case['ratio'])
    out, kept, runs = {}, {}, 160
    for j in range(runs):
        train, test = random_split(ds, test_ratio=case['ratio'], seed=case['base'] + 17 * j, verbose=False)
        for d, acc in ((test, out), (train, kept)):
            for r in d.values_list('rid', to_list=True):
                acc[int(r)] = acc.get(int(r), 0) + 1
            if hasattr(d, 'close'):
                d.close()
    p = n / len(rows)
    for r in rows:
        for acc, q, what in ((out, p, 'sampled'), (kept, 1 - p, 'kept')):
            if (1 - q) ** runs < 1e-9:
                check(acc.get(r['rid'], 0) > 0, 'record %r is never %s, in %d seeds (chance %.2f each)', r, what, runs, q)
        # uniform: far outside any plausible deviation (z > 7)
        z = abs(out.get(r['rid'], 0) - runs * p) / math.sqrt(max(runs * p * (1 - p), 1e-9))
        check(z < 7, 'record %r is sampled %d times of %d, expected about %.0f', r, out.get(r['rid'], 0), runs, runs * p)
    ctx.nontrivial()


UNITS = [
    Unit('split', gen(), fn, 'source (backend, filter, ids) x ratio x seed; non-trivial: four or more records', quick=6000, thorough=90000),
    Unit('large', gen_big(), fn_big, 'the same on over a thousand records; every case non-trivial', quick=60, thorough=1200),
    Unit('coverage', gen_cov(), fn_cov, 'the same data under many seeds; every case non-trivial', quick=40, thorough=1000),
]
