"""C10: the point sampler. Triples are true positives or negatives, in the ratio asked for; seeds repeat."""
import math

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Sampler import PointSampler
import dsgen as g

ID = 'C10'
ASSUMPTIONS = ['each user-item pair has at most one record; there is a positive record and a pair which is not positive',
               'ratio: the observed share is refused only when its Chernoff bound is below 1e-11']
FINDINGS = {}


@st.composite
def gen(draw):
    t = draw(g.tables(min_rows=draw(st.sampled_from([1, 3, 5])), max_rows=10, wide=g.WIDE, id_kinds=('small', 'plain', 'str'), max_distinct=5, min_distinct=draw(st.sampled_from([1, 2, 3])), unique_pairs=True, extra=False))
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'opt': draw(st.sampled_from(['default', 'eager', 'mid'])),
            'ratio': draw(st.sampled_from([0, 1, 1, 2, 3, 5, 0.5, 10])), 'n': draw(st.integers(0, 24)),
            'thr': draw(st.one_of(st.none(), g.thresholds(t), st.integers(-4, 18).map(lambda x: x / 4), st.integers(0, 5), st.just(1e-3))),
            'post': draw(st.one_of(st.none(), st.none(), g.conditions(t, max_size=1))),
            'seed': draw(st.integers(0, 10 ** 6)), 'long': draw(st.integers(0, 5)) == 0}


def chernoff(k, n, p):
    """Upper bound on the chance of a deviation at least as large as k successes out of n."""
    q = k / n
    if p in (0, 1):
        return 1 if q == p else 0
    kl = (q * math.log(q / p) if q else 0) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0)
    return 2 * math.exp(-n * kl)


def fn(ctx, case):
    g.set_opt(case['opt'])
    t, thr, ratio = case['table'], case['thr'], case['ratio']
    ds = g.build(ctx, t, case['backend'])
    check(raises(PointSampler, ds, 1), 'a dataset without internal ids must be refused')
    ds.assign_internal_ids()
    rows = [g.norm_rec(r) for r in ds.values_list()]
    if case['post']:
        keep = [r for r in rows if g.matches(r, case['post'])]
        if keep:
            ds, rows = ctx.track(ds.select(g.query_text(case['post']))), keep
    pos = {(r['uid'], r['iid']): r['interaction'] for r in rows if thr is None or r['interaction'] >= thr}
    n_pairs = (max(r['uid'] for r in rows) + 1) * (max(r['iid'] for r in rows) + 1)
    if not pos or len(pos) == n_pairs:
        return
    ctx.label(case['backend'], 'threshold' if thr is not None else 'no threshold')
    ctx.nontrivial(len(pos) > 1 and n_pairs - len(pos) > 1)

    def kind(x):
        check(isinstance(x, tuple) and len(x) == 3, 'sample %r', x)
        u, i, v = map(g.norm, x)
        if (u, i) in pos:
            check(v == pos[u, i], 'positive pair %r has value %r, drawn with %r', (u, i), pos[u, i], v)
            return 1
        check(0 <= u and 0 <= i and v == 0, 'negative pair %r drawn with value %r', (u, i), v)
        return 0
    kw = {'seed': case['seed']}
    if thr is not None:
        kw['interaction_threshold'] = thr
    a, b = PointSampler(ds, ratio, **kw), PointSampler(ds, ratio, **kw)
    check(raises(PointSampler, ds, None) and raises(PointSampler, None, 1), 'missing arguments must be refused')
    sa = a.sample(case['n'])
    check(len(sa) == case['n'], 'asked for %d samples, got %d', case['n'], len(sa))
    kinds = [kind(x) for x in sa]
    sb = b.sample(case['n'])
    norm = lambda xs: [tuple(map(g.norm, x)) for x in xs]
    check(norm(sa) == norm(sb), 'the same seed gave %r and %r', sa, sb)
    if ratio == 0:
        check(all(kinds), 'negatives drawn with a ratio of 0')
    check(kind(a.sample_one()) in (0, 1), 'sample_one')
    for _ in range(3):
        x = tuple(map(g.norm, a.sample_positive()))
        check(kind(x) == 1, 'sample_positive drew %r', x)
        x = tuple(map(g.norm, a.sample_negative()))
        check(x[:2] not in pos and x[2] == 0, 'sample_negative drew %r', x)
    check(len(a.sample()) == 16, 'default number of samples')
    if case['long']:
        n = 500
        xs = norm(a.sample(n))
        npos = sum(map(kind, xs))
        check(chernoff(npos, n, 1 / (ratio + 1)) > 1e-11, '%d positives out of %d with a ratio of %r', npos, n, ratio)
        missing = set(pos) - {x[:2] for x in xs}
        for _ in range(3000):
            if not missing:
                break
            missing.discard(tuple(map(g.norm, a.sample_positive()))[:2])
        check(not missing, 'positive pairs %r are never drawn', missing)
        ctx.label('long')
    g.same_records(ds.values_list(), rows, 'the dataset after sampling')


UNITS = [Unit('points', gen(), fn, 'dataset x ratio x threshold x seed x storage; non-trivial: at least two positive and two other pairs', quick=1600, thorough=40000)]
