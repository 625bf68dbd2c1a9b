"""C09: random record and null pair generators. Every draw is valid, every valid draw comes up, seeds repeat, nothing changes."""
import random

from hypothesis import strategies as st

from core import Unit, check
import dsgen as g

ID = 'C09'
ASSUMPTIONS = ['null pairs: each user-item pair has at most one record, and at least one pair is not positive (drawing from none never ends)',
               'null pair coverage: pairs of users and items which the dataset holds',
               'coverage: draws go on until every valid sample came up, at most MAX_DRAWS times, with a chance below 1e-12 of missing one of a sound generator']
FINDINGS = {}
MAX_DRAWS = 6000


@st.composite
def gen(draw):
    null = draw(st.booleans())
    t = draw(g.tables(min_rows=draw(st.sampled_from([1, 3, 5])), max_rows=9, wide=g.WIDE, id_kinds=('small', 'plain', 'str', 'big'), max_distinct=4, min_distinct=draw(st.sampled_from([1, 2, 3])), unique_pairs=null))
    return {'table': t, 'null': null, 'backend': draw(st.sampled_from(g.BACKENDS)), 'other': draw(st.sampled_from(g.BACKENDS)),
            'opt': draw(st.sampled_from(['default', 'eager', 'mid', 'lazy'])),
            'pre': draw(st.one_of(st.none(), g.conditions(t, max_size=1))), 'post': draw(st.one_of(st.none(), g.conditions(t, max_size=1, extra_cols=('rid', 'uid', 'iid')))),
            'query': draw(st.one_of(st.none(), g.conditions(t, max_size=2, extra_cols=('rid', 'uid', 'iid')))),
            'thr': draw(st.one_of(st.none(), g.thresholds(t), st.integers(-4, 20).map(lambda x: x / 4), st.integers(0, 5))),
            'seed': draw(st.integers(0, 10 ** 6)), 'unseeded': draw(st.integers(0, 4)) == 0, 'reads': draw(st.integers(0, 4)),
            'cover': draw(st.booleans())}


def prepare(ctx, case, backend):
    t = case['table']
    rows = g.model_rows(t)
    ds = g.build(ctx, t, backend)
    if case['pre']:
        keep = [r for r in rows if g.matches(r, case['pre'])]
        if keep:
            ds, rows = ctx.track(ds.select(g.query_text(case['pre']))), keep
    ds.assign_internal_ids()
    full = [g.norm_rec(r) for r in ds.values_list()]
    if case['post']:
        keep = [r for r in full if g.matches(r, case['post'])]
        if keep:
            ds, full = ctx.track(ds.select(g.query_text(case['post']))), keep
            ctx.label('filtered')
    for _ in range(case['reads']):
        ds.count_unique('uid')
    return ds, full


def make(ds, case, seed):
    if case['null']:
        kw = {} if case['thr'] is None else {'interaction_threshold': case['thr']}
        return ds.null_interaction_pair_generator(seed=seed, **kw)
    args = () if case['query'] is None else (g.query_text(case['query']),)
    return ds.select_random_generator(*args, seed=seed)


def key(x):
    return tuple(map(g.norm, x)) if isinstance(x, tuple) else tuple(sorted((k, g.norm(v)) for k, v in x.items()))


def fn(ctx, case):
    g.set_opt(case['opt'])
    ds, rows = prepare(ctx, case, case['backend'])
    if case['null']:
        positive = {(r['uid'], r['iid']) for r in rows if case['thr'] is None or r['interaction'] >= case['thr']}
        us, its = {r['uid'] for r in rows}, {r['iid'] for r in rows}
        need = {(u, i) for u in us for i in its} - positive
        n_uids, n_iids = max(us) + 1, max(its) + 1

        def valid(x):
            u, i = x
            return (u, i) not in positive and 0 <= u < n_uids and 0 <= i < n_iids
        if not any((u, i) not in positive for u in range(n_uids) for i in range(n_iids)):
            return
    else:
        need = {key(r) for r in rows if not case['query'] or g.matches(r, case['query'])}

        def valid(x):
            return x in need
        if not need:
            try:
                first = next(make(ds, case, case['seed']))
            except Exception:
                ctx.label('nothing to sample')
                return
            check(False, 'no record matches, but %r was drawn', first)
    ctx.label('null pairs' if case['null'] else 'records', case['backend'])
    ctx.nontrivial(len(need) > 2)
    seed = case['seed']
    a, b = make(ds, case, seed), make(ds, case, seed)
    noise = make(ds, case, seed + 1)
    seq = []
    for k in range(8):
        x = key(next(a))
        check(valid(x), 'drew %r, valid samples: %r', x, sorted(need))
        check(valid(key(next(noise))), 'the second generator drew an invalid sample')
        seq.append(x)
        random.random()
    got = [key(next(b)) for _ in range(8)]
    check(got == seq, 'the same seed gave %r and then %r', seq, got)
    if case['other'] != case['backend']:
        ds2, rows2 = prepare(ctx, case, case['other'])
        if rows2 == rows:
            c = make(ds2, case, seed)
            got = [key(next(c)) for _ in range(8)]
            check(got == seq, 'with the same seed, %s gave %r and %s gave %r', case['backend'], seq, case['other'], got)
    if case['cover']:
        gen_ = make(ds, case, None) if case['unseeded'] else a
        missing = set(need) - (set() if case['unseeded'] else set(seq))
        for _ in range(MAX_DRAWS):
            if not missing:
                break
            x = key(next(gen_))
            check(valid(x), 'drew %r, valid samples: %r', x, sorted(need))
            missing.discard(x)
        check(not missing, '%r never drawn in %d draws', sorted(missing), MAX_DRAWS)
        ctx.label('coverage')
    g.same_records(ds.values_list(), rows, 'the dataset after sampling')
    # the generators are still alive: the dataset stays usable
    n_users = len({r['user'] for r in rows})
    ds.assign_internal_ids()
    again = [g.norm_rec(r) for r in ds.values_list()]
    strip = lambda r: {k: v for k, v in r.items() if k not in ('uid', 'iid')}
    g.same_records(map(strip, again), map(strip, rows), 'records after the ids are assigned again')
    check(sorted({r['uid'] for r in again}) == list(range(n_users)), 'ids after sampling')


@st.composite
def gen_many(draw):
    nu, ni = draw(st.sampled_from([(11, 12), (12, 11), (16, 16), (128, 2), (2, 130), (129, 3), (182, 182), (17, 8)]))
    step = draw(st.sampled_from([1, 3, 5]))
    vals = draw(st.lists(st.integers(1, 5), min_size=7, max_size=7))
    rows = [[k % nu, k * step % ni if nu != ni else (k + step) % ni, float(vals[k % 7])] for k in range(max(nu, ni))]
    case = draw(gen())
    t = {'columns': ['user', 'item', 'interaction'], 'types': {'user': 'int', 'item': 'int', 'interaction': 'num'}, 'rows': [[u, i, v] for (u, i), v in {(r[0], r[1]): r[2] for r in rows}.items()]}
    case.update(table=t, query=draw(st.one_of(st.none(), g.conditions(t, max_size=1, extra_cols=('rid', 'uid', 'iid')))), pre=None,
                post=draw(st.one_of(st.none(), g.conditions(t, max_size=1, extra_cols=('rid', 'uid', 'iid')))), thr=draw(st.sampled_from([None, 1, 3, 4.5, 6])), cover=False)
    return case


UNITS = [Unit('many', gen_many(), fn, 'the same over more users and items (up to 33124 pairs)', quick=500, thorough=6000),
         Unit('generators', gen(), fn, 'dataset x selection x query or threshold x seed x storage; non-trivial: at least three valid samples', quick=4500, thorough=60000)]
