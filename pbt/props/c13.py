"""C13: matrix_split. There are user and item samples of the requested sizes that explain the split; determinism; partition."""
import itertools
import math

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Evaluation.Splits import matrix_split
import dsgen as g
import splitlib as s

ID = 'C13'
ASSUMPTIONS = []
FINDINGS = {}
RATIOS = [0.1, 0.2, 0.25, 0.34, 0.5, 0.67, 0.75, 0.9, 1.0, 1]


@st.composite
def gen(draw):
    full = draw(st.integers(0, 3)) > 0  # mostly: enough users and items for the sampled sub-matrix to hold something
    src = draw(s.sources(max_users=draw(st.sampled_from([4, 5, 6])), max_rows=20, **(dict(min_rows=8, min_distinct=3) if full else {})))
    ratios = st.sampled_from(RATIOS[4:] if full else RATIOS)
    return {'src': src, 'ur': draw(ratios), 'ir': draw(ratios), 'min': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3])), 'seed': draw(st.integers(0, 1000)), 'other': draw(st.one_of(st.none(), st.sampled_from(g.BACKENDS))),
            'defaults': draw(st.integers(0, 15)) == 0}


def explain(per, te, n_users, n_items, items, minimum):
    """Is there a set of n_users users and n_items items such that the test set is exactly their product (per the contract)?"""
    used = {r['item'] for rs in per.values() for r in rs if r['rid'] in te}
    if len(used) > n_items:
        return False
    free = sorted(items - used, key=str)
    for add in itertools.combinations(free, n_items - len(used)):
        chosen = used | set(add)
        forced, possible, ok = 0, 0, True
        for rs in per.values():
            got = {r['rid'] for r in rs if r['rid'] in te}
            if len(rs) < minimum:
                possible += 1
                continue
            would = {r['rid'] for r in rs if r['item'] in chosen}
            if len(would) == len(rs):
                would = set()
            if got:
                if got != would:
                    ok = False
                    break
                forced += 1
                possible += 1
            elif not would:
                possible += 1
        if ok and forced <= n_users <= possible:
            return True
    return False


def fn(ctx, case):
    ds, rows = s.make(ctx, case['src'])
    ur, ir = (0.2, 0.2) if case['defaults'] else (case['ur'], case['ir'])
    kw = {} if case['defaults'] else dict(user_test_ratio=ur, item_test_ratio=ir)
    kw.update(min_user_interactions=case['min'], seed=case['seed'], verbose=case['src']['verbose'])
    per = {}
    for r in rows:
        per.setdefault(r['user'], []).append(r)
    items = {r['item'] for r in rows}
    removed = [r['rid'] for rs in per.values() if len(rs) < case['min'] for r in rs]
    results = []
    for threads in (case['src']['threads'], 1, 4):
        with s.schedule(kw['verbose']):
            train, test = matrix_split(ds, max_concurrent_threads=threads, **kw)
        tr, te = s.check_result(ctx, ds, rows, train, test, removed)
        kw['verbose'] = False
        results.append((tr, te))
    check(results[0] == results[1] == results[2], 'the split depends on the number of threads')
    if case['other'] not in (None, case['src']['backend']):
        other, _ = s.make(ctx, dict(case['src'], backend=case['other']))
        train, test = matrix_split(other, **kw)
        check(tuple(s.check_result(ctx, other, rows, train, test, removed)) == results[0], 'the split depends on the storage of the dataset')
        ctx.label('two storages')
    tr, te = results[0]
    for u, rs in per.items():
        check(len(rs) < case['min'] or any(r['rid'] in tr for r in rs), 'user %r has no record in the train set', u)
    nu, ni = math.floor(len(per) * ur), math.floor(len(items) * ir)
    check(explain(per, te, nu, ni, items, case['min']),
          'no choice of %d of %d users and %d of %d items explains the test records %r of %r', nu, len(per), ni, len(items), sorted(te), rows)
    ctx.label('empty test set' if not te else 'test records')
    ctx.nontrivial(te and len(per) > 1)


@st.composite
def gen_big(draw):
    return {'src': dict(draw(s.big_sources()), drop=[]), 'ur': draw(st.sampled_from(RATIOS)), 'ir': draw(st.sampled_from(RATIOS)), 'seed': draw(st.integers(0, 1000)),
            'threads': draw(st.sampled_from([1, 3, 8]))}


def fn_big(ctx, case):
    """Every user has every item: the test set is exactly the product of the sampled users and items."""
    ds, rows = s.make(ctx, s.expand(case['src']))
    results = []
    for threads in (case['src']['threads'], case['threads']):
        with s.schedule(False):
            train, test = matrix_split(ds, user_test_ratio=case['ur'], item_test_ratio=case['ir'], seed=case['seed'], verbose=False, max_concurrent_threads=threads)
        results.append(s.check_result(ctx, ds, rows, train, test))
    check(results[0] == results[1], 'the split depends on the number of threads')
    te = results[0][1]
    users, items = {r['user'] for r in rows}, {r['item'] for r in rows}
    nu, ni = math.floor(len(users) * case['ur']), math.floor(len(items) * case['ir'])
    hit = [r for r in rows if r['rid'] in te]
    hu, hi = {r['user'] for r in hit}, {r['item'] for r in hit}
    if ni == len(items) or nu == 0 or ni == 0:
        check(not te, 'sampling %d of %d users and %d of %d items left %d test records', nu, len(users), ni, len(items), len(te))
        ctx.label('empty test set')
        return
    check(len(hu) == nu and len(hi) == ni, 'the test set has %d users and %d items, expected %d and %d', len(hu), len(hi), nu, ni)
    check(te == {r['rid'] for r in rows if r['user'] in hu and r['item'] in hi}, 'the test set is not the product of its users and items')
    ctx.nontrivial()


@st.composite
def gen_cov(draw):
    t = draw(g.tables(min_rows=4, max_rows=12, id_kinds=('int', 'plain'), max_distinct=4, extra=False))
    return {'table': t, 'backend': draw(st.sampled_from(['mem_df', 'mem_csv', 'db'])), 'base': draw(st.integers(0, 10 ** 6)),
            'ur': draw(st.sampled_from([0.5, 1.0])), 'ir': draw(st.sampled_from([0.5, 0.67]))}


def fn_cov(ctx, case):
    """Over many seeds, every record that can be sampled is sampled."""
    g.set_opt('default')
    ds = g.build(ctx, case['table'], case['backend'])
    rows = g.model_rows(case['table'])
    per = {}
    for r in rows:
        per.setdefault(r['user'], []).append(r)
    items = {r['item'] for r in rows}
    nu, ni = math.floor(len(per) * case['ur']), math.floor(len(items) * case['ir'])
    out = set()
    runs = 150
    for j in range(runs):
        train, test = matrix_split(ds, user_test_ratio=case['ur'], item_test_ratio=case['ir'], seed=case['base'] + 31 * j, verbose=False, max_concurrent_threads=2)
        out |= set(test.values_list('rid', to_list=True))
        for d in (train, test):
            if hasattr(d, 'close'):
                d.close()
    if not nu:
        return
    for rs in per.values():
        mine = {r['item'] for r in rs}
        for r in rs:
            # probability that the user and the item are chosen, but not every item of the user
            p = 0
            sets = [c for c in itertools.combinations(sorted(items, key=str), ni) if r['item'] in c and not mine <= set(c)]
            p = nu / len(per) * len(sets) / math.comb(len(items), ni)
            if (1 - p) ** runs < 1e-9:
                check(r['rid'] in out, 'record %r is never sampled, in %d seeds (chance %.2f each)', r, runs, p)
                ctx.nontrivial()


@st.composite
def gen_bad(draw):
    return {'ur': draw(st.sampled_from([0.5, 0, -0.1, 1.01, 2])), 'ir': draw(st.sampled_from([0.5, 1, 0.0, -1, 1.5])),
            'threads': draw(st.sampled_from([1, 1, 0, -1])), 'backend': draw(st.sampled_from(g.BACKENDS))}


def fn_bad(ctx, case):
    t = {'columns': ['user', 'item', 'interaction'], 'types': {}, 'rows': [[1, 1, 1.], [1, 2, 1.], [2, 3, 1.]]}
    ds = g.build(ctx, t, case['backend'])
    valid = 0 < case['ur'] <= 1 and 0 < case['ir'] <= 1 and case['threads'] > 0
    check(raises(matrix_split, ds, user_test_ratio=case['ur'], item_test_ratio=case['ir'], max_concurrent_threads=case['threads'], verbose=False) != valid,
          '%r: %s', case, 'refused' if valid else 'accepted')
    ctx.nontrivial(not valid)


UNITS = [
    Unit('split', gen(), fn, 'source (backend, filter, ids) x ratios x minimum x seed x three thread counts; non-trivial: some record sampled, two or more users',
         quick=3200, thorough=50000),
    Unit('large', gen_big(), fn_big, 'over a thousand records, every user with every item; non-trivial: the test set is not empty', quick=40, thorough=800),
    Unit('coverage', gen_cov(), fn_cov, 'the same data under many seeds; non-trivial: some record must be sampled', quick=40, thorough=1000),
    Unit('refused', gen_bad(), fn_bad, 'invalid arguments are refused', quick=120, thorough=400),
]
