"""C21: predict, rank and recommend. Table-driven models give an exact oracle for the base class; the trained models a relational one."""
from hypothesis import strategies as st

from core import Unit, check, raises
import deeplib as d
import dsgen as g
from models import TableModel

ID = 'C21'
ASSUMPTIONS = ['the items to rank are given once each', 'for Caser, each user has at least L records, and L is at most the number of horizontal filters']
FINDINGS = {}


def norm(i):
    return i.item() if hasattr(i, 'item') else i


def verify(ctx, how, got, scores, lim):
    """`scores`: {item: score} of the items that may be returned."""
    got = [(float(s), norm(i)) for s, i in got]
    want = sorted(scores.values(), reverse=True)
    want = want if lim is None else want[:lim]
    check(len({i for _, i in got}) == len(got), '%s returned an item twice: %r', how, got)
    check(len(got) == len(want), '%s returned %r, the scores are %r (at most %r)', how, got, scores, lim)
    check(all(got[k][0] >= got[k + 1][0] for k in range(len(got) - 1)), '%s is not ordered: %r', how, got)
    for s, i in got:
        check(i in scores, '%s returned %r, only %r can be', how, i, sorted(scores, key=str))
        check(abs(s - scores[i]) <= 1e-5 * max(1, abs(s)), '%s scores item %r %r, its score is %r', how, i, s, scores[i])
    for (s, _), w in zip(got, want):
        check(abs(s - w) <= 1e-5 * max(1, abs(s)), '%s returned the scores %r, the best are %r', how, [x for x, _ in got], want)


@st.composite
def gen(draw):
    t = draw(g.tables(min_rows=1, max_rows=14, id_kinds=('int', 'small', 'plain', 'str'), extra=draw(st.booleans()), max_distinct=draw(st.sampled_from([3, 5, 7])), min_distinct=draw(st.sampled_from([1, 3]))))
    rows = g.model_rows(t)
    users, items = sorted({r['user'] for r in rows}, key=str), sorted({r['item'] for r in rows}, key=str)
    vals = st.one_of(st.integers(-8, 24).map(lambda x: x / 4), st.just(1.0), st.just(0.0), st.none(), st.floats(-5, 5, allow_nan=False, width=32).filter(lambda x: x == 0 or abs(x) > 1e-3))
    preds = [[u, i, v] for u in users for i in items for v in [draw(vals)] if v is not None]
    unknown = ['nobody', ''] if isinstance(items[0], str) else [88888, -77777]
    pool = items + (unknown if draw(st.booleans()) else [])
    return {'table': t, 'preds': preds, 'items': draw(st.permutations(pool))[:draw(st.integers(0, len(pool)))], 'backend': draw(st.sampled_from(g.BACKENDS)),
            'novelty': draw(st.sampled_from([None, True, False])), 'n': draw(st.one_of(st.none(), st.integers(0, 8))), 'skip': draw(st.sampled_from([None, True, False])),
            'thr': draw(st.one_of(st.none(), st.sampled_from([0, 1.0, 2.25]))), 'drop': draw(st.lists(st.integers(0, 13), max_size=2)), 'fail': draw(st.integers(0, 5)) == 0, 'ids': draw(st.booleans())}


def fn(ctx, case):
    g.set_opt('default')
    rows = g.model_rows(case['table'])
    ds = g.build(ctx, case['table'], case['backend'])
    drop = [x for x in case['drop'] if x < len(rows)]
    if case['ids']:
        ds.assign_internal_ids()
    if drop and len(set(drop)) < len(rows):
        ds = ctx.track(ds.drop(drop))
        rows = [r for r in rows if r['rid'] not in drop]
        ctx.label('filtered')
    table = {(u, i): v for u, i, v in case['preds']}
    model = TableModel(table)
    users, items = list(dict.fromkeys(r['user'] for r in rows)), list(dict.fromkeys(r['item'] for r in rows))
    for f in (lambda: model.predict(users[0], items[0]), lambda: model.rank(users[0], items), lambda: model.recommend(users[0]), lambda: model.predict(users[0], items[0], skip_errors=True)):
        check(raises(f), 'the model answered before it was fitted')
    model.fit(ds)
    check((model.n_users, model.n_items, model.n_rows) == (len(users), len(items), len(rows)), 'the model counts %r users, items, records', (model.n_users, model.n_items, model.n_rows))
    own = {u: {r['item'] for r in rows if r['user'] == u} for u in users}
    novelty = True if case['novelty'] is None else case['novelty']
    kw = {} if case['novelty'] is None else {'novelty': case['novelty']}
    asked = list(case['items'])
    known = [i for i in asked if i in items]
    for u in users:
        for i in items:
            v = table.get((u, i))
            if v is None:
                check(raises(model.predict, u, i), 'predict(%r, %r) must fail', u, i)
                check(model.predict(u, i, skip_errors=True) is None, 'predict(%r, %r)', u, i)
            else:
                check(model.predict(u, i) == v and model.predict(u, i, skip_errors=True) == v, 'predict(%r, %r) = %r, expected %r', u, i, model.predict(u, i), v)
        scores = {i: table[u, i] for i in items if table.get((u, i)) is not None and not (novelty and i in own[u])}
        # rank
        k2 = dict(kw)
        if case['skip'] is not None:
            k2['skip_invalid_items'] = case['skip']
        lim = case['n']
        if lim is not None:
            k2['n'] = lim
        before = list(asked)
        if case['skip'] is False and len(known) < len(asked):
            check(raises(model.rank, u, asked, **k2), 'unknown items of %r were not refused', asked)
        elif lim is not None and lim > len(known):
            check(raises(model.rank, u, asked, **k2), 'the %d best of %d items were not refused', lim, len(known))
        else:
            verify(ctx, 'rank', model.rank(u, asked, **k2), {i: s for i, s in scores.items() if i in known}, lim)
            ctx.nontrivial(len(scores) > 1)
        check(asked == before, 'the item list was changed')
        # recommend
        k3 = dict(kw)
        if case['n'] is not None:
            k3['n'] = case['n']
        if case['thr'] is not None:
            k3['interaction_threshold'] = case['thr']
        best = sorted(scores.values(), reverse=True)[:case['n']] if case['n'] is not None else list(scores.values())
        if case['thr'] is not None:
            scores = {i: s for i, s in scores.items() if s >= case['thr']}
        verify(ctx, 'recommend', model.recommend(u, **k3), scores, case['n'])
    stranger = 'stranger' if isinstance(users[0], str) else 99999
    for f in (model.predict, ):
        check(raises(f, stranger, items[0]), 'unknown user %r was not refused', stranger)
        check(raises(f, users[0], 'stranger' if isinstance(items[0], str) else 99999), 'unknown item was not refused')
        check(f(stranger, items[0], skip_errors=True) is None, 'prediction for an unknown user')
    check(raises(model.rank, stranger, items) and raises(model.recommend, stranger), 'unknown user %r was not refused', stranger)
    if case['fail'] and case['preds']:
        u, i, _ = case['preds'][0]
        if u in users and i in items:
            model.table = dict(table)
            model.table[u, i] = 'raise'
            check(raises(model.predict, u, i), 'an error of the model was hidden')
            check(model.predict(u, i, skip_errors=True) is None, 'an error of the model was not skipped')


@st.composite
def gen_deep(draw):
    t = draw(d.tables())
    items = list(dict.fromkeys(r[1] for r in t['rows']))
    pool = items + (['nobody'] if isinstance(items[0], str) else [88888])
    return {'table': t, 'conf': draw(d.configs(('CDAE', 'DMF', 'Caser', 'UserKNN', 'ItemKNN'))), 'backend': draw(st.sampled_from(g.BACKENDS)), 'items': draw(st.permutations(pool))[:draw(st.integers(1, len(pool)))],
            'n': draw(st.integers(1, 5)), 'q': draw(st.integers(0, 9))}


def fn_deep(ctx, case):
    g.set_opt('default')
    rows = g.model_rows(case['table'])
    ds = g.build(ctx, case['table'], case['backend'])
    users, items = list(dict.fromkeys(r['user'] for r in rows)), list(dict.fromkeys(r['item'] for r in rows))
    model = d.make(case['conf'])
    check(raises(model.rank, users[0], items) and raises(model.recommend, users[0]), 'the model answered before it was fitted')
    model.fit(ds, **case['conf']['fit'])
    own = {u: {r['item'] for r in rows if r['user'] == u} for u in users}
    known = [i for i in case['items'] if i in items]
    cls = case['conf']['class']
    for u in users:
        full = {norm(i): float(s) for s, i in model.rank(u, items, novelty=False)}
        if cls == 'Caser':
            check(set(full) == set(items), 'ranked %r of %r', full, items)
        else:
            for i in items:
                v = model.predict(u, i, skip_errors=True)
                check((v is None) == (i not in full), 'item %r is predicted %r, ranked %r', i, v, full.get(i))
                check(v is None or abs(float(v) - full[i]) <= 1e-5 * max(1, abs(full[i])), 'item %r is predicted %r, ranked %r', i, v, full.get(i))
        for novelty in (False, True):
            able = {i: s for i, s in full.items() if not (novelty and i in own[u])}
            verify(ctx, 'rank', model.rank(u, list(case['items']), novelty=novelty), {i: s for i, s in able.items() if i in known}, None)
            lim = min(case['n'], len(known))
            verify(ctx, 'rank', model.rank(u, list(case['items']), novelty=novelty, n=lim), {i: s for i, s in able.items() if i in known}, lim)
            verify(ctx, 'recommend', model.recommend(u, novelty=novelty), able, None)
            verify(ctx, 'recommend', model.recommend(u, n=case['n'], novelty=novelty), able, case['n'])
            ranked = sorted(able.values(), reverse=True)
            if ranked:
                pos = case['q'] % len(ranked)
                thr = (ranked[pos] + (ranked[pos + 1] if pos + 1 < len(ranked) else ranked[pos] - 1)) / 2
                if all(abs(s - thr) > 1e-4 for s in ranked):
                    got = model.recommend(u, n=case['n'], novelty=novelty, interaction_threshold=thr)
                    verify(ctx, 'recommend above %r' % thr, got, {i: s for i, s in able.items() if s >= thr}, case['n'])
                    ctx.label('threshold')
    nobody, nothing = 'stranger' if isinstance(users[0], str) else 99999, 'nothing' if isinstance(items[0], str) else 99999
    for u, i in ((users[0], nothing), (nobody, items[0]), (nobody, nothing), (None, None)):
        check(raises(model.predict, u, i), 'predict(%r, %r) must fail', u, i)
        check(model.predict(u, i, skip_errors=True) is None, 'predict(%r, %r) is %r', u, i, model.predict(u, i, skip_errors=True))
    check(raises(model.recommend, nobody), 'unknown user was not refused')
    check(raises(model.rank, 'stranger' if isinstance(users[0], str) else 99999, items), 'unknown user was not refused')
    if len(known) < len(case['items']):
        check(raises(model.rank, users[0], case['items'], skip_invalid_items=False), 'unknown items were not refused')
    ctx.label(cls)
    ctx.nontrivial(any(full.values()) and len(set(full.values())) > 1)


UNITS = [
    Unit('base', gen(), fn, 'datasets x prediction tables x requests (items, novelty, n, threshold, unknown ids, errors) x storages, exact oracle; non-trivial: a user has two or more scores', quick=6400, thorough=80000),
    Unit('trained', gen_deep(), fn_deep, 'every recommender of the repository, trained for one or two epochs on generated datasets, against its own scores; non-trivial: scores differ', quick=240, thorough=2400, budget_quick=90),
]
