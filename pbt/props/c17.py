"""C17: ranking evaluation. The items each user is judged on are observed through a recording model and checked against the
sampling rules; the reported metrics are recomputed from them."""
from unittest import mock

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Evaluation.Metrics import NDCG, Precision
from DRecPy.Evaluation.Processes import ranking_evaluation
import dsgen as g
import evallib as e
import splitlib as s

ID = 'C17'
ASSUMPTIONS = ['no repeated (user, item) pairs in the test data', 'a metric that is undefined (raises) for a user does not count that user',
               'test users are evaluated in their order of appearance']
FINDINGS = {}


def run(ctx, case, model, ds, threads, verbose):
    arg, ms, probe = e.metrics_of(case)
    kw = {} if arg is None else {'metrics': arg}
    if case['thr'] is not None:
        kw['interaction_threshold'] = case['thr']
    model.asked = []
    with s.schedule(verbose), mock.patch('matplotlib.pyplot.show'):
        got = ranking_evaluation(model, ds, n_test_users=case['n_users'], k=case['k'] if not isinstance(case['k'], list) else list(case['k']), n_pos_interactions=case['n_pos'],
                                 n_neg_interactions=case['n_neg'], generate_negative_pairs=case['gen'], novelty=case['novelty'], seed=case['seed'],
                                 max_concurrent_threads=threads, verbose=verbose, block=False, **kw)
    asked, model.asked = model.asked, None
    return got, asked, ms, probe


def fn(ctx, case):
    model, ds, rows, thr, per = e.setup(ctx, case)
    trained = g.model_rows(case['table'])
    known_u, known_i = {r['user'] for r in trained}, {r['item'] for r in trained}
    ks = case['k'] if isinstance(case['k'], list) else [case['k']]
    first = None
    for threads, verbose in ((case['threads'], case['verbose']), (1 if case['threads'] > 1 else 4, False)):
        got, asked, ms, probe = run(ctx, case, model, ds, threads, verbose)
        users = [e.norm(a[0]) for a in asked]
        check(len(set(users)) == len(users), 'users %r were ranked twice', users)
        judged, bests, samples = [], [], {}
        for (u, items, kw) in asked:
            u, items = e.norm(u), [e.norm(i) for i in items]
            check(u in per, 'user %r is not one of the test users %r', u, list(per))
            check(bool(kw.get('novelty', True)) == case['novelty'], 'novelty')
            check(len(set(items)) == len(items), 'items %r were ranked for user %r', items, u)
            data = per[u]
            pos = [i for i in items if i in data and data[i] >= thr]
            neg = [i for i in items if i in data and data[i] < thr]
            new = [i for i in items if i not in data]
            all_pos = [i for i in data if data[i] >= thr]
            all_neg = [i for i in data if data[i] < thr]
            check(len(pos) == (len(all_pos) if case['n_pos'] is None else case['n_pos']), 'user %r: %d of %d positives, asked for %r', u, len(pos), len(all_pos), case['n_pos'])
            limit = case['n_neg']
            if isinstance(limit, float):
                limit = int(limit * len(pos))
            if limit is None:
                check(len(neg) == len(all_neg), 'user %r: %d of %d negatives', u, len(neg), len(all_neg))
            elif case['gen']:
                check(len(neg) + len(new) == limit, 'user %r: %d negatives and %d generated, asked for %d', u, len(neg), len(new), limit)
                # an item may also be generated if it is a test negative
                check(len(neg) >= min(limit, len(all_neg)) or len(neg) == limit, 'test negatives of user %r were left out', u)
            else:
                check(len(neg) == min(limit, len(all_neg)), 'user %r: %d of %d negatives, asked for %d', u, len(neg), len(all_neg), limit)
            if not case['gen']:
                check(not new, 'user %r: items %r are not in the test data', u, new)
            train_pos = {r['item'] for r in trained if r['user'] == u and r['interaction'] >= thr}
            for i in new:
                check(i in known_i, 'generated negative %r is not an item of the model', i)
                check(i not in train_pos, 'generated negative %r of user %r is positive in the training data', i, u)
            if new:
                ctx.label('generated negatives')
            samples[u] = sorted(items, key=str)
            if u not in known_u:
                continue
            try:
                recs = [i for _, i in model.rank(u, samples[u], novelty=case['novelty'])]
            except ValueError:
                ctx.label('failing user')
                continue
            rel = {i: data.get(i, 0) for i in items}
            judged.append(([e.norm(i) for i in recs], rel, pos))
            bests.append(e.best_items(rel, pos))
        for u in per:  # users without a ranking
            if u in samples:
                continue
            data = per[u]
            all_pos = [i for i in data if data[i] >= thr]
            all_neg = [i for i in data if data[i] < thr]
            if case['n_pos'] is not None and len(all_pos) < case['n_pos']:
                ctx.label('too few positives')
                continue
            n_pos = len(all_pos) if case['n_pos'] is None else case['n_pos']
            limit = int(case['n_neg'] * n_pos) if isinstance(case['n_neg'], float) else case['n_neg']
            if n_pos == 0 and (not all_neg and not case['gen'] or limit == 0):
                continue
            if case['gen'] and len(all_neg) < limit:
                black = {r['item'] for r in trained if r['user'] == u and r['interaction'] >= thr} | set(all_pos)
                if len(known_i) - len(black) < limit:
                    ctx.label('too few eligible negatives')
                    continue
            check(False, 'user %r was not evaluated: positives %r, negatives %r', u, all_pos, all_neg)
        e.compare(ctx, got, probe, ms, ks, judged, bests)
        if first is None:
            first = (got, samples)
        else:
            check(first[0] == got, 'the result depends on the number of threads: %r, %r', first[0], got)
            check(first[1] == samples, 'the sampled items depend on the number of threads: %r, %r', first[1], samples)
    if ds is not None:
        g.same_records(s.recs(ds), rows, 'the test dataset after the evaluation')
    g.same_records(s.recs(model.interaction_dataset), trained, 'the training dataset after the evaluation')
    if case['verbose']:
        ctx.label('verbose')
    ctx.nontrivial(len(judged) > 1 and any(j[0] for j in judged))


@st.composite
def gen_cov(draw):
    n = draw(st.integers(2, 4))
    return {'pos': n, 'neg': draw(st.integers(2, 4)), 'new': draw(st.integers(2, 4)), 'base': draw(st.integers(0, 10 ** 6)), 'gen': draw(st.booleans()), 'backend': draw(st.sampled_from(g.BACKENDS)),
            'off': draw(st.sampled_from([0, 1, 10])), 'str': draw(st.booleans())}


def fn_cov(ctx, case):
    """Every positive, negative and unseen item can be sampled."""
    g.set_opt('default')
    name = (lambda i: 'i%d' % (i + case['off'])) if case['str'] else (lambda i: i + case['off'])
    P = [name(i) for i in range(case['pos'])]
    N = [name(i) for i in range(case['pos'], case['pos'] + case['neg'])]
    W = [name(i) for i in range(case['pos'] + case['neg'], case['pos'] + case['neg'] + case['new'])]
    types = {'user': 'int', 'item': 'str' if case['str'] else 'int', 'interaction': 'num'}
    train = g.build(ctx, {'columns': ['user', 'item', 'interaction'], 'types': types, 'rows': [[1, i, 5.] for i in P + N + W]}, 'mem_df')
    test = g.build(ctx, {'columns': ['user', 'item', 'interaction'], 'types': types, 'rows': [[2, i, 5.] for i in P] + [[2, i, 1.] for i in N]}, case['backend'])
    train = train if not case['gen'] else g.build(ctx, {'columns': ['user', 'item', 'interaction'], 'types': types, 'rows': [[1, i, 5.] for i in P + N + W] + [[2, P[0], 5.]]}, 'mem_df')
    model = e.RecordingModel({(2, i): 1. for i in P + N + W})
    if not case['gen']:
        # user 2 must be known to the model
        train = g.build(ctx, {'columns': ['user', 'item', 'interaction'], 'types': types, 'rows': [[2, i, 5.] for i in P[:1]] + [[1, i, 5.] for i in P + N + W]}, 'mem_df')
    model.fit(train)
    n_neg = len(N) + 1 if case['gen'] else 1
    model.asked = []
    for j in range(60):
        ranking_evaluation(model, test, n_pos_interactions=1, n_neg_interactions=n_neg, generate_negative_pairs=case['gen'], seed=case['base'] + j, interaction_threshold=3, verbose=False,
                           max_concurrent_threads=1)
    seen = {e.norm(i) for a in model.asked for i in a[1]}
    check(len(model.asked) == 60, '%d of 60 evaluations ranked the user', len(model.asked))
    want = set(P) | set(N) | (set(W) if case['gen'] else set())
    check(seen == want, 'over 60 seeds the sampled items are %r of %r', sorted(seen, key=str), sorted(want, key=str))
    ctx.nontrivial()


def fn_bad(ctx, case):
    t = {'columns': ['user', 'item', 'interaction'], 'types': {'user': 'int', 'item': 'int', 'interaction': 'num'}, 'rows': case['rows']}
    model = e.RecordingModel({(r[0], r[1]): 1. for r in case['rows']})
    model.fit(g.build(ctx, t, 'mem_df'))
    v = case['v']
    kw = {'users': dict(n_test_users=-v), 'users0': dict(n_test_users=0), 'pos': dict(n_pos_interactions=-v), 'pos0': dict(n_pos_interactions=0), 'neg': dict(n_neg_interactions=-v),
          'neg0': dict(n_neg_interactions=0), 'k': dict(k=-v), 'k0': dict(k=0), 'klist': dict(k=[v, 0]), 'gen': dict(generate_negative_pairs=True), 'tuple': dict(metrics=(NDCG(),)),
          'type': dict(metrics=[Precision(), e.NotAMetric()])}[case['bad']]
    check(raises(ranking_evaluation, model, verbose=False, **kw), 'accepted invalid argument %r', kw)
    ctx.nontrivial()


BAD = st.sampled_from(['users', 'users0', 'pos', 'pos0', 'neg', 'neg0', 'k', 'k0', 'klist', 'gen', 'tuple', 'type'])
UNITS = [
    Unit('evaluation', e.cases(True), fn, 'train data x test data with unknown ids x prediction table with missing entries and failing users x sampling options, cut-offs, metrics, seeds, threads, '
         'backends; each case is run with two thread counts; non-trivial: two or more users are judged', quick=3600, thorough=40000),
    Unit('sampling', gen_cov(), fn_cov, 'over 60 seeds, every positive, negative and unseen item is sampled; every case non-trivial', quick=40, thorough=400),
    Unit('refused', st.fixed_dictionaries({'rows': st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(1, 5)), min_size=1, max_size=4), 'bad': BAD, 'v': st.integers(1, 9)}),
         fn_bad, 'invalid arguments are refused; every case non-trivial', quick=160, thorough=800),
]
