"""C18: recommendation evaluation. What the model is asked and what the metrics are given is observed; the reported metrics are recomputed."""
from unittest import mock

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Evaluation.Metrics import NDCG, Precision
from DRecPy.Evaluation.Processes import recommendation_evaluation
import dsgen as g
import evallib as e
import splitlib as s

ID = 'C18'
ASSUMPTIONS = ['no repeated (user, item) pairs in the test data', 'a metric that is undefined (raises) for a user does not count that user',
               'test users are evaluated in their order of appearance']
FINDINGS = {}


def run(ctx, case, model, ds, threads, verbose):
    arg, ms, probe = e.metrics_of(case)
    kw = {} if arg is None else {'metrics': arg}
    if case['thr'] is not None:
        kw['interaction_threshold'] = case['thr']
    model.asked = []
    with s.schedule(verbose), mock.patch('matplotlib.pyplot.show'):
        got = recommendation_evaluation(model, ds, n_test_users=case['n_users'], k=case['k'] if not isinstance(case['k'], list) else list(case['k']), n_pos_interactions=case['n_pos'],
                                        novelty=case['novelty'], ignore_low_predictions_threshold=case['low'], seed=case['seed'],
                                        max_concurrent_threads=threads, verbose=verbose, block=False, **kw)
    asked, model.asked = model.asked, None
    return got, asked, ms, probe


def matching(fits):
    """Gives each left index n one of the users that fit it; None if there is no way."""
    owner = {}

    def place(j, seen):
        for n in fits[j]:
            if n not in seen:
                seen.add(n)
                if n not in owner or place(owner[n], seen):
                    owner[n] = j
                    return True
        return False
    return owner if all(place(j, set()) for j in range(len(fits))) else None


def fn(ctx, case):
    model, ds, rows, thr, per = e.setup(ctx, case)
    trained = g.model_rows(case['table'])
    known_u = {r['user'] for r in trained}
    ks = case['k'] if isinstance(case['k'], list) else [case['k']]
    first = None
    need = case['n_pos'] or 1
    for threads, verbose in ((case['threads'], case['verbose']), (1 if case['threads'] > 1 else 4, False)):
        got, asked, ms, probe = run(ctx, case, model, ds, threads, verbose)
        users = [e.norm(a[0]) for a in asked]
        check(len(set(users)) == len(users), 'recommendations were asked twice for a user: %r', users)
        judged, bests = [], []
        for u, data in per.items():
            pos = [i for i in data if data[i] >= thr]
            if len(pos) < need:
                check(u not in users, 'user %r has %d positives, yet is evaluated', u, len(pos))
                ctx.label('too few positives')
                continue
            check(u in users, 'user %r was not evaluated', u)
            if u not in known_u:
                continue
            try:
                recs = [e.norm(i) for _, i in model.recommend(u, n=max(ks), novelty=case['novelty'], interaction_threshold=case['low'])]
            except ValueError:
                ctx.label('failing user')
                continue
            judged.append([recs, data, pos])
        check(set(users) <= set(per), 'users %r were evaluated, the test users are %r', users, list(per))
        if case['n_pos'] is not None:
            # the sampled positives show up in what the metric was given
            if not any(m is probe for m in ms):
                check(sorted(got) == sorted(m.name + '@%d' % k for m in ms for k in ks), 'reported %r', sorted(got))
                if first is None:
                    first = (got, None)
                else:
                    check(first[0] == got, 'the result depends on the number of threads: %r, %r', first[0], got)
                continue
            left = [d for d in probe.seen if d['k'] == max(ks)]
            check(len(left) == len(judged), '%d users were judged, expected %d', len(left), len(judged))
            fits = [[n for n, d in enumerate(left) if len(d['pos']) == case['n_pos'] and set(d['pos']) <= set(j[2]) and d['recs'] == j[0][:max(ks)]
                     and d['rel'] == {i: float(v) for i, v in j[1].items() if v and (i in d['pos'] or i in j[0])}] for j in judged]
            owner = matching(fits)
            check(owner is not None, 'the metrics were given %r, which are not %d positives of each of %r', left, case['n_pos'], judged)
            for n, d in enumerate(left):
                judged[owner[n]][2] = d['pos']
        for j in judged:
            j[1] = {i: j[1].get(i, 0) for i in set(j[0]) | set(j[2])}
            bests.append(e.best_items(j[1], j[2]))
        e.compare(ctx, got, probe, ms, ks, judged, bests)
        samples = sorted(repr((j[0], sorted(j[2], key=str))) for j in judged)
        if first is None:
            first = (got, samples)
        else:
            check(first[0] == got, 'the result depends on the number of threads: %r, %r', first[0], got)
            check(first[1] == samples, 'the sampled items depend on the number of threads: %r, %r', first[1], samples)
    if ds is not None:
        g.same_records(s.recs(ds), rows, 'the test dataset after the evaluation')
    g.same_records(s.recs(model.interaction_dataset), trained, 'the training dataset after the evaluation')
    if case['verbose']:
        ctx.label('verbose')
    ctx.nontrivial(len(judged) > 1 and any(j[0] for j in judged))


@st.composite
def gen_cov(draw):
    return {'pos': draw(st.integers(2, 4)), 'base': draw(st.integers(0, 10 ** 6)), 'backend': draw(st.sampled_from(g.BACKENDS)), 'str': draw(st.booleans())}


def fn_cov(ctx, case):
    """Every positive can be sampled."""
    g.set_opt('default')
    P = ['i%d' % i if case['str'] else i for i in range(case['pos'])]
    types = {'user': 'int', 'item': 'str' if case['str'] else 'int', 'interaction': 'num'}
    train = g.build(ctx, {'columns': ['user', 'item', 'interaction'], 'types': types, 'rows': [[2, P[0], 5.]] + [[1, i, 5.] for i in P]}, 'mem_df')
    test = g.build(ctx, {'columns': ['user', 'item', 'interaction'], 'types': types, 'rows': [[2, i, 5.] for i in P]}, case['backend'])
    model = e.RecordingModel({(2, i): 1. for i in P})
    model.fit(train)
    probe = e.Probe(mod=99)
    for j in range(60):
        recommendation_evaluation(model, test, n_pos_interactions=1, seed=case['base'] + j, interaction_threshold=3, verbose=False, max_concurrent_threads=1, metrics=[probe])
    seen = {i for d in probe.seen for i in d['pos']}
    check(len(probe.seen) == 60, '%d of 60 evaluations judged the user', len(probe.seen))
    check(seen == set(P), 'over 60 seeds the sampled items are %r of %r', sorted(seen, key=str), P)
    ctx.nontrivial()


def fn_bad(ctx, case):
    t = {'columns': ['user', 'item', 'interaction'], 'types': {'user': 'int', 'item': 'int', 'interaction': 'num'}, 'rows': case['rows']}
    model = e.RecordingModel({(r[0], r[1]): 1. for r in case['rows']})
    model.fit(g.build(ctx, t, 'mem_df'))
    v = case['v']
    kw = {'users': dict(n_test_users=-v), 'users0': dict(n_test_users=0), 'pos': dict(n_pos_interactions=-v), 'pos0': dict(n_pos_interactions=0),
          'k': dict(k=-v), 'k0': dict(k=0), 'klist': dict(k=[v, 0]), 'tuple': dict(metrics=(NDCG(),)), 'type': dict(metrics=[Precision(), e.NotAMetric()])}[case['bad']]
    check(raises(recommendation_evaluation, model, verbose=False, **kw), 'accepted invalid argument %r', kw)
    ctx.nontrivial()


BAD = st.sampled_from(['users', 'users0', 'pos', 'pos0', 'k', 'k0', 'klist', 'tuple', 'type'])
UNITS = [
    Unit('evaluation', e.cases(False), fn, 'train data x test data with unknown ids x prediction table with missing entries and failing users x options, cut-offs, metrics, seeds, threads, '
         'backends; each case is run with two thread counts; non-trivial: two or more users are judged', quick=3600, thorough=40000),
    Unit('sampling', gen_cov(), fn_cov, 'over 60 seeds, every positive is sampled; every case non-trivial', quick=40, thorough=400),
    Unit('refused', st.fixed_dictionaries({'rows': st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(1, 5)), min_size=1, max_size=4), 'bad': BAD, 'v': st.integers(1, 9)}),
         fn_bad, 'invalid arguments are refused; every case non-trivial', quick=160, thorough=800),
]
