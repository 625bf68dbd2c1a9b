"""Shared parts of the ranking and recommendation evaluation checks: cases, a model that records what it is asked, a metric that
records what it is given."""
import threading
import time

import matplotlib
matplotlib.use('Agg')
from hypothesis import strategies as st

from core import check
from DRecPy.Evaluation.Metrics import (AveragePrecision, DCG, FScore, HitRatio, NDCG, Precision, RankingMetricABC, Recall, ReciprocalRank)
import dsgen as g
from models import TableModel

_sleep = time.sleep
_lock = threading.Lock()
BUILTIN = {'Precision': Precision, 'Recall': Recall, 'HitRatio': HitRatio, 'NDCG': NDCG, 'DCG': DCG, 'FScore': FScore, 'ReciprocalRank': ReciprocalRank,
           'AveragePrecision': AveragePrecision}
VARIANTS = {'FScore:2': lambda: FScore(beta=2), 'FScore:.5': lambda: FScore(beta=.5), 'DCG:weak': lambda: DCG(strong_relevancy=False), 'NDCG:weak': lambda: NDCG(strong_relevancy=False)}
BUILTIN.update(VARIANTS)


class RecordingModel(TableModel):
    """Notes every ranking and recommendation it is asked for."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.asked = None

    def rank(self, user_id, item_ids, **kwds):
        item_ids = list(item_ids)
        if self.asked is not None:
            with _lock:
                self.asked.append((user_id, list(item_ids), dict(kwds)))
        return super().rank(user_id, item_ids, **kwds)

    def recommend(self, user_id, *a, **kwds):
        if self.asked is not None:
            with _lock:
                self.asked.append((user_id, a, dict(kwds)))
        return super().recommend(user_id, *a, **kwds)


class Probe(RankingMetricABC):
    """Depends on everything a metric may ask for; undefined for some lists; may take a while, letting other threads run."""
    def __init__(self, name='Probe', pause=0, mod=7):
        super().__init__()
        self.name, self.pause, self.mod = name, pause, mod
        self.seen = []

    def __call__(self, recommendations, k=None, relevancies=None, relevant_recommendations=None, relevant_recommendation=None):
        best = relevant_recommendation
        rel = {norm(i): float(v) for i, v in relevancies.items()}
        with _lock:
            self.seen.append(dict(k=k, recs=[norm(i) for i in list(recommendations)[:k]], pos=sorted(map(norm, relevant_recommendations), key=str),
                                  rel={i: v for i, v in rel.items() if v}, best=None if best is None else rel.get(norm(best)), named=best is None or norm(best) in [norm(i) for i in relevant_recommendations]))
        if self.pause:
            _sleep(self.pause)
        v = len(relevant_recommendations) * 3 + k
        for n, i in enumerate(list(recommendations)[:k]):
            v += (n + 1) * (1.25 + rel.get(norm(i), 0))
        if len(recommendations) % self.mod == self.mod - 1:
            raise ZeroDivisionError('undefined')
        return v


def norm(i):
    return i.item() if hasattr(i, 'item') else i


@st.composite
def cases(draw, ranking):
    full = draw(st.integers(0, 3)) > 0  # mostly: enough users and items
    size = dict(min_rows=8, max_rows=22, min_distinct=3) if full else dict(min_rows=2, max_rows=12)
    t = draw(g.tables(wide=g.FINE, id_kinds=('int', 'small', 'plain', 'str', 'ones'), unique_pairs=True, extra=draw(st.booleans()), max_distinct=draw(st.sampled_from([3, 4, 5, 6])), **size))
    rows = g.model_rows(t)
    users, items = sorted({r['user'] for r in rows}, key=str), sorted({r['item'] for r in rows}, key=str)
    test = None
    if draw(st.integers(0, 4)):
        du = users + (['new'] if isinstance(users[0], str) else [99999])
        di = items + (['new', 'newer'] if isinstance(items[0], str) else [99999, 99998])
        few = draw(st.booleans())
        pairs = [(u, i) for u in du for i in di]
        n = draw(st.integers(min(8, len(pairs)) if full else 1, min(20, len(pairs))))
        order = draw(st.permutations(pairs))[:n]
        val = st.sampled_from([1., 4., 5.] if few else [0., 1., 2., 2.5, 3., 4., 5., -1.])
        test = {'columns': ['user', 'item', 'interaction'], 'types': t['types'], 'rows': [[u, i, draw(val)] for u, i in order]}
    preds = []
    fail = draw(st.integers(0, 2)) == 0
    v = st.one_of(st.integers(-8, 24).map(lambda x: x / 4), st.integers(0, 24).map(lambda x: x / 4))
    if draw(st.booleans()):
        v = st.one_of(st.none(), v, v)
    for u in users:
        bad = fail and draw(st.integers(0, 2)) == 0
        for i in items:
            x = 'raise' if bad and draw(st.booleans()) else draw(v)
            if x is not None:
                preds.append([u, i, x])
    values = sorted({r[2] for r in test['rows']} if test else {r['interaction'] for r in rows})
    names = draw(st.one_of(st.just(None), st.lists(st.sampled_from(sorted(BUILTIN)), unique=True, max_size=4),
                           st.lists(st.sampled_from(['FScore', 'DCG', 'NDCG'] + sorted(VARIANTS)), unique=True, min_size=2, max_size=6)))
    case = {'table': t, 'test': test, 'preds': preds, 'backend': draw(st.sampled_from(g.BACKENDS)), 'tbackend': draw(st.sampled_from(g.BACKENDS)),
            'n_users': draw(st.one_of(st.none(), st.none(), st.integers(1, 6))), 'k': draw(st.one_of(st.integers(1, 6), st.lists(st.integers(1, 6), min_size=1, max_size=3, unique=True))),
            'thr': draw(st.one_of(st.none(), st.sampled_from(values))), 'mthr': draw(st.sampled_from([None, None, 2, 3.5])), 'n_pos': draw(st.sampled_from([None, None, None, 1, 2, 3])), 'novelty': draw(st.booleans()),
            'metrics': names, 'pause': draw(st.sampled_from([0, 0, 0.0005])), 'mod': draw(st.sampled_from([2, 3, 7])), 'seed': draw(st.integers(0, 1000)),
            'threads': draw(st.sampled_from([1, 2, 4, 8])), 'verbose': draw(st.integers(0, 5)) == 0, 'defaults': draw(st.integers(0, 3)) == 0}
    if ranking:
        case['n_neg'] = draw(st.sampled_from([None, 1, 2, 3, 4, 0.5, 1.0, 1.5]))
        case['gen'] = case['n_neg'] is not None and draw(st.integers(0, 2)) > 0
    else:
        case['low'] = draw(st.sampled_from([None, None, 0, 1.25, 3]))
    return case


def setup(ctx, case):
    g.set_opt('default')
    train = g.build(ctx, case['table'], case['backend'])
    table = {(u, i): v for u, i, v in case['preds']}
    kw = {} if case['mthr'] is None else {'interaction_threshold': case['mthr']}
    model = RecordingModel(table, **kw)
    model.fit(train)
    t = case['test'] or case['table']
    ds = g.build(ctx, t, case['tbackend']) if case['test'] else None
    rows = g.model_rows(t)
    thr = case['thr'] if case['thr'] is not None else case['mthr'] if case['mthr'] is not None else 1e-3
    per = {}
    for r in rows:
        per.setdefault(r['user'], {})[r['item']] = r['interaction']
    users = list(per)
    n = len(users) if case['n_users'] is None else min(case['n_users'], len(users))
    return model, ds, rows, thr, {u: per[u] for u in users[:n]}


def metrics_of(case):
    """The metrics argument (None: defaults) and the metrics that are averaged."""
    probe = Probe(pause=case['pause'], mod=case['mod'])
    if case['metrics'] is None and case['defaults']:
        return None, [Precision(), Recall(), HitRatio(), NDCG()], probe
    ms = [BUILTIN[n]() for n in case['metrics'] or []] + [probe]
    return ms, ms, probe


def apply(m, recs, k, rel, pos, best):
    if isinstance(m, Probe):
        return Probe(mod=m.mod)(recs, k=k, relevancies=rel, relevant_recommendations=pos, relevant_recommendation=best)
    if isinstance(m, (DCG, NDCG)):
        return m(recs, k=k, relevancies=rel)
    if isinstance(m, ReciprocalRank):
        return m(recs, k=k, relevant_recommendation=best)
    return m(recs, k=k, relevant_recommendations=pos)


def compare(ctx, got, probe, ms, ks, judged, bests):
    """`judged`: per evaluated user, (recommendations, relevancies, positives). Any of the best items may have been named, so a
    metric of the best item is compared only if there is one choice."""
    for r in judged:
        check(all(v is not None for v in r[1].values()), 'relevance')
    want = {}  # per metric name and cut-off: one value per metric of that name
    for m in ms:
        for k in ks:
            vals = []
            for (recs, rel, pos), best in zip(judged, bests):
                try:
                    vals.append(apply(m, list(recs), k, dict(rel), list(pos), best[0] if best else None))
                except Exception:
                    pass
            if isinstance(m, ReciprocalRank) and any(len(b) > 1 for b in bests):
                vals = None
            want.setdefault((m.name, k), []).append(None if vals is None else (sum(vals) / len(vals) if vals else 0))
    # metrics of the same class are told apart by what follows the name
    have, kinds = {}, sorted({m.name for m in ms}, key=len, reverse=True)
    for key, v in got.items():
        name, _, k = key.rpartition('@')
        kind = next((n for n in kinds if name.startswith(n)), None)
        check(kind is not None and k.isdigit(), 'reported %r, expected the metrics %r', sorted(got), sorted(want))
        have.setdefault((kind, int(k)), []).append(v)
    count = lambda d: {n: len(v) for n, v in d.items()}
    check(count(have) == count(want), 'reported %r, expected the metrics %r', sorted(got), count(want))
    check(all('%s@%d' % n in got for n in want), 'reported %r, expected the metrics %r', sorted(got), sorted(want))
    for n in want:
        if None in want[n]:
            continue
        for x, y in zip(sorted(have[n]), sorted(want[n])):
            check(abs(x - y) <= 0.5001e-4 and round(float(x), 4) == x, '%s@%d = %r, expected %r over %d users', n[0], n[1], sorted(have[n]), sorted(want[n]), len(judged))
        if len(want[n]) > 1:
            ctx.label('metrics of the same name')
    if any(m is probe for m in ms):
        exp = []
        for (recs, rel, pos), best in zip(judged, bests):
            for k in ks:
                exp.append(dict(k=k, recs=list(recs)[:k], pos=sorted(pos, key=str), rel={i: float(v) for i, v in rel.items() if v},
                                best=None if not best else float(rel[best[0]]), named=True))
        key = lambda d: repr((d['k'], d['recs'], d['pos'], sorted(d['rel'].items(), key=str), d['best'], d['named']))
        a, b = sorted(map(key, probe.seen)), sorted(map(key, exp))
        check(a == b, 'the metrics were given %r, expected %r', a, b)


def best_items(rel, pos):
    if not pos:
        return []
    top = max(rel[i] for i in pos)
    return [i for i in pos if rel[i] == top]


class NotAMetric:
    name = 'bad'
