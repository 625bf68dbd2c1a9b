"""C15: ranking metrics equal their textbook definitions for every ranking, relevance set and cut-off."""
import copy
import math

from hypothesis import strategies as st

from core import Unit, check
from DRecPy.Evaluation.Metrics import (DCG, NDCG, HitRatio, ReciprocalRank, Recall, Precision, FScore, AveragePrecision)

ID = 'C15'
ASSUMPTIONS = ['recommendation and relevance lists hold distinct items', 'at least one recommendation, one relevant item and a '
               'positive best gain where the metric divides by them']
FINDINGS = {}


@st.composite
def gen(draw):
    kind = draw(st.sampled_from(['int', 'str']))
    pool = list(range(-2, 14)) if kind == 'int' else ['a', 'b', 'B', 'x y', '1', '2', '10', 'é', 'q', 'w', 'zz', 'k1']
    recs = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=10, unique=True))
    rel = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=10, unique=True))
    gains = [[i, draw(st.one_of(st.integers(0, 5), st.integers(0, 20).map(lambda x: x / 4)))] for i in sorted(set(recs) | set(rel), key=str)]
    return {'recs': recs, 'rel': rel, 'gains': gains, 'k': draw(st.one_of(st.none(), st.integers(1, 12))),
            'beta': draw(st.sampled_from([0.25, 0.5, 1, 2, 3])), 'strong': draw(st.booleans()), 'best': draw(st.sampled_from(pool))}


def close(a, b):
    return math.isclose(float(a), b, rel_tol=1e-9, abs_tol=1e-12)


def fn(ctx, case):
    recs, rel, k, beta = case['recs'], case['rel'], case['k'], case['beta']
    gains = {i: g for i, g in case['gains']}
    top = [r for j, r in enumerate(recs) if k is None or j < k]
    hits = [r for r in top if r in rel]
    before = copy.deepcopy((recs, rel, gains))
    kw = {} if k is None else {'k': k}

    def eq(name, got, want):
        check(close(got, want), '%s = %r, expected %r', name, got, want)

    p, r = len(hits) / len(top), len(hits) / len(rel)
    eq('precision', Precision()(recs, relevant_recommendations=rel, **kw), p)
    eq('recall', Recall()(recs, relevant_recommendations=rel, **kw), r)
    eq('hit ratio', HitRatio()(recs, relevant_recommendations=rel, **kw), r)
    f = 0 if not hits else (1 + beta ** 2) * p * r / (beta ** 2 * p + r)
    eq('f-score', FScore(beta=beta)(recs, relevant_recommendations=rel, **kw), f)
    if beta == 1:
        eq('f-score', FScore()(recs, relevant_recommendations=rel, **kw), 2 * len(hits) / (len(top) + len(rel)))
    ap, seen = 0, 0
    for pos, x in enumerate(top, 1):
        if x in rel:
            seen += 1
            ap += seen / pos
    eq('average precision', AveragePrecision()(recs, relevant_recommendations=rel, **kw), ap / (len(rel) if k is None else min(len(rel), k)))
    best = case['best']
    eq('reciprocal rank', ReciprocalRank()(recs, relevant_recommendation=best, **kw), 1 / (top.index(best) + 1) if best in top else 0)

    for strong in (True, False):
        gain = (lambda v: 2.0 ** v - 1) if strong else float
        dcg = sum(gain(gains[x]) / math.log2(pos + 1) for pos, x in enumerate(top, 1))
        ideal = sorted(gains.values(), reverse=True)[:k if k is not None else len(gains)]
        idcg = sum(gain(v) / math.log2(pos + 1) for pos, v in enumerate(ideal, 1))
        eq('dcg', DCG(strong_relevancy=strong)(recs, relevancies=gains, **kw), dcg)
        if idcg > 0:
            n = NDCG(strong_relevancy=strong)(recs, relevancies=gains, **kw)
            eq('ndcg', n, dcg / idcg)
            check(-1e-9 <= n <= 1 + 1e-9, 'ndcg %r is not in [0, 1]', n)
            perfect = sorted(gains, key=lambda x: -gains[x])
            eq('ndcg of the best ranking', NDCG(strong_relevancy=strong)(perfect, relevancies=gains, **kw), 1)
        if strong:
            eq('default dcg', DCG()(recs, relevancies=gains, **kw), dcg)
            if idcg > 0:
                eq('default ndcg', NDCG()(recs, relevancies=gains, **kw), dcg / idcg)
    for m in (Precision(), Recall(), HitRatio(), FScore(), AveragePrecision(), ReciprocalRank(), DCG(), NDCG()):
        check(m(recs, **kw) == 0, '%s without ground truth is not 0', m.name)
        check(m.name == type(m).__name__, 'metric name')
    check(before == (recs, rel, gains), 'a metric changed its arguments')
    ctx.label('cut' if k is not None and k < len(recs) else 'whole', 'no hits' if not hits else 'hits')
    ctx.nontrivial(0 < len(hits) and len(recs) > 1)


UNITS = [Unit('metrics', gen(), fn, 'ranking x relevance set x gains x cut-off x variant; non-trivial: a hit in a ranking of two or more items',
              quick=16000, thorough=300000)]
