"""Saved models: everything a model answers, and (run as a program) the answers of models loaded in another process."""
import json
import os
import sys


def plain(v):
    return v.item() if hasattr(v, 'item') else v


def called(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        if type(e).__name__ == 'NoAnswer':
            raise
        return ['raises', type(e).__name__]


def number(v):
    return v if v is None or isinstance(v, list) else float(v)


def ranking(v):
    return v if v and v[0] == 'raises' else [[float(s), plain(i)] for s, i in v]


def everything(model, users, items):
    """[(what, answer)], JSON-able."""
    out = [('statistics', [model.n_users, model.n_items, model.n_rows, number(model.min_interaction), number(model.max_interaction), bool(model.fitted)])]
    for u in users:
        for i in items:
            out.append((['predict', u, i], number(called(model.predict, u, i, skip_errors=True))))
        for novelty in (True, False):
            out.append((['rank', u, novelty], ranking(called(model.rank, u, list(items), novelty=novelty))))
            out.append((['recommend', u, novelty], ranking(called(model.recommend, u, novelty=novelty))))
        out.append((['recommend 2', u], ranking(called(model.recommend, u, n=2))))
        out.append((['threshold', u], ranking(called(model.recommend, u, interaction_threshold=1.5))))
    return json.loads(json.dumps(out))


def close(x, y):
    return abs(x - y) <= 1e-5 * max(1, abs(x), abs(y))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b) or a != a and b != b
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        if a and all(isinstance(r, list) and len(r) == 2 and isinstance(r[0], float) for r in a + b):
            # rankings: items of equal score may be in any order
            for (s, i), (t, j) in zip(a, b):
                if not close(s, t) or i != j and sum(close(s, r[0]) for r in a) < 2:
                    return False
            return True
        return all(same(x, y) for x, y in zip(a, b))
    return a == b


def difference(a, b):
    """The first differing answer, or None."""
    for (w, x), (_, y) in zip(a, b):
        if not same(x, y):
            return '%r: %r, then %r' % (w, x, y)
    return None if len(a) == len(b) else 'other answers'


if __name__ == '__main__':
    import core, deeplib, models  # noqa: the classes of the saved models
    from DRecPy.Recommender import RecommenderABC
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    res = [everything(RecommenderABC.load(p), spec['users'], spec['items']) for p in spec['paths']]
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)
