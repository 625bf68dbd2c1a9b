"""C20: KNN recommenders against the neighbourhood formula, over every parameter combination, storage and fit history."""
import itertools
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Recommender.Baseline import ItemKNN, UserKNN
import dsgen as g
from props.c19 import expected as similarity

ID = 'C20'
ASSUMPTIONS = ['no repeated (user, item) pairs, interactions other than 0 except with the cosine', 'neighbours whose similarities differ by less than 1e-9 may be taken in any order, and one whose similarity is that close to 0 may be left out']
FINDINGS = {}
SIMS = {'adjusted_cosine': 'adjusted_cosine_sim', 'cosine': 'cosine_sim', 'cosine_cf': 'cosine_sim_cf', 'jaccard': 'jaccard_sim', 'msd': 'msd', 'pearson': 'pearson_corr'}
EPS = 1e-9
VALUES = st.one_of(st.integers(1, 5), st.sampled_from([0.5, 1.5, 2.25, 3.5, 4.75, -1, -2.5]))


@st.composite
def params(draw):
    p = {'k': draw(st.sampled_from([1, 2, 2, 3, 3, 4, 20])), 'm': draw(st.sampled_from([0, 0, 1, 1, 2, 3, 5])), 'sim_metric': draw(st.sampled_from(sorted(SIMS))),
         'aggregation': draw(st.sampled_from(['mean', 'weighted_mean'])), 'shrinkage': draw(st.sampled_from([None, None, 0, 1, 5, 100])), 'use_averages': draw(st.booleans())}
    if draw(st.integers(0, 4)) == 0:
        for key in draw(st.lists(st.sampled_from(sorted(p)), max_size=5, unique=True)):
            del p[key]
    return p


@st.composite
def gen(draw):
    p = draw(params())
    zeros = draw(st.integers(0, 5)) == 0
    if zeros:  # an interaction of 0 says nothing about similarity in the cosine, and is one to aggregate like any other
        p['sim_metric'] = 'cosine'

    def table():
        inter = VALUES if draw(st.booleans()) else st.sampled_from([1, 2, 5])
        if zeros:
            inter = st.one_of(st.just(0), inter)
        full = draw(st.integers(0, 3)) > 0
        size = dict(min_rows=10, max_rows=30, min_distinct=4) if full else dict(min_rows=1, max_rows=12)
        return draw(g.tables(id_kinds=('int', 'small', 'plain'), unique_pairs=True, extra=False, interactions=inter, max_distinct=draw(st.sampled_from([4, 5, 6, 7])), **size))
    return {'table': table(), 'before': table() if draw(st.integers(0, 3)) == 0 else None, 'backend': draw(st.sampled_from(g.BACKENDS)),
            'other': draw(st.one_of(st.none(), st.none(), st.sampled_from(g.BACKENDS))), 'type': draw(st.sampled_from(['user', 'item'])), 'params': p,
            'novelty': draw(st.booleans()), 'n': draw(st.one_of(st.none(), st.integers(0, 6))), 'threshold': draw(st.sampled_from([None, None, 1, 2.5, 3])),
            'pick': draw(st.integers(0, 10 ** 6)), 'filter': draw(st.sampled_from([None, None, None, 'record', 'user', 'item'])), 'ids': draw(st.booleans())}


def options(rows, p, kind):
    """Per entity: the neighbours that are certain, the number of further ones, and the candidates for those: [(sim, other)], n, [...]."""
    k, m, shrink = p.get('k', 20), p.get('m', 5), p.get('shrinkage', 100)
    me, it = ('user', 'item') if kind == 'user' else ('item', 'user')
    ents, feats = list(dict.fromkeys(r[me] for r in rows)), list(dict.fromkeys(r[it] for r in rows))
    val = {(r[me], r[it]): F(r['interaction']) for r in rows}
    vec = {e: [val.get((e, f), F(0)) for f in feats] for e in ents}
    flat = [x for v in vec.values() for x in v]
    lo, hi = min(flat), max(flat)
    name = SIMS[p.get('sim_metric', 'adjusted_cosine')]
    sim = {}
    for a, b in itertools.combinations(ents, 2):
        co = sum(1 for f in feats if (a, f) in val and (b, f) in val)
        s = similarity(name, vec[a], vec[b], lo, hi)
        if m > 0 and co < m:
            s = 0
        elif shrink is not None:
            s *= co / (co + shrink + 1e-6)
        sim[a, b] = sim[b, a] = s
    out = {}
    for a in ents:
        cand = sorted([(sim[a, b], ents.index(b), b) for b in ents if b != a and sim[a, b] > -EPS], key=lambda x: -x[0])
        strong = [c for c in cand if c[0] > EPS]
        weak = [c for c in cand if c[0] <= EPS]
        if len(strong) > k:
            edge = strong[k - 1][0]
            sure = [c for c in strong[:k] if c[0] > edge + EPS]
            maybe = [c for c in strong if abs(c[0] - edge) <= EPS]
            rest = [c for c in strong if c not in sure and c not in maybe and c[0] > edge]
            sure += rest
            out[a] = ([(c[0], c[2]) for c in sure], [[k - len(sure)], [(c[0], c[2]) for c in maybe]])
        else:
            out[a] = ([(c[0], c[2]) for c in strong], [list(range(0, min(len(weak), k - len(strong)) + 1)), [(c[0], c[2]) for c in weak]])
    return out, val


def possible(opt, val, p, other):
    """All the predictions the formula allows; None: no prediction. A list of values, or None if there are too many."""
    sure, (sizes, maybe) = opt
    agg = p.get('aggregation', 'weighted_mean')
    vals = []
    n = 0
    for size in sizes:
        for extra in itertools.combinations(maybe, size):
            n += 1
            if n > 300:
                return None
            got = [(s, float(val[b, other])) for s, b in sure + list(extra) if (b, other) in val]
            noisy = bool(extra) and extra[0][0] <= EPS
            if not got:
                vals.append('default')
            elif agg == 'mean':
                vals.append(sum(v for _, v in got) / len(got))
            elif noisy and all(s <= EPS for s, _ in got):
                lo, hi = min(v for _, v in got), max(v for _, v in got)
                vals.append((lo, hi))  # weights are rounding noise
            else:
                vals.append(sum(s * v for s, v in got) / sum(s for s, _ in got))
    return vals


def fits(v, opts):
    for o in opts:
        if isinstance(o, tuple):
            if v is not None and o[0] - 1e-6 <= v <= o[1] + 1e-6:
                return True
        elif o is None or v is None:
            if o is None and v is None:
                return True
        elif math.isclose(v, o, rel_tol=1e-6, abs_tol=1e-7):
            return True
    return False


def fn(ctx, case):
    g.set_opt('default')
    p, kind = dict(case['params']), case['type']
    cls = UserKNN if kind == 'user' else ItemKNN
    rows = g.model_rows(case['table'])
    ds = g.build(ctx, case['table'], case['backend'])
    drop = []
    if case['ids']:
        ds.assign_internal_ids()
    if case['filter'] and len(rows) > 3:
        one = rows[case['pick'] % len(rows)]
        drop = [one['rid']] if case['filter'] == 'record' else [r['rid'] for r in rows if r[case['filter']] == one[case['filter']]]
        drop = [] if len(drop) == len(rows) else drop
    if drop:
        ds = ctx.track(ds.drop(drop))
        rows = [r for r in rows if r['rid'] not in drop]
        ctx.label('filtered dataset')
    model = cls(verbose=False, **p)
    check(raises(model.predict, rows[0]['user'], rows[0]['item']), 'predictions before fitting')
    if case['before']:
        model.fit(g.build(ctx, case['before'], case['backend']))
        ctx.label('fitted before')
    model.fit(ds)
    users, items = list(dict.fromkeys(r['user'] for r in rows)), list(dict.fromkeys(r['item'] for r in rows))
    opts, val = options(rows, p, kind)
    have = {(r['user'], r['item']) for r in rows}
    average = {i: sum(r['interaction'] for r in rows if r['item'] == i) / sum(1 for r in rows if r['item'] == i) for i in items} if kind == 'user' else \
              {u: sum(r['interaction'] for r in rows if r['user'] == u) / sum(1 for r in rows if r['user'] == u) for u in users}
    preds, scored = {}, 0
    for u in users:
        for i in items:
            v = model.predict(u, i, skip_errors=True)
            v = None if v is None else float(v)
            preds[u, i] = v
            check((v is None) == raises(model.predict, u, i), 'predict(%r, %r) = %r', u, i, v)
            me, other = (u, i) if kind == 'user' else (i, u)
            want = possible(opts[me], val, p, other)
            if want is None:
                ctx.label('many ties')
                continue
            default = average[other] if p.get('use_averages', False) else None
            want = [default if isinstance(w, str) else w for w in want]
            check(fits(v, want), 'predict(%r, %r) = %r, expected one of %r; neighbours %r', u, i, v, want[:4], opts[me])
            scored += v is not None
    thr, n = case['threshold'], case['n']
    for u in users:
        todo = [i for x, i in enumerate(items) if (case['pick'] >> x) % 3] or items
        sets = {'rank': [i for i in todo if not (case['novelty'] and (u, i) in have)], 'recommend': [i for i in items if not (case['novelty'] and (u, i) in have)]}
        for how in ('rank', 'recommend'):
            lim = n
            if how == 'rank':
                lim = None if n is None else min(n, len(todo))
                got = model.rank(u, list(todo), novelty=case['novelty'], **({} if lim is None else {'n': lim}))
            else:
                got = model.recommend(u, n=n, novelty=case['novelty'], interaction_threshold=thr)
            want = {i: preds[u, i] for i in sets[how] if preds[u, i] is not None}
            scores = sorted(want.values(), reverse=True)[:lim if lim is not None else None]
            if how == 'recommend' and thr is not None:
                scores = [s for s in scores if s >= thr]
            got = [(float(s), i.item() if hasattr(i, 'item') else i) for s, i in got]
            check([s for s, _ in got] == scores, '%s of user %r gave the scores %r, the predictions are %r', how, u, got, want)
            check(len({i for _, i in got}) == len(got) and all(want.get(i) == s for s, i in got), '%s of user %r gave %r, the predictions are %r', how, u, got, want)
    if case['other'] not in (None, case['backend']):
        m2 = cls(verbose=False, **p)
        d2 = g.build(ctx, case['table'], case['other'])
        if len(rows) < len(case['table']['rows']):
            d2 = ctx.track(d2.drop(drop))
        m2.fit(d2)
        for (u, i), v in preds.items():
            w = m2.predict(u, i, skip_errors=True)
            check(v == w, 'predict(%r, %r) is %r and %r, depending on the storage', u, i, v, w)
        ctx.label('two storages')
    ctx.label(p.get('sim_metric', 'default'))
    ctx.nontrivial(scored > 3)


def fn_bad(ctx, case):
    cls = UserKNN if case['type'] == 'user' else ItemKNN
    check(raises(cls, verbose=False, **{case['what']: case['name']}), 'accepted %s %r', case['what'], case['name'])
    ctx.nontrivial()


UNITS = [
    Unit('formula', gen(), fn, 'datasets x user/item KNN x neighbours, co-rating minimum, similarity, aggregation, shrinkage, averages x storage x fit history; every (user, item) pair is predicted and '
         'every user ranked; non-trivial: more than 3 predictions exist', quick=4400, thorough=50000),
    Unit('refused', st.fixed_dictionaries({'type': st.sampled_from(['user', 'item']), 'what': st.sampled_from(['sim_metric', 'aggregation']),
                                           'name': st.sampled_from(['', 'cosin', 'max', 'median', 'COSINE', 'weighted'])}), fn_bad,
         'unknown similarities and aggregations are refused; every case non-trivial', quick=24, thorough=24),
]
