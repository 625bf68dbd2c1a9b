"""C16: error metrics and predictive evaluation."""
import math

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Evaluation.Metrics import MAE, MSE, RMSE, PredictiveMetricABC
from DRecPy.Evaluation.Processes import predictive_evaluation
import dsgen as g
from models import TableModel

ID = 'C16'
ASSUMPTIONS = ['at least one prediction is counted']
FINDINGS = {}
VALUES = st.one_of(st.integers(-20, 20).map(lambda x: x / 4), st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: round(x, 3)))


@st.composite
def gen_m(draw):
    n = draw(st.integers(1, 12))
    return {'true': draw(st.lists(VALUES, min_size=n, max_size=n)), 'pred': draw(st.lists(VALUES, min_size=n, max_size=n))}


def errors(t, p):
    d = [a - b for a, b in zip(t, p)]
    mse = math.fsum(x * x for x in d) / len(d)
    return {'MSE': mse, 'RMSE': math.sqrt(mse), 'MAE': math.fsum(abs(x) for x in d) / len(d)}


def fn_m(ctx, case):
    t, p = case['true'], case['pred']
    want = errors(t, p)
    for m in (MSE(), RMSE(), MAE()):
        got = float(m(list(t), list(p)))
        check(math.isclose(got, want[m.name], rel_tol=1e-9, abs_tol=1e-9), '%s = %r, expected %r', m.name, got, want[m.name])
    ctx.nontrivial(len(t) > 1 and t != p)


@st.composite
def gen(draw):
    t = draw(g.tables(max_rows=12, wide=g.FINE, id_kinds=('int', 'small', 'plain'), extra=draw(st.booleans())))
    rows = g.model_rows(t)
    users, items = sorted({r['user'] for r in rows}, key=str), sorted({r['item'] for r in rows}, key=str)
    test = None
    if draw(st.integers(0, 3)):
        du = users + (['new'] if isinstance(users[0], str) else [99999])
        di = items + (['new'] if isinstance(items[0], str) else [99999])
        tests = draw(st.lists(st.tuples(st.sampled_from(du), st.sampled_from(di), st.integers(0, 5).map(float)), min_size=1, max_size=10))
        test = {'columns': ['user', 'item', 'interaction'], 'types': t['types'], 'rows': [list(r) for r in tests]}
    preds = []
    for u in users:
        for i in items:
            v = draw(st.one_of(st.none(), st.just('raise'), st.integers(-8, 24).map(lambda x: x / 4), st.integers(0, 24).map(lambda x: x / 4)))
            if v is not None:
                preds.append([u, i, v])
    return {'table': t, 'test': test, 'preds': preds, 'backend': draw(st.sampled_from(g.BACKENDS)), 'tbackend': draw(st.sampled_from(g.BACKENDS)),
            'none': draw(st.booleans()), 'n': draw(st.one_of(st.none(), st.integers(1, 12))), 'skip': draw(st.integers(0, 3)) > 0,
            'metrics': draw(st.sampled_from([None, ['MAE'], ['RMSE', 'MAE', 'MSE'], ['MSE'], ['MAE', 'W1'], ['W0', 'W2', 'MSE', 'W1']])), 'verbose': draw(st.booleans())}


class Within(PredictiveMetricABC):
    """A user's metric with a parameter: the fraction of predictions off by at most that much."""
    def __init__(self, tol):
        super().__init__()
        self.tol = tol

    def __call__(self, y_true, y_pred):
        return sum(abs(a - b) <= self.tol for a, b in zip(y_true, y_pred)) / len(y_true)


METRICS = {'MAE': MAE, 'MSE': MSE, 'RMSE': RMSE, 'W0': lambda: Within(0), 'W1': lambda: Within(1), 'W2': lambda: Within(2)}


def fn(ctx, case):
    g.set_opt('default')
    train = g.build(ctx, case['table'], case['backend'])
    table = {(u, i): v for u, i, v in case['preds']}
    model = TableModel(table)
    model.fit(train)
    t = case['test'] or case['table']
    ds = g.build(ctx, t, case['tbackend']) if case['test'] else None
    rows = g.model_rows(t)
    limit = len(rows) if case['n'] is None else min(case['n'], len(rows))
    yt, yp, failing = [], [], False
    for r in rows:
        if len(yt) >= limit:
            break
        v = table.get((r['user'], r['item']))
        if not isinstance(v, float) and not isinstance(v, int):
            failing = True
            if not case['none']:
                continue
            v = 0
        yt.append(r['interaction'])
        yp.append(v)
    kw = {} if case['metrics'] is None else {'metrics': [METRICS[m]() for m in case['metrics']]}
    call = lambda: predictive_evaluation(model, ds, count_none_predictions=case['none'], n_test_predictions=case['n'],
                                         skip_errors=case['skip'], verbose=case['verbose'], **kw)
    if not case['skip'] and failing:
        check(raises(call), 'errors were skipped although skip_errors is False')
        ctx.label('error reported')
        return
    if not yt:
        return
    got = call()
    want = errors(yt, yp)
    want.update({'W%d' % n: sum(abs(a - b) <= n for a, b in zip(yt, yp)) / len(yt) for n in range(3)})
    names = case['metrics'] or ['RMSE', 'MSE']
    # metrics of the same class are told apart by what follows the name
    have, exp = {}, {}
    for name in names:
        exp.setdefault('Within' if name[0] == 'W' else name, []).append(want[name])
    for key, v in got.items():
        have.setdefault('Within' if key.startswith('Within') else key, []).append(v)
    check({n: len(v) for n, v in have.items()} == {n: len(v) for n, v in exp.items()} and all(n in got for n in exp), 'metric names %r', got)
    for m in exp:
        for x, y in zip(sorted(have[m]), sorted(exp[m])):
            check(abs(x - y) <= 0.5001e-4 and round(x, 4) == x, '%s = %r, expected %r', m, sorted(have[m]), sorted(exp[m]))
    if len(exp) < len(names):
        ctx.label('metrics of the same name')
    ctx.label('none counted' if case['none'] else 'none skipped', 'limited' if limit < len(rows) else 'all')
    ctx.nontrivial(len(yt) > 1 and want['MSE'] > 0)


class BadMetric:
    name = 'bad'


def fn_bad(ctx, case):
    t = {'columns': ['user', 'item', 'interaction'], 'types': {'user': 'int', 'item': 'int', 'interaction': 'num'}, 'rows': case['rows']}
    model = TableModel({(r[0], r[1]): 1. for r in case['rows']})
    model.fit(g.build(ctx, t, 'mem_df'))
    k = case['bad']
    kw = {'n': dict(n_test_predictions=-case['v']), 'zero': dict(n_test_predictions=0), 'tuple': dict(metrics=(MSE(),)),
          'type': dict(metrics=[MSE(), BadMetric()])}[k]
    check(raises(predictive_evaluation, model, verbose=False, **kw), 'accepted invalid argument %r', kw)
    ctx.nontrivial()


UNITS = [
    Unit('metrics', gen_m(), fn_m, 'pairs of value lists; non-trivial: two or more different values', quick=4000, thorough=60000),
    Unit('evaluation', gen(), fn, 'train data x test data with unknown ids x prediction table with missing and raising entries x options x backends; '
         'non-trivial: two or more counted predictions with a non-zero error', quick=4000, thorough=60000),
    Unit('refused', st.fixed_dictionaries({'rows': st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(1, 5)), min_size=1, max_size=4),
                                           'bad': st.sampled_from(['n', 'zero', 'tuple', 'type']), 'v': st.integers(1, 9)}),
         fn_bad, 'invalid arguments are refused; every case non-trivial', quick=160, thorough=800),
]
