"""C25: models saved to a file and loaded again, here or in another process."""
import gc
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from core import Unit, check, raises
import deeplib as d
import dsgen as g
import savelib as sl
from DRecPy.Recommender import RecommenderABC
from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
from models import TableModel

ID = 'C25'
ASSUMPTIONS = ['answers are equal up to 1e-5', 'the classes of the model are importable by the loading process', 'models and data are as for C22']
FINDINGS = {}
ALL = ('CDAE', 'CDAE', 'DMF', 'DMF', 'Caser', 'Caser', 'Bias', 'UserKNN', 'ItemKNN')
SOURCES = ['mem_df', 'mem_csv', 'db', 'sqlite', 'selected', 'db selected']


@st.composite
def one(draw, classes=ALL):
    return {'conf': draw(d.configs(classes)), 'source': draw(st.sampled_from(SOURCES)), 'copy': draw(st.booleans()), 'early': draw(st.integers(0, 3)) == 0, 'plain': draw(st.integers(0, 9)) == 0}


def dataset(ctx, table, source):
    if source == 'sqlite':
        p = ctx.path('in%d.sqlite' % len(os.listdir(ctx.dir)))
        first = g.build(ctx, table, 'db')
        first.save(p)
        first.close()
        return ctx.track(g.InteractionDataset(p, in_memory=False, verbose=False))
    ds = g.build(ctx, table, 'db' if source == 'db selected' else 'mem_df' if source == 'selected' else source)
    if 'selected' in source:
        ds = ctx.track(ds.select('interaction >= 0'))
        ctx.track(ds.interaction_dataset if hasattr(ds, 'interaction_dataset') else ds)
    return ds


def shut(ds):
    if hasattr(ds, 'close'):
        ds.close()


def fitted(ctx, case, table):
    rows = g.model_rows(table)
    ds = dataset(ctx, table, case['source'])
    if case['plain']:
        m = TableModel({(r['user'], r['item']): float(r['interaction']) + k for k, r in enumerate(rows)})
        m.fit(ds, copy_dataset=case['copy'])
        return m, ds
    kw = dict(case['conf']['fit'])
    if case['early'] and case['conf']['class'] not in ('UserKNN', 'ItemKNN'):
        kw.update(epochs=3, epoch_callback_fn=lambda m: {'a': 1.0}, epoch_callback_freq=1, early_stopping_rule=MaxValidationValueRule('a'), early_stopping_freq=1)
        ctx.label('early stopping')
    m = d.make(case['conf'])
    m.fit(ds, copy_dataset=case['copy'], **kw)
    return m, ds


@st.composite
def gen(draw):
    return {'table': draw(d.tables()), 'model': draw(one()), 'again': draw(st.booleans()), 'over': draw(st.booleans()), 'destroy': draw(st.sampled_from(['no', 'close', 'collect'])), 'refit': draw(st.integers(0, 2)) == 0,
            'file': draw(st.sampled_from(['keep', 'remove', 'overwrite'])), 'change': draw(st.booleans()), 'second': draw(d.tables()), 'opt': draw(st.sampled_from(['default', 'eager']))}


def fn(ctx, case):
    g.set_opt(case['opt'])
    rows = g.model_rows(case['table'])
    users, items = list(dict.fromkeys(r['user'] for r in rows)) + ['nobody'], list(dict.fromkeys(r['item'] for r in rows)) + ['nothing']
    if not isinstance(rows[0]['user'], str):
        users[-1] = 12345
    if not isinstance(rows[0]['item'], str):
        items[-1] = 12345
    folder = os.environ['DATA_FOLDER']
    m, ds = fitted(ctx, case['model'], case['table'])
    ctx.track(m.interaction_dataset)
    content = [g.norm_rec(r) for r in m.interaction_dataset.values_list()]
    before = sl.everything(m, users, items)
    p = ctx.path('the model')
    if case['over']:
        RecommenderABC.save(TableModel({}), p)
    m.save(p)
    check(sl.difference(before, sl.everything(m, users, items)) is None, 'saving changed the model: %s', sl.difference(before, sl.everything(m, users, items)))
    kind = type(m)
    if case['destroy'] != 'no':
        shut(m.interaction_dataset)
        shut(ds)
        ctx._closers.clear()
        if case['destroy'] == 'collect':
            m = ds = None
            gc.collect()
        ctx.label('original gone')
    files = set(os.listdir(folder))
    n = RecommenderABC.load(p)
    ctx.track(n.interaction_dataset)
    check(type(n) is kind, 'another class')
    diff = sl.difference(before, sl.everything(n, users, items))
    check(diff is None, 'after loading, %s', diff)
    got = [g.norm_rec(r) for r in n.interaction_dataset.values_list()]
    g.same_records(got, content, 'the dataset of the loaded model')
    if case['again']:
        q = ctx.path('again')
        n.save(q)
        o = kind.load(q)
        ctx.track(o.interaction_dataset)
        diff = sl.difference(before, sl.everything(o, users, items))
        check(diff is None, 'after the second round trip, %s', diff)
        ctx.label('twice')
        shut(o.interaction_dataset)
        o = None
    if case['refit'] and not case['model']['plain']:
        # the models are independent
        other = kind.load(p)
        ctx.track(other.interaction_dataset)
        shut(other.interaction_dataset)
        other.fit(g.build(ctx, case['second'], 'mem_df'), **case['model']['conf']['fit'])
        diff = sl.difference(before, sl.everything(n, users, items))
        check(diff is None, 'after fitting another model loaded from the same file, %s', diff)
        if m is not None and case['destroy'] == 'no':
            diff = sl.difference(before, sl.everything(m, users, items))
            check(diff is None, 'after fitting a model loaded from its file, %s', diff)
        fresh = d.make(case['model']['conf'])
        fresh.fit(g.build(ctx, case['second'], 'mem_df'), **case['model']['conf']['fit'])
        second = g.model_rows(case['second'])
        u2, i2 = list(dict.fromkeys(r['user'] for r in second)), list(dict.fromkeys(r['item'] for r in second))
        diff = sl.difference(sl.everything(fresh, u2, i2), sl.everything(other, u2, i2))
        check(diff is None, 'a loaded model fitted again differs from a new one: %s', diff)
        ctx.label('fitted again')
    # a loaded model no longer depends on its file
    if case['file'] == 'remove':
        os.remove(p)
    elif case['file'] == 'overwrite':
        with open(p, 'r+b') as f:
            f.write(b'\x01' * os.path.getsize(p))
    if case['file'] != 'keep':
        diff = sl.difference(before, sl.everything(n, users, items))
        check(diff is None, 'when its file is gone (%s), %s', case['file'], diff)
        ctx.label('file gone')
    if case['change']:
        n.interaction_dataset.apply('interaction', lambda x: x + 2)
        g.same_records(n.interaction_dataset.values_list(), [dict(r, interaction=r['interaction'] + 2) for r in content], 'the dataset of the loaded model, changed')
        if m is not None and case['destroy'] == 'no':
            g.same_records(m.interaction_dataset.values_list(), content, 'the dataset of the original model, after changing that of the loaded one')
            ctx.label('changed')
    shut(n.interaction_dataset)
    n = o = None
    gc.collect()
    left = {f for f in set(os.listdir(folder)) - files if not f.startswith('tmp_files.txt')}
    check(not left or case['refit'], 'left in the data folder: %r', sorted(left))
    ctx.label('plain' if case['model']['plain'] else case['model']['conf']['class'], case['model']['source'])
    ctx.nontrivial(len({json.dumps(a) for _, a in before}) > 3)


@st.composite
def gen_process(draw):
    return {'table': draw(d.tables()), 'models': draw(st.lists(one(), min_size=3, max_size=6)), 'folder': draw(st.booleans())}


def fn_process(ctx, case):
    g.set_opt('default')
    rows = g.model_rows(case['table'])
    users, items = list(dict.fromkeys(r['user'] for r in rows)), list(dict.fromkeys(r['item'] for r in rows))
    paths, want = [], []
    for k, c in enumerate(case['models']):
        m, ds = fitted(ctx, c, case['table'])
        want.append(sl.everything(m, users, items))
        paths.append(ctx.path('m%d' % k))
        m.save(paths[-1])
        shut(m.interaction_dataset)
        shut(ds)
    with open(ctx.path('spec'), 'w') as f:
        json.dump({'users': users, 'items': items, 'paths': paths}, f)
    data = ctx.path('data')
    os.makedirs(data)
    pbt = os.path.dirname(os.path.abspath(sl.__file__))
    env = dict(os.environ, DATA_FOLDER=data, PYTHONPATH=os.pathsep.join([pbt] + [x for x in sys.path if x]))
    r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(pbt, 'savelib.py'), ctx.path('spec'), ctx.path('out')], env=env, cwd=ctx.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=140)
    check(r.returncode == 0, 'loading in another process: %s', r.stdout[-600:])
    with open(ctx.path('out')) as f:
        got = json.load(f)
    for c, a, b in zip(case['models'], want, got):
        diff = sl.difference(a, b)
        check(diff is None, 'in another process, %s', diff)
        ctx.label('plain' if c['plain'] else c['conf']['class'])
    ctx.nontrivial()


def gen_unfitted():
    return st.fixed_dictionaries({'conf': d.configs(ALL), 'table': d.tables(), 'backend': st.sampled_from(g.BACKENDS)})


def fn_unfitted(ctx, case):
    """A model saved before it is fitted can be fitted after loading."""
    g.set_opt('default')
    rows = g.model_rows(case['table'])
    users, items = list(dict.fromkeys(r['user'] for r in rows)), list(dict.fromkeys(r['item'] for r in rows))
    m = d.make(case['conf'])
    p = ctx.path('m')
    m.save(p)
    n = RecommenderABC.load(p)
    check(raises(n.predict, users[0], items[0]), 'a model that was not fitted predicts')
    m.fit(g.build(ctx, case['table'], case['backend']), **case['conf']['fit'])
    n.fit(g.build(ctx, case['table'], case['backend']), **case['conf']['fit'])
    diff = sl.difference(sl.everything(m, users, items), sl.everything(n, users, items))
    check(diff is None, 'fitted after loading, %s', diff)
    ctx.label(case['conf']['class'])
    ctx.nontrivial()


UNITS = [
    Unit('round trip', gen(), fn, 'every recommender x parameters x source of its dataset x what happens to the original x second round trip and refits; non-trivial: answers differ', quick=144, thorough=3500, budget_quick=100),
    Unit('other process', gen_process(), fn_process, '3 to 6 fitted models per process; every case non-trivial', quick=8, thorough=120, budget_quick=100),
    Unit('not fitted', gen_unfitted(), fn_unfitted, 'saved before the fit; every case non-trivial', quick=24, thorough=600),
]
