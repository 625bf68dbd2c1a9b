"""C22: training is reproducible by seed, whatever the storage, the other randomness in the process and the fit history; the dataset is left as it was."""
import random

import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from core import Unit, check
import deeplib as d
import dsgen as g

ID = 'C22'
ASSUMPTIONS = ['scores of two trainings are equal up to 1e-5', 'as for C21, for Caser each user has at least L records', 'there are pairs without interaction to draw negatives from']
FINDINGS = {}
ALL = ('CDAE', 'DMF', 'Caser', 'UserKNN', 'ItemKNN')


@st.composite
def gen(draw):
    return {'table': draw(d.tables()), 'before': draw(d.tables()) if draw(st.integers(0, 2)) == 0 else None, 'conf': draw(d.configs(('CDAE', 'CDAE', 'DMF', 'DMF', 'Caser', 'Caser', 'UserKNN', 'ItemKNN'))),
            'backend': draw(st.sampled_from(g.BACKENDS)), 'other': draw(st.sampled_from(g.BACKENDS)), 'noise': draw(st.integers(0, 10 ** 6)), 'copy': draw(st.booleans()),
            'opt': draw(st.sampled_from(['default', 'eager'])), 'derived': draw(st.sampled_from([None, 'ids', 'more', 'more']))}


def everything(ds):
    return [g.norm_rec(r) for r in ds.values_list()], list(ds.columns), ds.has_internal_ids, len(ds)


def derived(ctx, case):
    """The same records; perhaps left over from a larger dataset that already had internal ids."""
    t = case['table']
    if case['derived'] != 'more':
        ds = g.build(ctx, t, case['other'])
        if case['derived']:
            ds.assign_internal_ids()
        return ds
    u, i, x, _ = t['rows'][0]
    new = (lambda v, k: 'z%d' % k if isinstance(v, str) else 1000 + k)
    extra = [[new(u, 0), i, x, 7], [u, new(i, 0), 9, 3], [new(u, 1), new(i, 1), 0.5, 1]]
    ds = g.build(ctx, dict(t, rows=extra[:2] + t['rows'] + extra[2:]), case['other'])
    ds.assign_internal_ids()
    ctx.label('derived dataset')
    return ctx.track(ds.drop([0, 1, len(t['rows']) + 2]))


def fn(ctx, case):
    g.set_opt(case['opt'])
    rows = g.model_rows(case['table'])
    users, items = list(dict.fromkeys(r['user'] for r in rows)), list(dict.fromkeys(r['item'] for r in rows))
    fit = case['conf']['fit']
    random.seed(1)
    ds = g.build(ctx, case['table'], case['backend'])
    before = everything(ds)
    m = d.make(case['conf'])
    m.fit(ds, copy_dataset=case['copy'], **fit)
    ctx.track(m.interaction_dataset)
    first = d.answers(m, users, items)
    if case['copy']:
        check(everything(ds) == before, 'the dataset of the caller has changed although a copy was asked for')
        check(m.interaction_dataset is not ds, 'no copy was made')
        ctx.label('copied')
    else:
        check(m.interaction_dataset is ds, 'the dataset was copied')
        check(ds.has_internal_ids, 'no internal ids')
    recs = [{k: v for k, v in g.norm_rec(r).items() if k not in ('uid', 'iid')} for r in ds.values_list()]
    g.same_records(recs, rows, 'the dataset after the fit')
    vals = [r['interaction'] for r in rows]
    low = 0 if min(vals) == 1 else min(vals)
    check((m.min_interaction, m.max_interaction, m.n_users, m.n_items, m.n_rows) == (low, max(vals), len(users), len(items), len(rows)), 'statistics %r',
          (m.min_interaction, m.max_interaction, m.n_users, m.n_items, m.n_rows))
    # again: other storage, other random state, perhaps fitted before on other data
    other = d.make(case['conf'])
    if case['before']:
        old = g.build(ctx, case['before'], case['other'])
        other.fit(old, **fit)
        ctx.label('fitted before')
    random.seed(case['noise'])
    np.random.seed(case['noise'])
    tf.random.set_seed(case['noise'])
    tf.random.uniform([2])
    state = random.getstate()
    other.fit(derived(ctx, case), **fit)
    second = d.answers(other, users, items)
    check(d.close(first, second), 'two trainings with equal seeds differ: %r, %r', first, second)
    # and the first one, fitted again
    if case['noise'] % 3 == 0:
        m.fit(ds, **fit)
        check(d.close(d.answers(m, users, items), first), 'fitting again changed the answers')
        ctx.label('fitted again')
    ctx.label(case['conf']['class'], 'two storages' if case['backend'] != case['other'] else 'same storage')
    ctx.nontrivial(len({s for l in first.values() for s, _ in l}) > 1)


@st.composite
def gen_seed(draw):
    return {'table': draw(d.tables()), 'conf': draw(d.configs()), 'base': draw(st.integers(0, 1000))}


def fn_seed(ctx, case):
    """Different seeds lead to different models."""
    g.set_opt('default')
    rows = g.model_rows(case['table'])
    users, items = list(dict.fromkeys(r['user'] for r in rows)), list(dict.fromkeys(r['item'] for r in rows))
    ds = g.build(ctx, case['table'], 'mem_df')
    seen = []
    for k in range(25):
        m = d.make(case['conf'], seed=case['base'] + k)
        m.fit(ds, **case['conf']['fit'])
        seen.append(d.answers(m, users, items))
        if not d.close(seen[0], seen[-1]):
            break
    else:
        check(False, 'the seed makes no difference')
    ctx.nontrivial()


UNITS = [
    Unit('reproducible', gen(), fn, 'every recommender x parameters x dataset x storages x unrelated randomness x fit history; non-trivial: scores differ between items', quick=320, thorough=4000, budget_quick=100),
    Unit('seeds', gen_seed(), fn_seed, 'the seed matters; every case non-trivial', quick=24, thorough=160),
]
