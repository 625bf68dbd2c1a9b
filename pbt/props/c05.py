"""C05: interaction vectors. At any point of any history, a user / item vector holds exactly the interaction values of
the current records, whatever was cached before, also when the full matrix does not fit in memory."""
import contextlib
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from core import Unit, check, raises
import DRecPy.Dataset.db_dataset as db_module
import DRecPy.Dataset.mem_dataset as mem_module
import dsgen as g

ID = 'C05'
ASSUMPTIONS = ['at most one record per (user, item) pair', 'vectors are asked for users / items that have a record in the instance']
FINDINGS = {}

KINDS = ['vec', 'vec', 'vec', 'all', 'apply', 'select_in', 'drop_in', 'assign', 'copy', 'select', 'drop', 'back', 'unique_in']
FNS = {'inc': lambda x: x + 1, 'dbl': lambda x: x * 2, 'half': lambda x: x / 2, 'sq': lambda x: x * x + 0.5}


@st.composite
def gen(draw):
    t = draw(g.tables(min_rows=1, max_rows=16, unique_pairs=True, id_kinds=('int', 'small', 'str', 'ones', 'aas', 'float'), wide=g.WIDE))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(KINDS))
        op = {'op': k, 'n': draw(st.integers(0, 20)), 'side': draw(st.sampled_from(['user', 'item']))}
        if k.startswith('select'):
            op['conds'] = draw(g.conditions(t, max_size=1))
        if k.startswith('drop'):
            op['rids'] = draw(st.lists(st.integers(0, 15), max_size=4))
        if k == 'apply':
            op['f'] = draw(st.sampled_from(sorted(FNS)))
        ops.append(op)
    return {'table': t, 'backend': draw(st.sampled_from(['mem_df', 'mem_csv', 'db'])), 'ops': ops,
            'opt': draw(st.sampled_from(['default', 'eager', 'mid'])), 'limit': draw(st.sampled_from([None, 0, 1, 2])),
            'oom': draw(st.integers(0, 3)) == 0}


def arr(v):
    a = v.toarray() if hasattr(v, 'toarray') else np.asarray(v)
    return np.asarray(a, dtype=float).ravel()


def verify(ds, rows, side, internal, exact, what):
    mine, other = ('uid', 'iid') if side == 'user' else ('iid', 'uid')
    a = arr(ds.select_user_interaction_vec(internal) if side == 'user' else ds.select_item_interaction_vec(internal))
    want = {r[other]: float(r['interaction']) for r in rows if r[mine] == internal}
    n_other = max(r[other] for r in rows) + 1
    check(len(a) >= n_other, '%s: vector of %s %d has %d entries, ids go up to %d', what, side, internal, len(a), n_other - 1)
    if exact:
        check(len(a) == n_other, '%s: vector of %s %d has %d entries, expected %d', what, side, internal, len(a), n_other)
    for k in range(len(a)):
        check(abs(a[k] - want.get(k, 0.0)) < 1e-9, '%s: vector of %s %d is %r, expected the non-zero entries %r', what, side, internal, a.tolist(), want)


def learn(ds, rows):
    by = {g.norm(r['rid']): g.norm_rec(r) for r in ds.values_list(['rid', 'uid', 'iid'])}
    for r in rows:
        r['uid'], r['iid'] = by[r['rid']]['uid'], by[r['rid']]['iid']


@contextlib.contextmanager
def fault(on):
    """The matrix of a whole in-memory dataset never fits in memory; every other vector of an out-of-memory one does not at
    the first attempt (there is room after releasing the cached ones)."""
    if not on:
        yield
        return
    count = [0]

    def limited(real):
        def make(*a, **k):
            shape = k.get('shape')
            if shape is not None and shape[0] > 1:
                raise MemoryError('injected')
            return real(*a, **k)
        return make

    def flaky(real):
        def make(*a, **k):
            if k.get('shape') is not None:
                count[0] += 1
                if count[0] % 3 == 1:
                    raise MemoryError('injected')
            return real(*a, **k)
        return make
    with contextlib.ExitStack() as stack:
        for module, f in ((mem_module, limited), (db_module, flaky)):
            if hasattr(module, 'csr_matrix'):
                stack.enter_context(mock.patch.object(module, 'csr_matrix', f(module.csr_matrix)))
        yield


def fn(ctx, case):
    g.set_opt(case['opt'])
    t = case['table']
    kw = {} if case['backend'] == 'mem_df' or case['limit'] is None else {'user_vec_cache_limit': case['limit'], 'item_vec_cache_limit': case['limit']}
    ds = g.build(ctx, t, case['backend'], **kw)
    check(raises(lambda: ds.select_user_interaction_vec(0)) and raises(lambda: ds.select_item_interaction_vec(0)),
          'vectors must be refused before ids are assigned')
    ds.assign_internal_ids()
    rows = g.model_rows(t)
    learn(ds, rows)
    cur = {'ds': ds, 'rows': rows, 'exact': True}
    stack = []
    reads = changes = after = 0
    ctx.label(case['backend'], 'oom' if case['oom'] else 'no fault')
    with fault(case['oom']):
        for step, op in enumerate(case['ops']):
            d, rows, k = cur['ds'], cur['rows'], op['op']
            what = f'step {step}'
            if k in ('vec', 'all'):
                if not rows:
                    continue
                ks = sorted({r['uid' if op['side'] == 'user' else 'iid'] for r in rows})
                for internal in (ks if k == 'all' else [ks[op['n'] % len(ks)]]):
                    verify(d, rows, op['side'], internal, cur['exact'], what)
                reads += 1
                after += changes > 0
            elif k == 'apply':
                if not rows:
                    continue
                d.apply('interaction', FNS[op['f']])
                for r in rows:
                    r['interaction'] = FNS[op['f']](r['interaction'])
                changes += reads > 0
            elif k in ('select_in', 'select'):
                keep = [r for r in rows if g.matches(r, op['conds'])]
                if not keep:
                    continue
                if k == 'select':
                    stack.append(cur)
                    cur = {'ds': ctx.track(d.select(g.query_text(op['conds']))), 'rows': [dict(r) for r in keep], 'exact': False}
                else:
                    d.select(g.query_text(op['conds']), copy=False)
                    cur['rows'], cur['exact'] = keep, False
                changes += reads > 0
            elif k in ('drop_in', 'drop'):
                keep = [r for r in rows if r['rid'] not in op['rids']]
                if not keep:
                    continue
                if k == 'drop':
                    stack.append(cur)
                    cur = {'ds': ctx.track(d.drop(op['rids'])), 'rows': [dict(r) for r in keep], 'exact': False}
                else:
                    d.drop(op['rids'], copy=False)
                    cur['rows'], cur['exact'] = keep, False
                changes += reads > 0
            elif k == 'unique_in':
                seen, keep = set(), []
                for r in sorted(rows, key=lambda r: r['rid']):
                    if r['item'] not in seen:
                        seen.add(r['item'])
                        keep.append(r)
                # unique over the item column keeps one record per item; only its record ids matter here
                rids = [g.norm(x) for x in ctx.track(d.unique(['item'])).values_list('rid', to_list=True)]
                check(sorted(rids) == sorted(r['rid'] for r in keep), '%s: unique(item)', what)
            elif k == 'assign':
                if not rows:
                    continue
                d.assign_internal_ids()
                learn(d, rows)
                cur['exact'] = True
                changes += reads > 0
            elif k == 'copy':
                stack.append(cur)
                cur = {'ds': ctx.track(d.copy()), 'rows': [dict(r) for r in rows], 'exact': cur['exact']}
            elif k == 'back' and stack:
                cur = stack.pop()
        for c in [cur] + stack:
            for side, col in (('user', 'uid'), ('item', 'iid')):
                for internal in sorted({r[col] for r in c['rows']}):
                    verify(c['ds'], c['rows'], side, internal, c['exact'], 'end')
            n = max(r['uid'] for r in c['rows']) + 500
            check(raises(lambda: c['ds'].select_user_interaction_vec(n)), 'a vector was returned for an unknown user')
            check(raises(lambda: c['ds'].select_item_interaction_vec(n)), 'a vector was returned for an unknown item')
    if after:
        ctx.label('read after change')
    ctx.nontrivial(reads > 0 and changes > 0)


UNITS = [Unit('vectors', gen(), fn, 'histories of vector reads and changes over both backends, cache limits and injected out-of-memory faults; '
              'non-trivial: a change happens after a vector was read', quick=8000, thorough=150000)]
