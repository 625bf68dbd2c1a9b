"""C28: threads sharing a dataset get what each would get alone."""
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from core import Unit, check
import dsgen as g

ID = 'C28'
ASSUMPTIONS = ['internal ids are assigned before the dataset is shared, and the shared dataset itself is not changed: threads change only what they derived from it, and in a database (where changing values while a thread is reading is refused) do not change values',
               'interleavings are those the interpreter produces with a switch interval of a microsecond']
FINDINGS = {}


@st.composite
def op(draw, table, mem):
    kind = draw(st.sampled_from((['change'] if mem else []) + ['select', 'select', 'exists', 'one', 'unique', 'count', 'extreme', 'uid', 'iid', 'uvec', 'uvec', 'ivec', 'drop', 'random', 'null', 'half', 'csv', 'deep', 'refresh']))
    if kind in ('select', 'exists', 'one', 'random', 'deep'):
        return [kind, draw(g.conditions(table, max_size=2))]
    if kind in ('unique', 'count'):
        return [kind, draw(st.sampled_from(['user', 'item', 'interaction', ['user', 'interaction']]))]
    if kind == 'extreme':
        return [kind, draw(st.sampled_from(['max', 'min'])), draw(st.sampled_from(['interaction', 'uid', 'iid', 'rid']))]
    return [kind, draw(st.integers(0, 8))]


@st.composite
def gen(draw):
    table = draw(g.tables(min_rows=3, max_rows=14, id_kinds=('small', 'plain'), unique_pairs=True, min_distinct=2))
    backend = draw(st.sampled_from(['db', 'db', 'mem_df', 'mem_csv']))
    return {'table': table, 'backend': backend, 'opt': draw(st.sampled_from(['default', 'eager', 'mid', 'lazy'])), 'limit': draw(st.sampled_from([None, 0, 1])), 'filter': draw(st.one_of(st.none(), st.none(), g.conditions(table, max_size=1))),
            'threads': draw(st.lists(st.lists(op(table, backend != 'db'), min_size=1, max_size=6), min_size=2, max_size=4)), 'rounds': draw(st.integers(1, 3))}


def plain(recs):
    return sorted((sorted(g.norm_rec(r).items(), key=str) for r in recs), key=str)


def vec(v):
    return np.asarray(v.toarray()).ravel().tolist()


def perform(ds, op, path):
    kind = op[0]
    if kind in ('select', 'deep'):
        s = ds.select(g.query_text(op[1]))
        if kind == 'deep':
            s = s.select('rid >= 1').select('interaction >= 0').copy()
        return plain(s.values_list()), len(s)
    if kind == 'exists':
        return bool(ds.exists(g.query_text(op[1])))
    if kind == 'one':
        r = ds.select_one(g.query_text(op[1]))
        return None if r is None else g.norm_rec(r) in [g.norm_rec(x) for x in ds.select(g.query_text(op[1])).values_list()]
    if kind == 'unique':
        cols = op[1] if isinstance(op[1], list) else [op[1]]
        return plain({c: r[c] for c in cols} for r in ds.unique(op[1]).values_list())
    if kind == 'count':
        return ds.count_unique(op[1])
    if kind == 'extreme':
        return g.norm(getattr(ds, op[1])(op[2])) if len(ds) else None
    if kind in ('uid', 'iid'):
        ids = sorted({int(x) for x in ds.values_list(kind, to_list=True)})
        to, back = (ds.uid_to_user, ds.user_to_uid) if kind == 'uid' else (ds.iid_to_item, ds.item_to_iid)
        return [(g.norm(to(k)), g.norm(back(to(k)))) for k in ids]
    if kind in ('uvec', 'ivec'):
        ids = sorted({int(x) for x in ds.values_list('uid' if kind == 'uvec' else 'iid', to_list=True)})
        return [vec((ds.select_user_interaction_vec if kind == 'uvec' else ds.select_item_interaction_vec)(k)) for k in (ids[op[1] % len(ids):] if ids else [])]
    if kind == 'change':
        s = ds.select('rid != %d' % op[1])
        if len(s):
            s.apply('interaction', lambda x: x + 1)
        return plain(s.values_list())
    if kind == 'drop':
        rids = [int(x) for x in ds.values_list('rid', to_list=True)]
        s = ds.drop(rids[:op[1]])
        return plain(s.values_list()), len(s)
    if kind == 'random':
        if not ds.exists(g.query_text(op[1])):
            return None
        it = ds.select_random_generator(g.query_text(op[1]), seed=3)
        return [g.norm_rec(next(it)) for _ in range(3)]
    if kind == 'null':
        us, its = ds.count_unique('uid'), ds.count_unique('iid')
        if us * its <= ds.count_unique(['uid', 'iid']) or not len(ds):
            return None
        it = ds.null_interaction_pair_generator(seed=op[1])
        return [tuple(int(x) for x in next(it)) for _ in range(2)]
    if kind == 'half':
        it = ds.values()
        out = [g.norm_rec(r) for _, r in zip(range(op[1]), it)]
        del it
        return out
    if kind == 'csv':
        ds.save(path)
        with open(path, encoding='utf-8') as f:
            return f.read()
    return [g.norm_rec(r) for r in ds.values_list()]


def source(ctx, case):
    kw = {'user_vec_cache_limit': case['limit'], 'item_vec_cache_limit': case['limit']} if case['backend'] == 'db' and case['limit'] is not None else {}
    ds = g.build(ctx, case['table'], case['backend'], **kw)
    ds.assign_internal_ids()
    if case['filter']:
        ds = ctx.track(ds.select(g.query_text(case['filter'])))
    return ds


def fn(ctx, case):
    g.set_opt(case['opt'])
    alone = source(ctx, case)
    want = [[perform(alone, op, ctx.dir + '/a%d.csv' % t) for op in ops] for t, ops in enumerate(case['threads'])]
    ds = source(ctx, case)
    before = [g.norm_rec(r) for r in ds.values_list()]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(case['rounds']):
            got, errors = [None] * len(want), []
            gate = threading.Barrier(len(want))

            def work(t):
                try:
                    gate.wait()
                    got[t] = [perform(ds, op, ctx.dir + '/b%d.csv' % t) for op in case['threads'][t]]
                except BaseException as e:
                    errors.append((t, e))
            threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(len(want))]
            for t in threads:
                t.start()
            for t in threads:
                t.join(60)
            check(not any(t.is_alive() for t in threads), 'the threads wait for each other forever')
            if errors:
                t, e = errors[0]
                check(False, 'thread %d failed: %s: %s', t, type(e).__name__, e)
            for t, ops in enumerate(case['threads']):
                for op, a, b in zip(ops, got[t], want[t]):
                    check(a == b, 'in thread %d, %r gave %r; alone it gives %r', t, op, a, b)
    finally:
        sys.setswitchinterval(old)
    check([g.norm_rec(r) for r in ds.values_list()] == before, 'the shared dataset has changed')
    kinds = {op[0] for ops in case['threads'] for op in ops}
    ctx.label(case['backend'], *kinds)
    ctx.nontrivial(len(kinds) >= 2)


UNITS = [Unit('threads', gen(), fn, 'tables x storage x optimisation thresholds x operations of 2-4 threads on one dataset and what they derive from it; non-trivial: two or more kinds of operations', quick=4000, thorough=60000, budget_quick=50)]
