"""Shared parts of the split checks: sources, comparisons, schedules."""
import contextlib
import sys
import time
from unittest import mock

from hypothesis import strategies as st

from core import check
import dsgen as g

_real_sleep = time.sleep


@st.composite
def sources(draw, max_rows=16, timestamp=False, max_users=5, min_rows=2, **kw):
    t = draw(g.tables(min_rows=min_rows, max_rows=max_rows, id_kinds=('int', 'small', 'plain', 'str', 'ones', 'aas'), max_distinct=max_users,
                      extra=draw(st.booleans()), **kw))
    if timestamp and 'timestamp' not in t['columns']:
        t['columns'].append('timestamp')
        t['types']['timestamp'] = 'int'
        for r in t['rows']:
            r.append(draw(st.integers(0, 15)))
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'opt': draw(st.sampled_from(['default', 'eager', 'mid', 'lazy'])),
            'drop': draw(st.lists(st.integers(0, max_rows - 1), max_size=3)), 'ids': draw(st.booleans()),
            'reads': draw(st.integers(0, 3)), 'threads': draw(st.sampled_from([1, 2, 3, 4, 8])), 'verbose': draw(st.integers(0, 9)) == 0}


@st.composite
def big_sources(draw):
    """Every user with every item (some pairs repeated): many records, of few or many users."""
    nu, ni = draw(st.sampled_from([(2, 600), (3, 420), (40, 30), (55, 60), (1100, 2), (260, 5), (700, 3)]))
    backend = draw(st.sampled_from(g.BACKENDS))
    if backend == 'db' and nu > 300:
        nu, ni = 260, 5
    return {'big': [nu, ni, draw(st.integers(0, 7))], 'backend': backend, 'opt': draw(st.sampled_from(['default', 'mid'])),
            'drop': draw(st.lists(st.integers(0, nu * ni - 1), max_size=3)), 'ids': draw(st.booleans()), 'reads': 0,
            'threads': draw(st.sampled_from([1, 2, 4, 8])), 'verbose': False}


def expand(src):
    nu, ni, a = src['big']
    rows = [['u%d' % u if a % 2 else u + 1, i * 3 + 1, float((u + i) % 5)] for u in range(nu) for i in range(ni)]
    rows += rows[:a]
    if a > 3:
        rows = rows[::2] + rows[1::2]
    return dict(src, table={'columns': ['user', 'item', 'interaction'], 'types': {'user': 'str' if a % 2 else 'int', 'item': 'int', 'interaction': 'float'}, 'rows': rows})


def make(ctx, src):
    """The dataset to split and its records (unsorted by promise, file order)."""
    g.set_opt(src['opt'])
    t = src['table']
    ds = g.build(ctx, t, src['backend'])
    rows = g.model_rows(t)
    if src['ids']:
        ds.assign_internal_ids()
    drop = [d for d in src['drop'] if d < len(rows)]
    if drop and len(drop) < len(rows):
        ds = ctx.track(ds.drop(drop))
        rows = [r for r in rows if r['rid'] not in drop]
        ctx.label('filtered source')
    for _ in range(src['reads']):
        ds.count_unique('user')
    ctx.label(src['backend'])
    return ds, rows


@contextlib.contextmanager
def schedule(verbose):
    """Frequent thread switches; progress polls do not wait a second."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with mock.patch('time.sleep', lambda s: _real_sleep(min(s, 0.002))):
            yield
    finally:
        sys.setswitchinterval(old)


def recs(ds):
    return [{k: v for k, v in g.norm_rec(r).items() if k not in ('uid', 'iid')} for r in ds.values_list()]


def check_result(ctx, ds, rows, train, test, removed=()):
    """Train and test hold unchanged records of the source, without overlap; nothing is lost but `removed`; the source is
    as before. Returns the record ids of train and test."""
    ctx.track(train)
    ctx.track(test)
    by = {r['rid']: g.norm_rec(r) for r in rows}
    out = []
    for name, part in (('train', train), ('test', test)):
        got = recs(part)
        check(len(part) == len(got), 'len of the %s set is %d, it holds %d records', name, len(part), len(got))
        for r in got:
            check(by.get(r['rid']) == r, 'the %s set holds %r, the source %r', name, r, by.get(r['rid']))
        rids = [r['rid'] for r in got]
        check(len(set(rids)) == len(rids), 'repeated records in the %s set: %r', name, rids)
        check(sorted(part.columns) == sorted(ds.columns), 'columns of the %s set', name)
        out.append(set(rids))
    check(not out[0] & out[1], 'records %r are in both sets', sorted(out[0] & out[1]))
    check(out[0] | out[1] == set(by) - set(removed), 'records %r are in neither set, expected %r',
          sorted(set(by) - out[0] - out[1]), sorted(removed))
    g.same_records(recs(ds), rows, 'the source after the split')
    return out
