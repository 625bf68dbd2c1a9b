"""Generators of interaction tables and queries, builders for every loading route / backend, and a naive row model."""
import csv
import io
import math
import operator

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from DRecPy.Dataset import InteractionDataset, DatabaseInteractionDataset
from core import check

# ---------------------------------------------------------------- value pools
SMALL_INTS = st.integers(0, 12)
ANY_INTS = st.one_of(st.integers(-5, 40), st.integers(0, 9), st.sampled_from([-1000, 10 ** 6, 2 ** 31, 2 ** 40]))
BIG_INTS = st.sampled_from([2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, 2 ** 60 + 1, 2 ** 60, 2 ** 62 + 3, 7, 8])
NAMES = ['a', 'b', 'B', 'c', 'u1', 'u2', 'u10', 'zz', 'item', 'user', 'rid', 'interaction', 'x_y', 'a-b', 'q.1', 'é', 'ñu',
         'Ωmega', "it's", 'sa"y', 'k;l', 'x=y', 'p%q', '#h', 'w\\n', '(z)', 'a1', 'a2', 'timestamp', 'uid', '1_2', '12_3',
         'x y', 'p, q', 'a,b', 'a == b', 'two\nlines', "q' r", '"s" t', 'b\\', ' x']
STR_IDS = st.sampled_from(NAMES)
PLAIN_NAMES = ['a', 'b', 'B', 'c', 'd', 'u1', 'u2', 'u10', 'u3', 'zz', 'item', 'user', 'x_y', 'a-b', 'q.1', 'é', 'mn', '1_2', '12_3', 'x y', 'p, q', 'a,b']
PLAIN_STR_IDS = st.sampled_from(PLAIN_NAMES)
# multiples of 1/4: exactly representable, and parsed identically by every CSV reader
INTERACTIONS = st.one_of(st.integers(0, 20).map(lambda x: x / 4), st.integers(1, 5).map(float),
                         st.integers(-8, 8).map(lambda x: x / 4))
INT_INTERACTIONS = st.integers(1, 5)
# values that need more digits than a default format keeps (still parsed identically by every reader)
FINE = st.one_of(st.integers(0, 3 * 1024).map(lambda x: x / 1024), st.integers(0, 8).map(lambda x: 1 + x / 1024))
WIDE = st.one_of(FINE, st.integers(0, 40).map(lambda x: 1234560 + x / 4))
# ids that differ little from one another, or whose texts joined together are equal
ONES = st.sampled_from([1, 11, 111, 1111, 2, 12, 112, 0, -1, 10, 100])
AAS = st.sampled_from(['a', 'aa', 'aaa', 'A', 'aA', 'a_', 'a%', '1a', 'ab', 'b', 'ba', '_a', '1_1', '1_'])
# numbers with more digits than 64 bits hold, which are distinct ids all the same
HUGE = st.sampled_from([str(2 ** 64 + 1), str(2 ** 64 + 2), str(2 ** 64 + 3), str(10 ** 25), str(10 ** 25 + 1), str(-10 ** 30)])
FLOATS = st.sampled_from([0.5, 1.5, 2.25, 10.5, -1.5, 1000.25, 3.0, 1.0, 0.0])


def ids(kind):
    return {'int': ANY_INTS, 'small': SMALL_INTS, 'big': BIG_INTS, 'str': STR_IDS, 'plain': PLAIN_STR_IDS, 'ones': ONES, 'aas': AAS, 'float': FLOATS, 'huge': HUGE}[kind]


def is_str_kind(kind):
    return kind in ('str', 'plain', 'aas', 'huge')


def id_type(kind):
    return 'str' if is_str_kind(kind) else 'num' if kind == 'float' else 'int'


@st.composite
def tables(draw, min_rows=1, max_rows=14, id_kinds=('int', 'small', 'str'), unique_pairs=False, extra=True,
           interactions=None, max_distinct=None, min_distinct=1, wide=None):
    """A table: {'columns': [...], 'types': {...}, 'rows': [[...]]}; column order is shuffled."""
    uk, ik = draw(st.sampled_from(id_kinds)), draw(st.sampled_from(id_kinds))
    n = draw(st.integers(min_rows, max_rows))
    us = draw(st.lists(ids(uk), min_size=min_distinct, max_size=max_distinct or 6, unique=True))
    its = draw(st.lists(ids(ik), min_size=min_distinct, max_size=max_distinct or 7, unique=True))
    inter = interactions if interactions is not None else draw(st.sampled_from([0, 1] if wide is None else [0, 0, 1, 2]))
    if inter == 0:
        inter = INTERACTIONS
    elif inter == 1:
        inter = INT_INTERACTIONS
    elif inter == 2:
        inter = wide
    if unique_pairs:
        pairs = [(u, i) for u in us for i in its]
        n = min(max(n, 1), len(pairs))
        idx = draw(st.lists(st.integers(0, len(pairs) - 1), min_size=min(min_rows, len(pairs)), max_size=n, unique=True))
        pairs = [pairs[k] for k in idx]
    else:
        pairs = [(us[draw(st.integers(0, len(us) - 1))], its[draw(st.integers(0, len(its) - 1))]) for _ in range(n)]
    cols = ['user', 'item', 'interaction']
    types = {'user': id_type(uk), 'item': id_type(ik), 'interaction': 'num'}
    extras = draw(st.sampled_from([[], [], ['timestamp'], ['tag'], ['timestamp', 'tag'], ['weight', 'timestamp']])) if extra else []
    for e in extras:
        types[e] = {'timestamp': 'int', 'tag': 'str', 'weight': 'num'}[e]
    vals = draw(st.lists(inter, min_size=len(pairs), max_size=len(pairs)))
    ecols = {}
    base = draw(st.sampled_from([0, 0, 881250949, 1546300800000])) if 'timestamp' in extras else 0
    for e in extras:
        strat = {'timestamp': st.integers(base, base + 30), 'tag': st.sampled_from(['t1', 't2', 'item', 'zed', "o'k", 'x, y', 'no one']),
                 'weight': st.integers(-6, 6).map(lambda x: x + 0.5)}[e]
        ecols[e] = draw(st.lists(strat, min_size=len(pairs), max_size=len(pairs)))
    order = draw(st.permutations(cols + extras))
    rows = []
    for k, (u, i) in enumerate(pairs):
        rec = {'user': u, 'item': i, 'interaction': vals[k]}
        for e in extras:
            rec[e] = ecols[e][k]
        rows.append([rec[c] for c in order])
    return {'columns': list(order), 'types': types, 'rows': rows, 'chunk': draw(st.sampled_from([None, None, None, 1, 2, 3, 5]))}


def model_rows(table):
    return [dict(zip(table['columns'], r), rid=k) for k, r in enumerate(table['rows'])]


def fmt(v):
    if isinstance(v, float):
        return repr(v)
    return str(v)


def to_csv_text(table, delimiter=',', header=False, eol='\n'):
    buf = io.StringIO()
    if len(delimiter) == 1:
        w = csv.writer(buf, delimiter=delimiter, lineterminator=eol)
        if header:
            w.writerow(table['columns'])
        for r in table['rows']:
            w.writerow([fmt(v) for v in r])
    else:
        if header:
            buf.write(delimiter.join(table['columns']) + eol)
        for r in table['rows']:
            buf.write(delimiter.join(fmt(v) for v in r) + eol)
    return buf.getvalue()


BACKENDS = ('mem_df', 'mem_csv', 'db')


def to_df(table):
    return pd.DataFrame({c: [r[k] for r in table['rows']] for k, c in enumerate(table['columns'])},
                        columns=table['columns'])


def build(ctx, table, backend, **kw):
    if backend == 'mem_df':
        kw.pop('chunksize', None)
        ds = InteractionDataset.read_df(to_df(table), verbose=False, **kw)
    else:
        ctx._n = getattr(ctx, '_n', 0) + 1
        if backend == 'db' and table.get('chunk'):
            kw.setdefault('chunksize', table['chunk'])
        p = ctx.write(f'in{ctx._n}.csv', to_csv_text(table))
        ds = InteractionDataset(p, columns=list(table['columns']), in_memory=(backend != 'db'), verbose=False, **kw)
    return ctx.track(ds)


# ---------------------------------------------------------------- comparing
def norm(v):
    """Plain Python value of whatever scalar the code returned."""
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, bool):
        return v
    if isinstance(v, float) and not math.isnan(v) and not math.isinf(v) and v == int(v):
        return int(v)
    return v


def norm_rec(r):
    return {k: norm(v) for k, v in r.items()}


def key(v):
    return (str(type(v)), v) if not isinstance(v, (int, float)) else ('n', v)


def srt(records):
    return sorted(records, key=lambda r: sorted((c, key(v)) for c, v in r.items()))


def same_records(got, want, what=''):
    got = [norm_rec(r) for r in got]
    want = [norm_rec(r) for r in want]
    if srt(got) != srt(want):
        check(False, '%s: got %r want %r', what, srt(got), srt(want))


def set_opt(mode):
    """Optimisation thresholds of the database backend (the repository's own tests tune them the same way)."""
    d = DatabaseInteractionDataset
    if mode == 'default':
        vals = (0.8, 3, 5000, 4)
    elif mode == 'eager':
        vals = (1.0, 1, 0, 1)
    elif mode == 'mid':
        vals = (0.8, 2, 1, 2)
    else:  # lazy
        vals = (0.0, 10 ** 6, 10 ** 6, 10 ** 6)
    d._opt_ratio_threshold, d._opt_n_query_threshold, d._opt_n_rows_threshold, d._opt2_n_direct_interactions_threshold = vals


# ---------------------------------------------------------------- queries
OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def lit(v):
    """The literal of a value, as a user writes it inside a query."""
    return repr(v)


def cond_text(c):
    return f'{c[0]} {c[1]} {lit(c[2])}'


def query_text(conds, sep=', '):
    return sep.join(cond_text(c) for c in conds)


def matches(row, conds):
    return all(OPS[o](row[c], v) for c, o, v in conds)


def thresholds(table):
    """Thresholds of interaction values: present ones, and around them."""
    k = table['columns'].index('interaction')
    present = sorted({r[k] for r in table['rows']})
    return st.one_of(st.sampled_from(present), st.sampled_from(present).map(lambda v: v + 0.25), st.sampled_from(present).map(lambda v: v - 1 / 1024))


@st.composite
def conditions(draw, table, min_size=1, max_size=3, extra_cols=('rid',), ops=tuple(OPS)):
    conds = []
    for _ in range(draw(st.integers(min_size, max_size))):
        col = draw(st.sampled_from(list(table['columns']) + list(extra_cols)))
        op = draw(st.sampled_from(ops))
        if col in ('rid', 'uid', 'iid'):
            v = draw(st.integers(-1, len(table['rows']) + 1))
            v = draw(st.sampled_from([v, v, v, v, v + .5, v - .25, float(v)]))
        else:
            present = [r[table['columns'].index(col)] for r in table['rows']]
            t = table['types'][col]
            if draw(st.integers(0, 3)) > 0:
                v = draw(st.sampled_from(present))
            elif t == 'str':
                v = draw(st.sampled_from(NAMES + ['nope']))
            elif t == 'int':
                v = draw(st.one_of(st.integers(-6, 45), st.sampled_from(present).map(lambda x: x + 1),
                                   st.sampled_from([x for x in present if abs(x) < 2 ** 40] or [0]).map(lambda x: x + .5),
                                   st.sampled_from([x for x in present if abs(x) < 2 ** 40] or [0]).map(lambda x: x - .25)))
            else:
                v = draw(INTERACTIONS)
        conds.append([col, op, v])
    return conds


CLOSED_USES = [lambda ds: ds.values_list(), lambda ds: ds.select('rid >= 0'), lambda ds: ds.copy(), lambda ds: ds.unique(['user']), lambda ds: ds.drop([0]),
               lambda ds: ds.apply('interaction', lambda x: x + 'u' if isinstance(x, str) else x + 100), lambda ds: ds.apply('interaction', lambda x: 'u%s' % x),
               lambda ds: ds.assign_internal_ids(), lambda ds: ds.max('rid'), lambda ds: ds.select('rid >= 1', copy=False).values_list()]


def use_closed(ds, n):
    """Whatever is tried with a closed dataset, refused or not, must have no effect on the others."""
    for k in range(2):
        try:
            r = CLOSED_USES[(n // (len(CLOSED_USES) if k else 1)) % len(CLOSED_USES)](ds)
            if hasattr(r, 'close'):
                r.close()
        except Exception:
            pass
    try:
        ds.close()
    except Exception:
        pass
