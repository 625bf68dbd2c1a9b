"""C03: loading. Every loading route yields exactly the records of the source, in order, with every option combination."""
import math
from unittest import mock

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Dataset import InteractionDataset
import dsgen as g

ID = 'C03'
ASSUMPTIONS = ['a column whose values are all integers holds integers, one whose values are all numbers holds numbers, any other one the texts as they are in the file',
               'no text reads as a boolean, a missing value or a special number (True, NA, nan, inf ...)',
               'with multi-character delimiters (which hold no regular expression characters), values hold no line break or quote, nor start or end with blanks',
               'decimals are compared with a relative tolerance of 1e-9']
FINDINGS = {}

TEXTS = ['t1', 'x y', 'p,q', 'r;s', 'a|b', 'q"q', "it's", 'é', 'ü;,', 'last', 'tab\there', 'two\nlines', '1_2', 'three\n\nlines', ',', '"', '#9', ' lead', 'trail ', '']
SAFE_TEXTS = ['t1', 'x y', "it's", 'é', 'ü', 'last', 'a-b', 'p,q', 'r;s', 'a|b', ',', '1_2', 'tab\there', 'b:b', 'b@b', '']
# texts of columns that hold numbers and texts that are not: all the values are texts then
CODES = ['007', '7', '03X', '1_2', '12', '0', '00', '-1', '+1', '1.50', '1.5', '1e3', 'X', '10', '1a', '0x1', ' 7', '7 ']
NON_NUMBERS = {t for t in TEXTS + SAFE_TEXTS + CODES if t} - {'007', '7', '12', '0', '00', '-1', '+1', '1.50', '1.5', '1e3', '10', '1_2', ' 7', '7 '}
DECIMALS = st.one_of(st.integers(0, 20).map(lambda x: x / 4), st.sampled_from([0.1, 3.3, 4.7, 1e-7, 123456.789, -2.2, 1e10, 2.675]),
                     st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: round(x, 6)))


@st.composite
def source(draw, delimiter):
    multi = len(delimiter) > 1
    id_kind = st.sampled_from(['int', 'int', 'big', 'text', 'code', 'huge'])
    texts = SAFE_TEXTS if multi else TEXTS
    codes = [c for c in CODES if not multi or c == c.strip()]
    text = st.sampled_from([t for t in texts if t])
    kinds = {'user': draw(id_kind), 'item': draw(id_kind), 'interaction': draw(st.sampled_from(['dec', 'small']))}
    for e in draw(st.lists(st.sampled_from(['timestamp', 'tag', 'weight', 'note']), max_size=3, unique=True)):
        kinds[e] = {'timestamp': 'int', 'tag': 'text', 'weight': draw(st.sampled_from(['dec', 'mixed'])), 'note': draw(st.sampled_from(['etext', 'ecode']))}[e]
    n = draw(st.integers(1, 12))
    strat = {'int': g.ANY_INTS, 'big': g.BIG_INTS, 'huge': g.HUGE, 'text': text, 'dec': DECIMALS, 'small': st.integers(0, 5),
             'etext': st.sampled_from(texts), 'code': st.sampled_from(codes), 'ecode': st.sampled_from(codes + ['']),
             'mixed': st.one_of(st.integers(-3, 9), DECIMALS)}
    data = {c: draw(st.lists(strat[k], min_size=n, max_size=n)) for c, k in kinds.items()}
    for c, k in kinds.items():
        if k in ('code', 'ecode', 'etext') and not any(v in NON_NUMBERS for v in data[c]):
            data[c][draw(st.integers(0, n - 1))] = draw(st.sampled_from(['03X', 'X', '1a']))
    cols = draw(st.permutations(sorted(kinds)))
    return kinds, list(cols), [[data[c][k] for c in cols] for k in range(n)]


@st.composite
def gen(draw):
    delimiter = draw(st.sampled_from([',', ',', ';', '\t', '|', '::', '@@']))
    kinds, cols, rows = draw(source(delimiter))
    skip = draw(st.lists(st.integers(0, len(cols)), max_size=2))
    return {'kinds': kinds, 'cols': cols, 'rows': rows, 'delimiter': delimiter, 'skip': skip,
            'header': draw(st.booleans()), 'in_memory': draw(st.booleans()),
            'encoding': draw(st.sampled_from([None, 'utf-8', 'latin-1', 'cp1252', 'utf-16'])),
            'chunksize': draw(st.sampled_from([None, 1, 2, 3, 5])), 'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
            'final_newline': draw(st.booleans()), 'blank': draw(st.one_of(st.just([]), st.lists(st.integers(0, 13), max_size=4))), 'memory_error': draw(st.integers(0, 3)) == 0}


def same(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    if isinstance(a, str) or a is None:
        return False
    if isinstance(b, int):
        return g.norm(a) == b
    return math.isclose(float(a), b, rel_tol=1e-9, abs_tol=1e-12)


def compare(ds, cols, rows, what):
    check(len(ds) == len(rows), '%s: %d records loaded from %d lines', what, len(ds), len(rows))
    check(sorted(ds.columns) == sorted(cols + ['rid']), '%s: columns %r, expected %r', what, ds.columns, cols + ['rid'])
    got = ds.values_list(columns=list(cols) + ['rid'], to_list=True)
    check(len(got) == len(rows), '%s: values_list yields %d records for %d lines', what, len(got), len(rows))
    for k, (a, b) in enumerate(zip(got, rows)):
        check(g.norm(a[-1]) == k, '%s: record of line %d has rid %r', what, k, a[-1])
        check(all(same(x, y) for x, y in zip(a, b)), '%s: line %d is %r, loaded as %r', what, k, b, a)


def fn(ctx, case):
    g.set_opt('default')
    cols, rows = list(case['cols']), [list(r) for r in case['rows']]
    file_cols, file_rows = list(cols), [list(r) for r in rows]
    for pos in case['skip']:
        file_cols.insert(pos, None)
        for r in file_rows:
            r.insert(pos, 'junk')
    text = g.to_csv_text({'columns': ['h%d' % k if c is None else c for k, c in enumerate(file_cols)], 'rows': file_rows},
                         delimiter=case['delimiter'], header=case['header'], eol=case['eol'])
    if case['blank']:  # blank lines are not records
        parts = [g.to_csv_text({'columns': [], 'rows': [r]}, delimiter=case['delimiter'], eol=case['eol']) for r in file_rows]
        head = text[:len(text) - sum(map(len, parts))]
        for pos in sorted(case['blank'], reverse=True):
            parts.insert(pos, case['eol'])
        text = head + ''.join(parts)
        ctx.label('blank lines')
    if not case['final_newline']:
        text = text[:-len(case['eol'])]
    enc = case['encoding'] or 'utf-8'
    p = ctx.write('src.csv', text, encoding=enc)
    kw = {}
    if case['encoding']:
        kw['encoding'] = case['encoding']
    if case['chunksize']:
        kw['chunksize'] = case['chunksize']
    arg_cols = list(file_cols)
    load = lambda: InteractionDataset(p, columns=arg_cols, delimiter=case['delimiter'], has_header=case['header'],
                                      in_memory=case['in_memory'], verbose=False, **kw)
    if case['memory_error'] and case['in_memory']:
        with mock.patch.object(pd, 'read_csv', side_effect=MemoryError()):
            ds = ctx.track(load())
        ctx.label('memory error fallback')
    else:
        ds = ctx.track(load())
    check(arg_cols == file_cols, 'loading changed the column list it was given: %r -> %r', file_cols, arg_cols)
    ctx.label('mem' if case['in_memory'] else 'db', 'delim ' + case['delimiter'], f'enc {case["encoding"]}')
    if case['skip']:
        ctx.label('skipped columns')
    ctx.nontrivial(len(rows) > 1)
    compare(ds, cols, rows, f'load {case["delimiter"]!r}')
    with open(p, encoding=enc, newline='') as f:
        check(f.read() == text, 'loading changed the source file')


@st.composite
def gen_df(draw):
    kinds, cols, rows = draw(source(','))
    labels = {c: draw(st.sampled_from([c, c, 'my_' + c])) for c in ('user', 'item', 'interaction')}
    idx = draw(st.sampled_from(['range', 'dup', 'shift', 'rev']))
    return {'cols': cols, 'rows': rows, 'labels': labels, 'index': idx, 'explicit': draw(st.booleans())}


def fn_df(ctx, case):
    cols, rows = case['cols'], case['rows']
    n = len(rows)
    df_cols = [case['labels'].get(c, c) for c in cols]
    index = {'range': list(range(n)), 'dup': [0] * n, 'shift': list(range(5, 5 + n)), 'rev': list(range(n))[::-1]}[case['index']]
    df = pd.DataFrame({c: [r[k] for r in rows] for k, c in enumerate(df_cols)}, columns=df_cols, index=index)
    before = df.copy()
    kw = {k + '_label': ''.join(list(v)) for k, v in case['labels'].items() if v != k or case['explicit']}
    ds = ctx.track(InteractionDataset.read_df(df, verbose=False, **kw))
    compare(ds, cols, rows, 'read_df')
    ds.apply('interaction', lambda x: x + 1)
    ds.assign_internal_ids()
    check(df.equals(before) and list(df.columns) == list(before.columns), 'the source dataframe was modified')
    ctx.label('index ' + case['index'], 'relabelled' if any(k != v for k, v in case['labels'].items()) else 'plain')
    ctx.nontrivial(n > 1)


SIZES = {'mem': [200000, 360000, 420001], 'db': [99999, 100000, 100001, 130003]}


@st.composite
def gen_large(draw):
    backend = draw(st.sampled_from(['mem', 'db']))
    n = draw(st.sampled_from(SIZES[backend]))
    return {'backend': backend, 'n': n, 'odd_at': draw(st.one_of(st.none(), st.integers(0, n - 1), st.just(n - 1))),
            'odd': draw(st.sampled_from(['x', '03X', '1.5'])), 'step': draw(st.sampled_from([1, 3, 7])), 'header': draw(st.booleans()),
            'users': draw(st.sampled_from([5, 1000]))}


def fn_large(ctx, case):
    """Files larger than any chunk they are read in: the values of a column keep a single type."""
    n, odd = case['n'], case['odd']
    users = [str(k * case['step'] % case['users']) for k in range(n)]
    if case['odd_at'] is not None:
        users[case['odd_at']] = odd
    text = ('user,item,interaction\n' if case['header'] else '') + ''.join('%s,%d,%d.5\n' % (u, k, k % 5) for k, u in enumerate(users))
    p = ctx.write('large.csv', text)
    ds = ctx.track(InteractionDataset(p, columns=['user', 'item', 'interaction'], has_header=case['header'],
                                      in_memory=case['backend'] == 'mem', verbose=False))
    ctx.label(case['backend'], 'mixed' if case['odd_at'] is not None else 'plain')
    ctx.nontrivial()
    check(len(ds) == n, '%d records loaded from %d lines', len(ds), n)
    conv = int if case['odd_at'] is None else float if odd == '1.5' else str
    got = ds.values_list(columns=['rid', 'user', 'item', 'interaction'], to_list=True)
    for k, (rid, u, i, v) in enumerate(got):
        u = g.norm(u)
        w = conv(users[k])
        check(isinstance(u, str) == isinstance(w, str) and u == w and rid == k and i == k and v == k % 5 + 0.5,
              'line %d is %r, loaded as %r', k, (users[k], k, k % 5 + 0.5), (rid, u, i, v))
    check(ds.count_unique('user') == len(set(users)), '%d distinct users loaded, the file has %d', ds.count_unique('user'), len(set(users)))


@st.composite
def gen_bad(draw):
    t = draw(g.tables(max_rows=4, extra=False))
    return {'table': t, 'in_memory': draw(st.booleans()), 'header': draw(st.booleans()),
            'how': draw(st.sampled_from(['nocols', 'uid', 'iid', 'missing user', 'missing item', 'missing interaction', 'nofile', 'nosqlite']))}


def fn_bad(ctx, case):
    t, how = case['table'], case['how']
    p = ctx.write('src.csv', g.to_csv_text(t, header=case['header']))
    cols = list(t['columns'])
    kw = dict(in_memory=case['in_memory'], has_header=case['header'], verbose=False)
    if how == 'nocols':
        cols = None
    elif how in ('uid', 'iid'):
        cols = cols + [how]
    elif how.startswith('missing'):
        cols = ['other' if c == how.split()[1] else c for c in cols]
    elif how == 'nofile':
        p = ctx.path('absent.csv')
    else:
        p = ctx.path('absent.sqlite')
    ctx.label(how)
    ctx.nontrivial()
    check(raises(lambda: InteractionDataset(p, columns=cols, **kw)), 'loading accepted: %s', how)
    if how == 'nosqlite':
        import os
        check(not os.path.exists(p), 'a missing sqlite file was created by trying to load it')


UNITS = [
    Unit('csv', gen(), fn, 'file contents x delimiter x header x skipped columns x encoding x chunk size x backend x out-of-memory fault; '
         'non-trivial: at least two records', quick=8000, thorough=150000),
    Unit('dataframe', gen_df(), fn_df, 'dataframes with relabelled columns and arbitrary row labels; non-trivial: at least two records',
         quick=2000, thorough=30000),
    Unit('large', gen_large(), fn_large, 'files larger than the chunks they are read in, with one value that tells the type of its column anywhere; '
         'every case non-trivial', quick=40, thorough=800),
    Unit('refused', gen_bad(), fn_bad, 'invalid sources are refused; every case non-trivial', quick=500, thorough=4000),
]
