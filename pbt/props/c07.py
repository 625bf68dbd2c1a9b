"""C07: persistence. What is saved is exactly the current records; saved files are changed by later saves only."""
import csv
import gc
import math
import os
import sqlite3

from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Dataset import InteractionDataset
import dsgen as g

ID = 'C07'
ASSUMPTIONS = ['paths are spelled the same way every time']
FINDINGS = {}
TAGS = ['t1', 'x y', 'p,q', 'q"q', "it's", 'é', 'ü;,', 'last', '', '"', ',', 'two\nlines', ' lead', 'trail ', '007']


@st.composite
def tagged(draw, max_rows=10):
    t = draw(g.tables(max_rows=max_rows, id_kinds=('int', 'str', 'big', 'ones', 'aas', 'huge'), wide=g.WIDE, extra=draw(st.booleans())))
    if 'tag' in t['columns']:
        k = t['columns'].index('tag')
        for r in t['rows']:
            r[k] = draw(st.sampled_from(TAGS))
        if all(r[k] in ('', '007') for r in t['rows']):
            t['rows'][draw(st.integers(0, len(t['rows']) - 1))][k] = 't1'
    return t


@st.composite
def gen_csv(draw):
    t = draw(tagged())
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'opt': draw(st.sampled_from(['default', 'eager'])),
            'ids': draw(st.booleans()), 'header': draw(st.booleans()), 'twice': draw(st.booleans()),
            'rids': draw(st.lists(st.integers(0, 9), max_size=4)),
            'cols': draw(st.one_of(st.none(), st.lists(st.sampled_from(t['columns'] + ['rid']), min_size=1, max_size=4, unique=True))),
            'inc': draw(st.booleans())}


def same_text(cell, value):
    if isinstance(value, str):
        return cell == value
    try:
        return (int(cell) == value) if isinstance(value, int) and '.' not in cell and 'e' not in cell else math.isclose(float(cell), value, rel_tol=1e-12)
    except ValueError:
        return False


def match_rows(got, want):
    """Multiset equality of text rows and value rows."""
    got = list(got)
    for w in want:
        for k, r in enumerate(got):
            if len(r) == len(w) and all(same_text(a, b) for a, b in zip(r, w)):
                del got[k]
                break
        else:
            return False
    return not got


def fn_csv(ctx, case):
    g.set_opt(case['opt'])
    t = case['table']
    ds = g.build(ctx, t, case['backend'])
    rows = g.model_rows(t)
    if case['ids']:
        ds.assign_internal_ids()
    if case['rids']:
        ds = ctx.track(ds.drop(case['rids']))
        rows = [r for r in rows if r['rid'] not in case['rids']]
    if case['inc'] and rows:
        ds.apply('interaction', lambda x: x + 0.25)
        for r in rows:
            r['interaction'] += 0.25
    p = ctx.path('out.csv')
    if case['twice']:
        with open(p, 'w') as f:
            f.write('old,content\n' * 30)
    cols = case['cols']
    want_cols = [c for c in (cols if cols is not None else ds.columns) if c not in ('rid', 'uid', 'iid')]
    if not want_cols:
        return
    arg = None if cols is None else list(cols)
    ds.save(p, columns=arg, write_header=case['header'])
    check(arg == cols, 'save changed the column list it was given: %r -> %r', cols, arg)
    with open(p, newline='', encoding='utf-8') as f:
        got = list(csv.reader(f))
    if case['header']:
        check(got and got[0] == want_cols, 'header is %r, expected %r', got[:1], want_cols)
        got = got[1:]
    want = [[r[c] for c in want_cols] for r in rows]
    got = [r if r else [''] for r in got]
    check(len(got) == len(want) and match_rows(got, want), 'saved csv holds %r, the dataset holds %r', got, want)
    g.same_records([{k: v for k, v in r.items() if k not in ('uid', 'iid')} for r in ds.values_list()], rows, 'dataset after save')
    ctx.label(case['backend'], 'subset' if cols else 'all columns')
    ctx.nontrivial(len(rows) > 0 and (case['rids'] or case['ids'] or case['cols'] is not None))
    if {'user', 'item', 'interaction'} <= set(want_cols) and rows:
        first = [r[want_cols.index('tag')] for r in [[x[c] for c in want_cols] for x in rows]] if 'tag' in want_cols else ['x']
        for mem in (True, False):
            if not all(first) or set(first) == {'007'}:
                continue  # the type of a column is told by its values
            back = ctx.track(InteractionDataset(p, columns=list(want_cols), has_header=case['header'], in_memory=mem, verbose=False))
            g.same_records([{c: r[c] for c in want_cols} for r in back.values_list()], [{c: r[c] for c in want_cols} for r in rows], 'reloaded csv')


OPS = ['open', 'open', 'save', 'save', 'save_own', 'select_in', 'drop_in', 'apply', 'assign', 'copy', 'close', 'gc', 'reads', 'reads', 'verify', 'select']
FNS = {'inc': lambda x: x + 1, 'half': lambda x: x / 2, 'toint': lambda x: int(x)}


@st.composite
def gen_sql(draw):
    t = draw(tagged(8))
    ops = []
    for _ in range(draw(st.integers(3, 16))):
        k = draw(st.sampled_from(OPS))
        op = {'op': k, 'i': draw(st.integers(0, 5)), 'f': draw(st.integers(0, 1)), 'n': draw(st.integers(0, 6))}
        if k.startswith('select'):
            op['conds'] = [c for c in draw(g.conditions(t, max_size=1)) if not isinstance(c[2], str) or (c[2] and not set(c[2]) & set(', '))]
            if not op['conds']:
                op['conds'] = [['rid', '>=', 0]]
        if k == 'drop_in':
            op['rids'] = draw(st.lists(st.integers(0, 7), max_size=3))
        if k == 'apply':
            op['fn'] = draw(st.sampled_from(sorted(FNS)))
        ops.append(op)
    return {'table': t, 'ops': ops, 'opt': draw(st.sampled_from(['default', 'eager', 'mid']))}


def norid(rows, cols):
    return [{c: r[c] for c in cols} for r in rows]


def fn_sql(ctx, case):
    g.set_opt(case['opt'])
    t = case['table']
    cols = t['columns']
    paths = [ctx.path('one.sqlite'), ctx.path('two.tmp.sqlite')]
    files = {}                       # path -> records at the time of the last save
    base = g.build(ctx, t, 'db')
    insts = [{'ds': base, 'rows': g.model_rows(t), 'path': None, 'ids': False}]
    saves = opens = changes = 0

    def relearn(x, what):
        recs = [g.norm_rec(r) for r in x['ds'].values_list(cols + ['rid'])]
        g.same_records(norid(recs, cols), norid(x['rows'], cols), what)
        check(len(x['ds']) == len(x['rows']), '%s: len', what)
        check(len({r['rid'] for r in recs}) == len(recs), '%s: record ids repeat', what)
        x['rows'] = recs

    def file_ok(p, what):
        con = sqlite3.connect(p)
        try:
            recs = [dict(zip(cols, r)) for r in con.execute(f'SELECT {",".join(cols)} FROM interactions').fetchall()]
        finally:
            con.close()
        g.same_records(recs, norid(files[p], cols), what)

    for step, op in enumerate(case['ops']):
        k, what = op['op'], f'step {step} {op["op"]}'
        x = insts[op['i'] % len(insts)]
        p = paths[op['f']]
        if k == 'open':
            if p in files and len(insts) < 5:
                ds = ctx.track(InteractionDataset(p, verbose=False))
                y = {'ds': ds, 'rows': [dict(r) for r in files[p]], 'path': p, 'ids': False}
                check(sorted(ds.columns) == sorted(cols + ['rid']), '%s: columns of the reopened dataset are %r', what, ds.columns)
                relearn(y, what)
                insts.append(y)
                opens += 1
        elif k in ('save', 'save_own'):
            if k == 'save_own':
                if x['path'] is None:
                    check(raises(lambda: x['ds'].save()), '%s: saved without a path', what)
                    continue
                p = x['path']
            others = sum(1 for y in insts if y['path'] == p and y is not x)
            if others:
                check(raises(lambda: x['ds'].save(p)), '%s: overwrote a file that %d other instances use', what, others)
                file_ok(p, what + ' (refused)')
                ctx.label('refused save')
            else:
                if k == 'save_own' and op['n'] % 2:
                    x['ds'].save()
                else:
                    x['ds'].save(p)
                files[p] = [dict(r) for r in x['rows']]
                file_ok(p, what)
                relearn(x, what)
                saves += 1
                if x['path'] == p:
                    ctx.label('saved over own file')
        elif k == 'select_in':
            x['ds'].select(g.query_text(op['conds']), copy=False)
            x['rows'] = [r for r in x['rows'] if g.matches(r, op['conds'])]
            changes += x['path'] is not None
        elif k == 'select':
            if len(insts) < 5:
                rows = [dict(r) for r in x['rows'] if g.matches(r, op['conds'])]
                insts.append({'ds': ctx.track(x['ds'].select(g.query_text(op['conds']))), 'rows': rows, 'path': x['path'], 'ids': x['ids']})
        elif k == 'drop_in':
            x['ds'].drop(op['rids'], copy=False)
            x['rows'] = [r for r in x['rows'] if r['rid'] not in op['rids']]
            changes += x['path'] is not None
        elif k == 'apply':
            if x['rows']:
                x['ds'].apply('interaction', FNS[op['fn']])
                for r in x['rows']:
                    r['interaction'] = FNS[op['fn']](r['interaction'])
                changes += x['path'] is not None
        elif k == 'assign':
            if x['rows']:
                x['ds'].assign_internal_ids()
                x['ids'] = True
                changes += x['path'] is not None
        elif k == 'copy':
            if len(insts) < 5:
                insts.append({'ds': ctx.track(x['ds'].copy()), 'rows': [dict(r) for r in x['rows']], 'path': x['path'], 'ids': x['ids']})
        elif k in ('close', 'gc'):
            if len(insts) > 1:
                insts.remove(x)
                ds, x['ds'] = x['ds'], None
                if k == 'close':
                    ds.close()
                else:
                    ctx._closers[:] = [d for d in ctx._closers if d is not ds]
                del ds
                gc.collect()
                if x['path']:
                    check(os.path.exists(x['path']), '%s: closing an instance deleted the saved file', what)
                    file_ok(x['path'], what)
        elif k == 'reads':
            for _ in range(op['n']):
                x['ds'].count_unique('user')
            g.same_records(norid(x['ds'].values_list(cols), cols), norid(x['rows'], cols), what)
        elif k == 'verify':
            for q in files:
                file_ok(q, what)
    for x in insts:
        g.same_records(norid(x['ds'].values_list(cols + ['rid']), cols + ['rid']), norid(x['rows'], cols + ['rid']), 'final state')
        check(len(x['ds']) == len(x['rows']), 'final len')
    for x in insts:
        x['ds'].close()
    for q in files:
        check(os.path.exists(q), 'saved file %s is gone after closing every instance', q)
        file_ok(q, 'after closing every instance')
        again = ctx.track(InteractionDataset(q, verbose=False))
        g.same_records(norid(again.values_list(), cols), norid(files[q], cols), 'reopened at the end')
        for c in cols:
            for v in {r[c] for r in files[q] if not isinstance(r[c], str) or (r[c] and not set(r[c]) & set(', '))}:
                got = ctx.track(again.select(f'{c} == {g.lit(v)}'))
                check(len(got) == sum(1 for r in files[q] if r[c] == v), 'query on the reopened dataset: %s == %r', c, v)
    if saves and opens:
        ctx.label('save and reopen')
    ctx.nontrivial(saves > 0 and opens > 0 and changes > 0)


UNITS = [
    Unit('csv', gen_csv(), fn_csv, 'records x backend x column subset x header; non-trivial: a derived dataset, internal ids or a column subset',
         quick=6000, thorough=60000),
    Unit('sqlite', gen_sql(), fn_sql, 'histories of save / open / change / close over two sqlite files and instances sharing them; non-trivial: '
         'a save, a reopen and a change of an instance opened from a file', quick=5000, thorough=60000),
]
