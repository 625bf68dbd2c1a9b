"""C01: queries. select / select_one / exists / len agree with a naive row filter, on every backend."""
from hypothesis import strategies as st

from core import Unit, check, raises
import dsgen as g

ID = 'C01'
ASSUMPTIONS = ['identifier columns hold integers, decimals or strings, one type per column']
FINDINGS = {}


@st.composite
def gen(draw):
    t = draw(g.tables(id_kinds=('int', 'small', 'str', 'big', 'ones', 'aas', 'float', 'huge'), wide=g.WIDE))
    ids = draw(st.booleans())
    cols = ('rid', 'uid', 'iid') if ids else ('rid',)
    conds = draw(g.conditions(t, extra_cols=cols))
    more = draw(st.lists(g.conditions(t, max_size=2, extra_cols=cols), max_size=2))
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'ids': ids, 'conds': conds, 'chain': more,
            'sep': draw(st.sampled_from([', ', ',', ' , '])), 'opt': draw(st.sampled_from(['default', 'eager', 'mid'])),
            'cols': draw(st.lists(st.sampled_from(t['columns'] + ['rid']), min_size=1, max_size=3, unique=True))}


def fn(ctx, case):
    g.set_opt(case['opt'])
    t = case['table']
    rows = g.model_rows(t)
    ds = g.build(ctx, t, case['backend'])
    if case['ids']:
        ds.assign_internal_ids()
        rows = [dict(r, **{c: g.norm(v) for c, v in zip(('uid', 'iid'), ids)}) for r, ids in zip(rows, ds.values_list(['uid', 'iid'], to_list=True))]
    drop_ids = dict
    base = g.query_text(case['conds'], case['sep'])
    want = [r for r in rows if g.matches(r, case['conds'])]
    ctx.label(case['backend'], 'ids' if case['ids'] else 'noids', f'nconds{len(case["conds"])}')
    ctx.label('empty' if not want else ('all' if len(want) == len(rows) else 'proper'))
    ctx.nontrivial(0 < len(want) < len(rows))

    one = ds.select_one(base)
    check(ds.exists(base) is (len(want) > 0), 'exists(%r) disagrees with %d matching rows', base, len(want))
    if not want:
        check(one is None, 'select_one(%r) returned %r but nothing matches', base, one)
    else:
        check(one is not None, 'select_one(%r) returned None, %d rows match', base, len(want))
        one = drop_ids(g.norm_rec(one))
        check(one in [g.norm_rec(r) for r in want], 'select_one(%r) returned %r, not a matching row', base, one)
        if case['backend'] != 'db' or all(c[1] == '==' for c in case['conds']):
            check(one == g.norm_rec(want[0]), 'select_one(%r) is not the first matching row: %r, expected %r', base, one, want[0])
        lst = ds.select_one(base, columns=list(case['cols']), to_list=True)
        lst = [lst] if len(case['cols']) == 1 else lst
        check([g.norm(v) for v in lst] in [[g.norm(r[c]) for c in case['cols']] for r in want],
              'select_one(%r, %r, to_list) returned %r', base, case['cols'], lst)

    sel = ctx.track(ds.select(base))
    check(len(sel) == len(want), 'len(select(%r)) == %d, expected %d', base, len(sel), len(want))
    g.same_records(map(drop_ids, sel.values_list()), want, f'select({base!r})')
    # the source is unchanged
    check(len(ds) == len(rows), 'select changed the length of its source')
    g.same_records(map(drop_ids, ds.values_list()), rows, 'source after select')
    # chained conditions are conjunctions
    cur, cur_want = sel, want
    for conds in case['chain']:
        q = g.query_text(conds, case['sep'])
        cur = ctx.track(cur.select(q))
        cur_want = [r for r in cur_want if g.matches(r, conds)]
        check(len(cur) == len(cur_want), 'chained select(%r): len %d, expected %d', q, len(cur), len(cur_want))
        g.same_records(map(drop_ids, cur.values_list()), cur_want, f'chained select({q!r})')
    if case['chain']:
        allc = case['conds'] + [c for cs in case['chain'] for c in cs]
        joint = ctx.track(ds.select(g.query_text(allc, case['sep'])))
        g.same_records(map(drop_ids, joint.values_list()), cur_want, 'joint select vs chained selects')
        check(ds.exists(g.query_text(allc)) is (len(cur_want) > 0), 'exists(joint)')
    # in place
    back = ds.select(base, copy=False)
    check(back is ds, 'select(copy=False) must return the same instance')
    check(len(ds) == len(want), 'in-place select: len %d, expected %d', len(ds), len(want))
    g.same_records(map(drop_ids, ds.values_list()), want, f'in-place select({base!r})')
    g.same_records(map(drop_ids, sel.values_list()), want, 'earlier selection after in-place select on the source')


@st.composite
def gen_bad(draw):
    t = draw(g.tables(max_rows=5))
    good = draw(g.conditions(t, max_size=1))
    bad = draw(st.sampled_from(['nocol == 1', 'user === 1', 'user = 1', 'user', 'user ==', "interaction ~ 2", 'uid == 0', '',
                                'interaction > 1 3', 'interaction>2', "tagg == 'x'"]))
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'good': good, 'bad': bad,
            'first': draw(st.booleans()), 'pair': draw(st.booleans())}


def fn_bad(ctx, case):
    g.set_opt('default')
    ds = g.build(ctx, case['table'], case['backend'])
    q = case['bad']
    if case['pair']:
        parts = [case['bad'], g.query_text(case['good'])]
        q = ', '.join(parts if case['first'] else parts[::-1])
    ctx.nontrivial()
    ctx.label(case['bad'] or 'empty query')
    rows = g.model_rows(case['table'])
    for what, call in (('select', lambda: ds.select(q)), ('select_one', lambda: ds.select_one(q)),
                       ('exists', lambda: ds.exists(q)), ('select in place', lambda: ds.select(q, copy=False))):
        check(raises(call), '%s accepted the malformed query %r', what, q)
    g.same_records(ds.values_list(), rows, 'dataset after rejected queries')


UNITS = [
    Unit('query', gen(), fn, 'table x backend x 1-3 conditions x chained selects; non-trivial: the filter keeps some but not all rows',
         quick=7000, thorough=60000),
    Unit('malformed', gen_bad(), fn_bad, 'queries outside the grammar must be refused and change nothing; every case non-trivial',
         quick=800, thorough=6000),
]
