"""C06: projections and aggregates: values / values_list / unique / count_unique / max / min against a naive model."""
from hypothesis import strategies as st

from core import Unit, check, raises
import dsgen as g

ID = 'C06'
ASSUMPTIONS = ['unique / count_unique are asked for columns other than the record id']
FINDINGS = {}


@st.composite
def gen(draw):
    t = draw(g.tables(max_rows=16, id_kinds=('int', 'small', 'str', 'big', 'ones', 'aas', 'ones', 'aas', 'float', 'huge'), wide=g.WIDE))
    pick = lambda extra: draw(st.lists(st.sampled_from(t['columns'] + extra), min_size=1, max_size=4, unique=True))
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'opt': draw(st.sampled_from(['default', 'eager', 'mid'])),
            'cols': pick(['rid']), 'ucols': pick([]), 'filter': draw(st.one_of(st.none(), g.conditions(t, max_size=2))),
            'ids': draw(st.booleans()), 'inplace': draw(st.booleans()), 'all': draw(st.integers(0, 4)) == 0}


POOLS = [[1, 11, 111], [1, 12, 2, 112], ['a', 'aa', 'aaa'], ['a', 'ab', 'b', 'ba'], ['x', 'x y', 'y'], ['a_', '_a', 'a', '_']]


@st.composite
def gen_alike(draw):
    """Few, alike ids in both columns, so that different pairs look the same when put together."""
    us, its = draw(st.sampled_from([(k, k) for k in range(len(POOLS))] + [(0, 1), (2, 3), (0, 2)]))
    n = draw(st.integers(2, 9))
    cols = draw(st.permutations(['user', 'item', 'interaction']))
    val = {'user': st.sampled_from(POOLS[us]), 'item': st.sampled_from(POOLS[its]), 'interaction': st.sampled_from([1, 11, 111])}
    rows = [[draw(val[c]) for c in cols] for _ in range(n)]
    kind = lambda k: 'int' if k < 2 else 'str'
    t = {'columns': list(cols), 'types': {'user': kind(us), 'item': kind(its), 'interaction': 'num'}, 'rows': rows, 'chunk': None}
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'opt': 'default', 'cols': list(cols), 'ucols': draw(st.sampled_from([['user', 'item'], ['item', 'user'], ['user', 'interaction'], ['item', 'interaction']])),
            'filter': None, 'ids': draw(st.booleans()), 'inplace': draw(st.booleans()), 'all': False}


def fn(ctx, case):
    g.set_opt(case['opt'])
    t = case['table']
    rows = g.model_rows(t)
    ds = g.build(ctx, t, case['backend'])
    state = {'ordered': True}
    if case['ids']:
        ds.assign_internal_ids()
    if case['filter']:
        ds = ctx.track(ds.select(g.query_text(case['filter'])))
        rows = [r for r in rows if g.matches(r, case['filter'])]
        state['ordered'] = case['backend'] != 'db'
    cols = case['cols']
    ctx.label(case['backend'], 'filtered' if case['filter'] else 'full', 'empty' if not rows else 'nonempty')
    ctx.nontrivial(len(rows) > 1)

    def seq(x):
        return [g.norm_rec(r) if isinstance(r, dict) else ([g.norm(v) for v in r] if isinstance(r, (list, tuple)) else g.norm(r)) for r in x]

    def cmp(got, want, what, ordered=None):
        ordered = state['ordered'] if ordered is None else ordered
        got, want = seq(got), seq(want)
        if not ordered:
            canon = lambda x: repr(sorted(x.items())) if isinstance(x, dict) else repr(x)
            got, want = sorted(got, key=canon), sorted(want, key=canon)
        check(got == want, '%s: got %r, expected %r', what, got, want)

    # projections
    for f, name in ((ds.values_list, 'values_list'), (lambda *a, **k: list(ds.values(*a, **k)), 'values')):
        cmp(f(list(cols)), [{c: r[c] for c in cols} for r in rows], f'{name}({cols})')
        want = [[r[c] for c in cols] for r in rows]
        cmp(f(list(cols), to_list=True), [w[0] for w in want] if len(cols) == 1 else want, f'{name}({cols}, to_list)')
        cmp(f(cols[0], to_list=True), [r[cols[0]] for r in rows], f'{name}({cols[0]!r}, to_list)')
        cmp(f(columns=cols[0]), [{cols[0]: r[cols[0]]} for r in rows], f'{name}({cols[0]!r})')
    full = [{k: v for k, v in r.items() if k not in ('uid', 'iid')} for r in ds.values_list()]
    cmp(full, rows, 'values_list()')
    allrows = ds.values_list(to_list=True)
    names = list(ds.columns)
    cmp([{c: v for c, v in zip(names, r) if c not in ('uid', 'iid')} for r in allrows], rows, 'values_list(to_list) follows .columns')

    # aggregates
    if rows:
        for c in t['columns'] + ['rid']:
            check(g.norm(ds.max(c)) == g.norm(max(r[c] for r in rows)), 'max(%s) is %r for %r', c, ds.max(c), [r[c] for r in rows])
            check(g.norm(ds.min(c)) == g.norm(min(r[c] for r in rows)), 'min(%s) is %r for %r', c, ds.min(c), [r[c] for r in rows])
    # unique
    u = t['columns'] if case['all'] and not case['ids'] else case['ucols']
    seen, first = set(), []
    for r in rows:
        k = tuple(g.norm(r[c]) for c in u)
        if k not in seen:
            seen.add(k)
            first.append(r)
    call = (lambda f, **kw: f(**kw)) if case['all'] and not case['ids'] else (lambda f, **kw: f(list(u), **kw))
    check(call(ds.count_unique) == len(first), 'count_unique(%r) is %r, expected %d', u, call(ds.count_unique), len(first))
    if len(u) == 1:
        check(ds.count_unique(u[0]) == len(first), 'count_unique(%r) is %r, expected %d', u[0], ds.count_unique(u[0]), len(first))
    for a in t['columns']:
        for b in t['columns']:
            if a < b:
                want = len({(g.norm(r[a]), g.norm(r[b])) for r in rows})
                check(ds.count_unique([a, b]) == want, 'count_unique(%r) is %r, expected %d', [a, b], ds.count_unique([a, b]), want)
    state['ordered'] = case['backend'] != 'db'  # the order of derived database datasets is not specified
    uq = ctx.track(call(ds.unique))
    check(len(uq) == len(first), 'len(unique(%r)) is %d, expected %d', u, len(uq), len(first))
    check(set(uq.columns) == set(u) | {'rid'}, 'unique(%r) has the columns %r', u, uq.columns)
    cmp(uq.values_list(list(u) + ['rid']), [{c: r[c] for c in list(u) + ['rid']} for r in first], f'unique({u})')
    check(len(ds) == len(rows), 'unique changed its source')
    cmp([{k: v for k, v in r.items() if k not in ('uid', 'iid')} for r in ds.values_list()], rows, 'source after unique')
    if rows:
        c = u[0]
        check(g.norm(uq.max(c)) == g.norm(max(r[c] for r in rows)), 'max over unique')
        # selecting on the result
        v = first[-1][c]
        sel = ctx.track(uq.select(f'{c} == {g.lit(v)}'))
        cmp(sel.values_list(list(u)), [{x: r[x] for x in u} for r in first if r[c] == v], 'select on unique')
    # refusals
    for bad in (lambda: ds.max('nope'), lambda: ds.min('nope'), lambda: ds.max(), lambda: ds.min(None), lambda: ds.values_list(['user', 'nope']),
                lambda: ds.unique(['nope']), lambda: ds.count_unique('nope'), lambda: ds.values_list('nope')):
        check(raises(bad), 'an unknown column was accepted')
    if case['inplace']:
        check(call(ds.unique, copy=False) is ds, 'unique(copy=False) must return the instance')
        cmp(ds.values_list(list(u) + ['rid']), [{c: r[c] for c in list(u) + ['rid']} for r in first], 'in-place unique')
        check(len(ds) == len(first), 'in-place unique: len')


UNITS = [Unit('alike', gen_alike(), fn, 'the same on few ids that are alike; non-trivial: at least two records', quick=1200, thorough=20000),
         Unit('projections', gen(), fn, 'table x backend x filter x column subsets; non-trivial: at least two records', quick=8500, thorough=120000)]
