"""C04: internal ids. uid/iid are bijections onto 0..n-1, convertible both ways, stable, on every backend."""
import numpy as np
from hypothesis import strategies as st

from core import Unit, check, raises
import dsgen as g

ID = 'C04'
ASSUMPTIONS = ['raw identifiers are integers, decimals or strings, one type per column']
FINDINGS = {}


@st.composite
def gen(draw):
    t = draw(g.tables(max_rows=20, id_kinds=('int', 'small', 'str', 'big', 'ones', 'aas', 'float'), max_distinct=9))
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'opt': draw(st.sampled_from(['default', 'eager', 'mid'])),
            'pre': draw(st.one_of(st.none(), g.conditions(t, max_size=1))), 'post': draw(st.one_of(st.none(), g.conditions(t, max_size=1))),
            'again': draw(st.booleans()), 'verbose': draw(st.integers(0, 5)) == 0}


def mapping(ds, rows, what):
    """Checks the assignment on the records the dataset holds; returns {raw: internal} for both sides."""
    recs = [g.norm_rec(r) for r in ds.values_list()]
    check(len(recs) == len(rows), '%s: %d records, expected %d', what, len(recs), len(rows))
    strip = lambda r: {k: v for k, v in r.items() if k not in ('uid', 'iid')}
    g.same_records(map(strip, recs), rows, what + ': id assignment changed the data')
    out = {}
    for raw, iid in (('user', 'uid'), ('item', 'iid')):
        m = {}
        for r in recs:
            check(isinstance(r[iid], int), '%s: %s %r is not an integer', what, iid, r[iid])
            check(m.setdefault(r[raw], r[iid]) == r[iid], '%s: %s %r has two internal ids', what, raw, r[raw])
        out[raw] = m
    return out


def convert(ds, maps, what):
    for raw, to, back in (('user', ds.user_to_uid, ds.uid_to_user), ('item', ds.item_to_iid, ds.iid_to_item)):
        m = maps[raw]
        for k, v in m.items():
            check(g.norm(to(k)) == v and not isinstance(to(k), str), '%s: %s %r converts to %r, records say %r', what, raw, k, to(k), v)
            got = back(v)
            check(g.norm(got) == k, '%s: internal id %r converts to %s %r, records say %r', what, v, raw, got, k)
            if isinstance(k, int):
                check(g.norm(to(str(k))) == v, '%s: %s given as text %r converts to %r', what, raw, str(k), to(str(k)))
                check(g.norm(to(np.int64(k))) == v, '%s: %s given as numpy integer', what, raw)


def fn(ctx, case):
    g.set_opt(case['opt'])
    t = case['table']
    rows = g.model_rows(t)
    ds = g.build(ctx, t, case['backend'])
    ds.verbose = case['verbose']
    for f in (lambda: ds.user_to_uid(rows[0]['user']), lambda: ds.uid_to_user(0), lambda: ds.item_to_iid(rows[0]['item']), lambda: ds.iid_to_item(0)):
        check(raises(f), 'conversion before id assignment must be refused')
    check(ds.has_internal_ids is False, 'has_internal_ids before assignment')
    if case['pre']:
        keep = [r for r in rows if g.matches(r, case['pre'])]
        if keep:
            ds = ctx.track(ds.select(g.query_text(case['pre'])))
            rows = keep
            ctx.label('assigned on a selection')
    ds.assign_internal_ids()
    check(ds.has_internal_ids is True, 'has_internal_ids after assignment')
    check('uid' in ds.columns and 'iid' in ds.columns, 'columns after assignment: %r', ds.columns)
    maps = mapping(ds, rows, 'assigned')
    for raw in ('user', 'item'):
        check(sorted(maps[raw].values()) == list(range(len(maps[raw]))), '%s ids are %r, not 0..%d', raw, sorted(maps[raw].values()), len(maps[raw]) - 1)
    convert(ds, maps, 'assigned')
    ctx.label(case['backend'], case['opt'])
    ctx.nontrivial(len(maps['user']) > 1 and len(maps['item']) > 1)
    # unknown ids
    check(ds.uid_to_user(len(maps['user'])) is None and ds.uid_to_user(-1) is None, 'unknown uid must convert to None')
    check(ds.iid_to_item(len(maps['item'])) is None and ds.iid_to_item(-1) is None, 'unknown iid must convert to None')
    for raw, to in (('user', ds.user_to_uid), ('item', ds.item_to_iid)):
        ghost = 'gh0st' if t['types'][raw] == 'str' else 987654321
        check(to(ghost) is None, 'unknown %s %r converts to %r', raw, ghost, to(ghost))
    # selecting by internal id
    for raw, iid in (('user', 'uid'), ('item', 'iid')):
        for k, v in list(maps[raw].items())[:3]:
            sel = ctx.track(ds.select(f'{iid} == {v}'))
            g.same_records([{'rid': r['rid']} for r in sel.values_list()], [{'rid': r['rid']} for r in rows if r[raw] == k], f'select by {iid}')
    # ids survive a later selection
    if case['post']:
        sub_rows = [r for r in rows if g.matches(r, case['post'])]
        sub = ctx.track(ds.select(g.query_text(case['post'])))
        if sub_rows:
            sub_maps = mapping(sub, sub_rows, 'selection of an assigned dataset')
            for raw in ('user', 'item'):
                check(all(maps[raw][k] == v for k, v in sub_maps[raw].items()), 'a selection changed internal ids')
            convert(sub, sub_maps, 'selection of an assigned dataset')
            if case['again']:
                sub.assign_internal_ids()
                m2 = mapping(sub, sub_rows, 'reassigned selection')
                for raw in ('user', 'item'):
                    check(sorted(m2[raw].values()) == list(range(len(m2[raw]))), 'reassigned %s ids are not consecutive: %r', raw, m2[raw])
                convert(sub, m2, 'reassigned selection')
                check(sub.uid_to_user(len(m2['user'])) is None, 'reassigned selection: unknown uid')
                ctx.label('reassigned')
        check(mapping(ds, rows, 'source after selection') == maps, 'ids of the source changed')
        convert(ds, maps, 'source after selection')
    # removal
    ds.remove_internal_ids()
    check(ds.has_internal_ids is False and 'uid' not in ds.columns and 'iid' not in ds.columns, 'columns after removal: %r', ds.columns)
    g.same_records(ds.values_list(), rows, 'after removal')
    check(raises(lambda: ds.user_to_uid(rows[0]['user'])), 'conversion after removal must be refused')
    ds.assign_internal_ids()
    m3 = mapping(ds, rows, 'assigned again')
    for raw in ('user', 'item'):
        check(sorted(m3[raw].values()) == list(range(len(m3[raw]))), 'ids after re-assignment are not consecutive')
    convert(ds, m3, 'assigned again')


@st.composite
def gen_many(draw):
    sizes = st.one_of(st.integers(1, 5), st.integers(120, 140), st.integers(250, 262))
    backend = draw(st.sampled_from(['mem_df', 'mem_csv', 'db']))
    nu, ni = draw(sizes), draw(sizes)
    if backend != 'db' and draw(st.integers(0, 7)) == 0:
        nu = draw(st.sampled_from([32767, 32768, 32769, 65537]))
    return {'nu': nu, 'ni': ni, 'backend': backend, 'text': draw(st.booleans()), 'a': draw(st.sampled_from([1, 7, 11])), 'b': draw(st.integers(0, 3))}


def fn_many(ctx, case):
    """Numbers of users and items around the limits of the integer types they could be stored in."""
    g.set_opt('default')
    nu, ni = case['nu'], case['ni']
    n = max(nu, ni)
    name = (lambda k: 'n%d' % k) if case['text'] else (lambda k: k + 5)
    rows = [[name(k * case['a'] % nu if nu % case['a'] else k % nu), name((k + case['b']) % ni), 1.0] for k in range(n)]
    t = {'columns': ['user', 'item', 'interaction'], 'rows': rows}
    ds = g.build(ctx, t, case['backend'])
    ds.assign_internal_ids()
    recs = ds.values_list(['user', 'item', 'uid', 'iid'], to_list=True)
    check(len(recs) == n, '%d records of %d', len(recs), n)
    check([[g.norm(r[0]), g.norm(r[1])] for r in recs] == [r[:2] for r in rows], 'the records changed')
    for raw, k, to, back in (('user', 0, ds.user_to_uid, ds.uid_to_user), ('item', 1, ds.item_to_iid, ds.iid_to_item)):
        m = {}
        for r in recs:
            check(m.setdefault(g.norm(r[k]), g.norm(r[k + 2])) == r[k + 2], '%s %r has two internal ids', raw, r[k])
        check(sorted(m.values()) == list(range(len(m))), '%d %ss: their ids are not 0..n-1', len(m), raw)
        check(ds.count_unique('uid' if raw == 'user' else 'iid') == len(m) == ds.max('uid' if raw == 'user' else 'iid') + 1, '%s: count and maximum', raw)
        for name_, v in list(m.items())[::max(1, len(m) // 50)] + list(m.items())[-2:]:
            check(g.norm(to(name_)) == v and g.norm(back(v)) == name_, '%s %r has id %r; converts to %r and back to %r', raw, name_, v, to(name_), back(v))
        last = len(m) - 1
        sel = ctx.track(ds.select('%s == %d' % ('uid' if raw == 'user' else 'iid', last)))
        check({g.norm(x) for x in sel.values_list(raw, to_list=True)} == {g.norm(back(last))}, 'selecting the last %s by its internal id', raw)
    ctx.label(case['backend'])
    ctx.nontrivial(max(nu, ni) > 100)


UNITS = [Unit('many', gen_many(), fn_many, 'numbers of users and items around 128, 256, 32768, 65536; non-trivial: over 100 of one', quick=250, thorough=2500),
         Unit('ids', gen(), fn, 'table x backend x selection before / after assignment; non-trivial: at least two users and two items',
              quick=8000, thorough=120000)]
