"""C11: the list sampler against the sequences computed from the rows."""
from hypothesis import strategies as st

from core import Unit, check, raises
from DRecPy.Sampler import ListSampler
import dsgen as g

ID = 'C11'
ASSUMPTIONS = ['ratios are integers', 'a request may fail only if, groups being drawn uniformly, 21 infeasible draws in a row have a chance above 1e-9', 'records that are equal in the sort column keep their order']
FINDINGS = {}


@st.composite
def gen(draw):
    t = draw(g.tables(min_rows=3, max_rows=18, wide=g.WIDE, id_kinds=('small', 'plain', 'str', 'int'), max_distinct=draw(st.sampled_from([2, 3, 8]))))
    nums = [c for c in t['columns']]
    groups = draw(st.sampled_from([['uid'], ['uid'], ['user'], ['iid'], ['item'], ['user', 'iid'], ['uid', 'interaction']] + ([['tag'], ['tag', 'uid']] if 'tag' in nums else [])))
    mn = draw(st.integers(1, 4))
    return {'table': t, 'backend': draw(st.sampled_from(g.BACKENDS)), 'opt': draw(st.sampled_from(['default', 'eager', 'mid'])), 'groups': groups,
            'ratio': draw(st.integers(0, 3)), 'targets': draw(st.one_of(st.none(), st.integers(1, 4), st.integers(1, 2))),
            'neg_col': draw(st.sampled_from(['iid', 'iid', 'item', 'uid', 'user'])),
            'thr': draw(st.one_of(st.none(), g.thresholds(t), st.integers(-4, 14).map(lambda x: x / 4), st.integers(0, 4))),
            'sort': draw(st.one_of(st.none(), st.sampled_from(nums + ['rid', 'uid']))), 'min': mn,
            'max': draw(st.one_of(st.none(), st.integers(mn, mn + 4))), 'n': draw(st.one_of(st.integers(0, 8), st.integers(0, 8), st.sampled_from([25, 40]))), 'seed': draw(st.integers(0, 10 ** 6)),
            'post': draw(st.one_of(st.none(), st.none(), g.conditions(t, max_size=1)))}


def fn(ctx, case):
    g.set_opt(case['opt'])
    ds = g.build(ctx, case['table'], case['backend'])
    check(raises(ListSampler, ds, ['user']), 'a dataset without internal ids must be refused')
    ds.assign_internal_ids()
    rows = [g.norm_rec(r) for r in ds.values_list()]
    if case['post']:
        keep = [r for r in rows if g.matches(r, case['post'])]
        if keep:
            ds, rows = ctx.track(ds.select(g.query_text(case['post']))), keep
    T, R, mn, mx, col, thr = case['targets'], case['ratio'], case['min'], case['max'], case['neg_col'], case['thr']
    groups = {}
    for r in sorted(rows, key=lambda r: r['rid']):
        s = groups.setdefault(tuple(r[c] for c in case['groups']), [])
        if thr is None or r['interaction'] >= thr:
            s.append(r)
    if case['sort']:
        for s in groups.values():
            s.sort(key=lambda r: r[case['sort']])
    all_ids = {r[col] for r in rows}

    def feasible(s):
        if T is None:
            return len(s) >= mn
        return len(s) >= mn + T and len(all_ids - {r[col] for r in s}) >= R * T
    ok = {k for k, s in groups.items() if feasible(s)}
    kw = dict(neg_ratio=R, n_targets=T, negative_ids_col=col, interaction_threshold=thr, sort_column=case['sort'], min_positive_records=mn,
              max_positive_records=mx, seed=case['seed'])
    check(raises(ListSampler, ds, case['groups'], **{**kw, 'sort_column': 'nope'}), 'an unknown sort column must be refused')
    check(raises(ListSampler, ds, case['groups'], **{**kw, 'max_positive_records': mn - 1}), 'a maximum below the minimum must be refused')
    check(raises(ListSampler, ds, case['groups'], **{**kw, 'n_targets': 0}), 'zero targets must be refused')
    sampler = ListSampler(ds, list(case['groups']), **kw)
    try:
        out = sampler.sample_group_records(case['n'])
    except Exception as e:
        # each sequence is tried over 20 times
        check(case['n'] * (1 - len(ok) / len(groups)) ** 21 > 1e-9, '%d of %d groups can be sampled, but the request failed: %r', len(ok), len(groups), e)
        ctx.label('refused')
        return
    check(len(out) == case['n'], 'asked for %d sequences, got %d', case['n'], len(out))
    for x in out:
        pos, tgt, neg = x if T is not None else (x, None, None)
        pos = [g.norm_rec(r) for r in pos]
        check(pos, 'empty sequence')
        k = tuple(pos[0][c] for c in case['groups'])
        check(k in groups, 'sequence of group %r, which does not exist', k)
        s = groups[k]
        check(k in ok, 'group %r cannot satisfy the request: positives %r', k, s)
        check(len(pos) >= mn and (mx is None or len(pos) <= mx), 'sequence of %d records, asked for %r to %r', len(pos), mn, mx)
        rids = [r['rid'] for r in s]
        check(pos[0] in s, 'the sequence holds %r, which is not a positive record of group %r', pos[0], k)
        start = rids.index(pos[0]['rid'])
        check(s[start:start + len(pos)] == pos, 'sequence %r is not contiguous in the positives of the group, in order: %r', pos, s)
        if T is None:
            check(len(pos) == (len(s) if mx is None else min(mx, len(s))), 'sequence of %d out of %d positives (maximum %r)', len(pos), len(s), mx)
            continue
        tgt = [g.norm_rec(r) for r in tgt]
        check(len(tgt) == T, '%d targets, asked for %d', len(tgt), T)
        check(s[start + len(pos):start + len(pos) + T] == tgt, 'targets %r do not follow the sequence %r in %r', tgt, pos, s)
        check(len(pos) == (len(s) - T if mx is None else min(mx, len(s) - T)), 'sequence of %d out of %d positives with %d targets (maximum %r)', len(pos), len(s), T, mx)
        neg = [g.norm(v) for v in neg]
        check(len(neg) == R * T and len(set(neg)) == len(neg), '%r negatives, asked for %d distinct ones', neg, R * T)
        bad = set(neg) - (all_ids - {r[col] for r in s})
        check(not bad, 'negative ids %r are positive for the group, or do not exist', bad)
        ctx.nontrivial(len(pos) > 1 and len(ok) > 0)
        ctx.label('targets', 'window' if mx is not None and len(s) > mx + T else 'whole group')
    if out and T is None:
        ctx.label('sequences')
        ctx.nontrivial(any(len(x) > 1 for x in out))
    again = ListSampler(ds, list(case['groups']), **kw).sample_group_records(case['n'])

    def plain(o):
        return [[[g.norm_rec(r) for r in p] if T is None else ([g.norm_rec(r) for r in p[0]], [g.norm_rec(r) for r in p[1]], list(map(g.norm, p[2])))] for p in o]
    check(plain(again) == plain(out), 'the same seed gave different samples')
    g.same_records(ds.values_list(), rows, 'the dataset after sampling')
    if case['n'] and mx is not None and ok == set(groups):
        # every group, and every window of a group, can come up
        seen, need = set(), {(k, w) for k, s in groups.items() for w in range(max(len(s) - (T or 0) - mx, 0) + 1)}
        if len(need) <= 8:
            for _ in range(60):
                for x in sampler.sample_group_records(10):
                    p = g.norm_rec((x if T is None else x[0])[0])
                    k = tuple(p[c] for c in case['groups'])
                    seen.add((k, [r['rid'] for r in groups[k]].index(p['rid'])))
                if seen >= need:
                    break
            check(seen >= need, 'never drawn in 600 samples: %r', need - seen)
            ctx.label('coverage')


UNITS = [Unit('lists', gen(), fn, 'dataset x grouping x sizes x ratio x threshold x seed; non-trivial: a sequence of at least two records was drawn', quick=7000, thorough=80000)]
