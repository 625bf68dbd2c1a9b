"""C02: operation histories. Any interleaving of operations on a dataset and its derived instances (which share
storage behind the scenes) is equivalent to each instance being its own independent list of records."""
import gc

from hypothesis import strategies as st

from core import Unit, check, raises
import dsgen as g

ID = 'C02'
ASSUMPTIONS = ['no value-changing operation (apply, id assignment) while an iterator over the same storage is half read, '
               'and no in-place operation on the very instance being iterated',
               'an instance is not used after close()']
FINDINGS = {}

NUM_FNS = {'inc': lambda x: x + 1, 'dbl': lambda x: x * 2, 'half': lambda x: x / 2, 'neg': lambda x: -x,
           'toint': lambda x: int(x), 'tofloat': lambda x: float(x) + 0.5}
def failing(f, n):
    """Fails at its n-th call; every type of result, before and after."""
    calls = [0]

    def g(x):
        calls[0] += 1
        if calls[0] > n:
            raise ZeroDivisionError('injected')
        return f(x)
    return g


FAIL_FNS = {'inc': lambda x: x + 1, 'str': str, 'neg': lambda x: -x, 'int': lambda x: 7, 'float': lambda x: 2.5}
STR_FNS = {'up': lambda s: s.upper(), 'suf': lambda s: s + 'q', 'len': lambda s: len(s)}

KINDS = ['select', 'select', 'select_in', 'unique', 'unique_in', 'drop', 'drop_in', 'copy', 'apply', 'apply', 'apply_fail', 'assign',
         'assign', 'remove', 'close', 'gc', 'iter_open', 'iter_next', 'iter_end', 'read', 'read', 'read', 'look', 'save']


@st.composite
def gen(draw, backend=None):
    tabs = draw(st.lists(g.tables(max_rows=10, id_kinds=('int', 'small', 'str', 'ones', 'aas', 'float'), wide=g.WIDE), min_size=1, max_size=2))
    n = draw(st.integers(3, 16))
    ops = []
    for _ in range(n):
        kind = draw(st.sampled_from(KINDS))
        op = {'op': kind, 'i': draw(st.integers(0, 5)), 'seed': draw(st.integers(0, 40)), 'k': draw(st.integers(0, 5))}
        if kind.startswith('select'):
            op['conds'] = [draw(g.conditions(t, max_size=2)) for t in tabs]
        if kind.startswith('drop'):
            op['rids'] = draw(st.lists(st.integers(0, 10), max_size=4))
            op['keep'] = draw(st.booleans())
        if kind == 'apply_fail':
            op['f'] = draw(st.sampled_from(sorted(FAIL_FNS)))
        if kind == 'apply':
            op['num'] = draw(st.sampled_from(sorted(NUM_FNS)))
            op['str'] = draw(st.sampled_from(sorted(STR_FNS)))
        ops.append(op)
    return {'tables': tabs, 'ops': ops, 'backend': backend or draw(st.sampled_from(['mem_df', 'mem_csv', 'db', 'db', 'db'])),
            'opt': draw(st.sampled_from(['default', 'eager', 'mid']))}


class Inst:
    note_len = int_str = False  # the values of note and interaction became lengths and strings

    def __init__(self, ds, group, rows, cols, types, ids=False):
        self.ds, self.group, self.rows, self.cols, self.types, self.ids = ds, group, rows, cols, types, ids

    def derive(self, ds, rows=None, cols=None):
        return Inst(ds, self.group, [dict(r) for r in (self.rows if rows is None else rows)],
                    list(self.cols if cols is None else cols), dict(self.types), self.ids)

    def verify(self, what):
        check(len(self.ds) == len(self.rows), '%s: len is %d, expected %d', what, len(self.ds), len(self.rows))
        check(set(self.ds.columns) == set(self.cols), '%s: columns %r, expected %r', what, self.ds.columns, self.cols)
        g.same_records(self.ds.values_list(), [{c: r[c] for c in self.cols} for r in self.rows], what)


def learn_ids(inst, what):
    """After id assignment: validity of the assignment, then remember it."""
    recs = [g.norm_rec(r) for r in inst.ds.values_list(['rid', 'user', 'item', 'uid', 'iid'])]
    check(len(recs) == len(inst.rows), '%s: %d records, expected %d', what, len(recs), len(inst.rows))
    by_rid = {r['rid']: r for r in recs}
    for raw, iid in (('user', 'uid'), ('item', 'iid')):
        pairs = {(r[raw], r[iid]) for r in recs}
        raws = {p[0] for p in pairs}
        check(len(pairs) == len(raws) and sorted(p[1] for p in pairs) == list(range(len(raws))),
              '%s: %s ids are not a bijection onto 0..n-1: %r', what, raw, sorted(pairs, key=str))
    for r in inst.rows:
        got = by_rid[r['rid']]
        r['uid'], r['iid'] = got['uid'], got['iid']


def fn(ctx, case):
    g.set_opt(case['opt'])
    insts, iters = [], []
    for gi, t in enumerate(case['tables']):
        insts.append(Inst(g.build(ctx, t, case['backend']), gi, g.model_rows(t), t['columns'] + ['rid'],
                          dict(t['types'], rid='int')))
    ctx.label(case['backend'], case['opt'])
    n_derived = n_mut = 0
    db = case['backend'] == 'db'

    def add(inst):
        insts.append(inst)
        ctx.track(inst.ds)

    for step, op in enumerate(case['ops']):
        kind = op['op']
        inst = insts[op['i'] % len(insts)]
        ds = inst.ds
        tag = f'step {step} {kind}'
        busy = any(it['group'] == inst.group for it in iters) and db
        if kind in ('select_in', 'unique_in', 'drop_in', 'remove', 'assign', 'apply') and any(it['inst'] is inst for it in iters):
            continue  # changing the very instance that is being iterated
        base_cols = [c for c in inst.cols if c not in ('rid', 'uid', 'iid')]
        if kind in ('select', 'select_in'):
            conds = [c for c in op['conds'][inst.group] if c[0] in inst.cols and inst.types.get(c[0]) == case['tables'][inst.group]['types'].get(c[0], 'int')]
            if not conds:
                continue
            rows = [r for r in inst.rows if g.matches(r, conds)]
            q = g.query_text(conds)
            if kind == 'select':
                if len(insts) >= 6:
                    continue
                new = inst.derive(ds.select(q), rows)
                add(new)
                check(len(new.ds) == len(rows), '%s: len %d, expected %d', tag, len(new.ds), len(rows))
                n_derived += 1
            else:
                ds.select(q, copy=False)
                inst.rows = rows
                check(len(ds) == len(rows), '%s: len %d, expected %d', tag, len(ds), len(rows))
                n_mut += 1
        elif kind in ('unique', 'unique_in'):
            cols = [c for k, c in enumerate(base_cols) if (op['seed'] >> k) & 1] or base_cols[:1]
            seen, rows = set(), []
            for r in sorted(inst.rows, key=lambda r: r['rid']):
                key = tuple(g.norm(r[c]) for c in cols)
                if key not in seen:
                    seen.add(key)
                    rows.append(r)
            ncols = cols + ['rid']
            arg = list(cols)
            if kind == 'unique':
                if len(insts) >= 6:
                    continue
                new = inst.derive(ds.unique(arg), rows, ncols)
                new.ids = False if not inst.ids else inst.ids
                add(new)
                n_derived += 1
            else:
                if len(insts) < 2:
                    continue
                ds.unique(arg, copy=False)
                inst.rows, inst.cols = rows, ncols
                n_mut += 1
            check(arg == cols, '%s: unique changed the column list it was given: %r -> %r', tag, cols, arg)
        elif kind in ('drop', 'drop_in'):
            rids = [int(r) for r in op['rids']]
            rows = [r for r in inst.rows if (r['rid'] in rids) == op['keep']]
            if kind == 'drop':
                if len(insts) >= 6:
                    continue
                add(inst.derive(ds.drop(list(rids), keep=op['keep']), rows))
                n_derived += 1
            else:
                ds.drop(list(rids), copy=False, keep=op['keep'])
                inst.rows = rows
                n_mut += 1
        elif kind == 'copy':
            if len(insts) >= 6:
                continue
            add(inst.derive(ds.copy()))
            n_derived += 1
        elif kind == 'apply':
            if busy or not inst.rows:
                continue
            cands = [c for c in base_cols if c not in ('user', 'item')]
            if not cands:
                continue
            col = cands[op['seed'] % len(cands)]
            if inst.types[col] == 'str':
                f = STR_FNS[op['str']]
                if op['str'] == 'len':
                    inst.types[col] = 'num'
            else:
                f = NUM_FNS[op['num']]
                inst.types[col] = 'num'
            ds.apply(col, f)
            for r in inst.rows:
                r[col] = f(r[col])
            n_mut += 1
        elif kind == 'apply_fail':
            cands = [c for c in base_cols if c not in ('user', 'item')]
            if busy or not inst.rows or not cands:
                continue
            col = cands[op['seed'] % len(cands)]
            f = FAIL_FNS['str' if inst.types[col] == 'str' else op['f']]
            check(raises(lambda: ds.apply(col, failing(f, op['k'] % len(inst.rows)))), '%s: an apply whose function fails did not fail', tag)
            check(raises(lambda: ds.apply('user', lambda x: x)), '%s: a read-only column was changed', tag)
            inst.verify(tag)
            ctx.label('failed apply')
        elif kind == 'assign':
            if busy or not inst.rows or 'user' not in inst.cols or 'item' not in inst.cols or 'interaction' not in inst.cols:
                continue
            ds.assign_internal_ids()
            inst.ids = True
            if 'uid' not in inst.cols:
                inst.cols = inst.cols + ['uid', 'iid']
            learn_ids(inst, tag)
            n_mut += 1
        elif kind == 'remove':
            if 'uid' not in inst.cols:
                continue
            ds.remove_internal_ids()
            inst.ids = False
            inst.cols = [c for c in inst.cols if c not in ('uid', 'iid')]
        elif kind in ('close', 'gc'):
            if len(insts) < 2 or any(it['inst'] is inst for it in iters):
                continue
            insts.remove(inst)
            if kind == 'close' and db:
                ds.close()
                if op['seed'] % 2:
                    g.use_closed(ds, op['seed'] // 2)
                    ctx.label('closed one used')
            else:
                ctx._closers[:] = [d for d in ctx._closers if d is not ds]
            inst.ds = ds = None
            if op['k'] % 2:
                gc.collect()
        elif kind == 'iter_open':
            if not inst.rows or len(iters) >= 2:
                continue
            it = ds.values(['rid'] + base_cols)
            want = [{c: r[c] for c in ['rid'] + base_cols} for r in inst.rows]
            iters.append({'inst': inst, 'group': inst.group, 'it': it, 'got': [dict(next(it))], 'want': want})
            ctx.label('iterator')
        elif kind == 'iter_next':
            if not iters:
                continue
            e = iters[op['k'] % len(iters)]
            for _ in range(op['k']):
                try:
                    e['got'].append(dict(next(e['it'])))
                except StopIteration:
                    break
        elif kind == 'iter_end':
            if not iters:
                continue
            e = iters.pop(op['k'] % len(iters))
            finish(e, close=op['seed'] % 3 == 0, tag=tag)
        elif kind == 'read':
            read(inst, op, tag)
        elif kind == 'look':
            for k, x in enumerate(insts):
                x.verify(f'{tag}: instance {k}')
        elif kind == 'save':
            if 'user' in inst.cols:
                ds.save(ctx.path('out.csv'))

    for e in iters:
        finish(e, False, 'end')
    iters.clear()
    for k, x in enumerate(insts):
        x.verify(f'final state of instance {k}')
    if n_derived and n_mut:
        ctx.nontrivial()


def finish(e, close, tag):
    if close and hasattr(e['it'], 'close'):
        e['it'].close()
    else:
        while True:
            try:
                e['got'].append(dict(next(e['it'])))
            except StopIteration:
                break
        g.same_records(e['got'], e['want'], f'{tag}: records seen by an iterator')
    e['it'] = None


def read(inst, op, tag):
    ds, rows = inst.ds, inst.rows
    cols = inst.cols
    col = cols[op['seed'] % len(cols)]
    k = op['k']
    if k == 0:
        check(len(ds) == len(rows), '%s: len', tag)
    elif k == 1 and rows:
        check(g.norm(ds.max(col)) == g.norm(max(r[col] for r in rows)), '%s: max(%s) is %r', tag, col, ds.max(col))
    elif k == 2 and rows:
        check(g.norm(ds.min(col)) == g.norm(min(r[col] for r in rows)), '%s: min(%s) is %r', tag, col, ds.min(col))
    elif k == 3:
        if col == 'rid':
            return
        want = len({g.norm(r[col]) for r in rows})
        check(ds.count_unique(col) == want, '%s: count_unique(%s) is %r, expected %d', tag, col, ds.count_unique(col), want)
    elif k == 4:
        got = sorted((g.norm(v) for v in ds.values_list(col, to_list=True)), key=g.key)
        check(got == sorted((g.norm(r[col]) for r in rows), key=g.key), '%s: values_list(%s) is %r', tag, col, got)
    elif k == 5 and rows:
        r = rows[op['seed'] % len(rows)]
        got = ds.select_one(f'rid == {r["rid"]}')
        check(got is not None and g.norm_rec(got) == g.norm_rec({c: r[c] for c in cols}), '%s: select_one(rid) is %r, expected %r', tag, got, r)


@st.composite
def gen_large(draw):
    n = draw(st.sampled_from([1001, 1025, 2500, 5200]))
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        ops.append([draw(st.sampled_from(['select', 'drop', 'drop', 'keep', 'unique', 'copy', 'apply', 'assign'])), draw(st.booleans()), draw(st.integers(0, n)),
                    draw(st.sampled_from([1, 2, 3, 7])), draw(st.integers(0, 3))])
    return {'n': n, 'ops': ops, 'backend': draw(st.sampled_from(['mem_df', 'db', 'db'])), 'opt': draw(st.sampled_from(['default', 'mid']))}


def fn_large(ctx, case):
    """The same, on thousands of records, with operations on over a thousand of them."""
    g.set_opt(case['opt'])
    n = case['n']
    t = {'columns': ['user', 'item', 'interaction'], 'rows': [[k % 37, k * 7 % 53, float(k % 11)] for k in range(n)]}
    insts = [Inst(g.build(ctx, t, case['backend']), 0, g.model_rows(t), t['columns'] + ['rid'], {})]
    ctx.label(case['backend'])
    for step, (kind, in_place, a, stride, i) in enumerate(case['ops']):
        inst = insts[i % len(insts)]
        tag = 'step %d %s' % (step, kind)
        rows = inst.rows
        if kind in ('select', 'drop', 'keep', 'unique', 'copy'):
            ncols = inst.cols
            if kind == 'select':
                col, v = (('rid', a), ('user', a % 37), ('item', a % 53))[stride % 3]
                if col not in inst.cols:
                    continue
                rows = [r for r in rows if r[col] > v]
                ds = inst.ds.select(f'{col} > {v}', copy=not in_place)
            elif kind in ('drop', 'keep'):
                rids = [k for k in range(0, n, stride)]
                if a % 2:
                    rids.reverse()
                s_ = set(rids)
                rows = [r for r in rows if (r['rid'] in s_) == (kind == 'keep')]
                ds = inst.ds.drop(list(rids), copy=not in_place, keep=kind == 'keep')
            elif kind == 'unique':
                cols = [['user', 'item'], ['user'], ['item', 'interaction']][stride % 3]
                if not set(cols) <= set(inst.cols):
                    continue
                seen = {}
                for r in sorted(rows, key=lambda r: r['rid']):
                    seen.setdefault(tuple(r[c] for c in cols), r)
                rows, ncols = list(seen.values()), cols + ['rid']
                ds = inst.ds.unique(list(cols), copy=not in_place)
            else:
                ds, in_place = inst.ds.copy(), False
            if in_place:
                inst.rows, inst.cols = rows, ncols
            elif len(insts) < 4:
                insts.append(inst.derive(ctx.track(ds), rows, ncols))
            else:
                insts[i % 4] = inst.derive(ctx.track(ds), rows, ncols)
            if len(rows) > 1000:
                ctx.nontrivial()
        elif kind == 'apply':
            if 'interaction' not in inst.cols or not rows:
                continue
            inst.ds.apply('interaction', lambda x: x * stride + a)
            for r in rows:
                r['interaction'] = r['interaction'] * stride + a
        elif kind == 'assign':
            if not {'user', 'item', 'interaction'} <= set(inst.cols) or not rows:
                continue
            inst.ds.assign_internal_ids()
            if 'uid' not in inst.cols:
                inst.cols = inst.cols + ['uid', 'iid']
            learn_ids(inst, tag)
    for k, x in enumerate(insts):
        x.verify(f'final state of instance {k}')


@st.composite
def gen_bulky(draw):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append([draw(st.sampled_from(['fail', 'fail', 'fail', 'apply', 'select', 'copy', 'drop', 'save'])), draw(st.sampled_from(['interaction', 'note'])), draw(st.booleans()),
                    draw(st.integers(0, 1500)), draw(st.integers(0, 2))])
    return {'n': draw(st.sampled_from([400, 1100, 1300])), 'width': draw(st.sampled_from([600, 3900, 4100])), 'ops': ops,
            'backend': draw(st.sampled_from(['mem_df', 'db', 'db', 'db'])), 'opt': draw(st.sampled_from(['default', 'mid']))}


def fn_bulky(ctx, case):
    """Records with long text values, so that changing all of them does not fit in the buffers of a storage engine."""
    g.set_opt(case['opt'])
    n, w = case['n'], case['width']
    t = {'columns': ['user', 'item', 'interaction', 'note'], 'rows': [[k % 37, k * 7 % 53, float(k % 11), ('%d-' % k) * (w // (len(str(k)) + 1))] for k in range(n)]}
    insts = [Inst(g.build(ctx, t, case['backend']), 0, g.model_rows(t), t['columns'] + ['rid'], {})]
    ctx.label(case['backend'])
    for step, (kind, col, flag, a, i) in enumerate(case['ops']):
        inst = insts[i % len(insts)]
        tag = 'step %d %s' % (step, kind)
        if not inst.rows:
            continue
        if kind == 'fail':
            if col == 'note' and inst.note_len:
                continue
            f = (lambda v: v + 1) if col == 'interaction' else (lambda v: v + '!')
            if flag:
                f = (lambda v: 'v%g' % v) if col == 'interaction' and not inst.int_str else len if col == 'note' else f
            if col == 'interaction' and inst.int_str:
                f = lambda v: v + '!'
            check(raises(lambda: inst.ds.apply(col, failing(f, a % len(inst.rows)))), '%s: an apply whose function fails did not fail', tag)
            if len(inst.rows) * w > 3000000 and a % len(inst.rows) > 1000:
                ctx.nontrivial()
            ctx.label('failed apply')
            inst.verify(tag)
        elif kind == 'apply':
            if col == 'note' and not inst.note_len:
                f = len if flag else lambda v: v + '!'
                inst.note_len = flag
            elif col == 'interaction' and not inst.int_str:
                f = (lambda v: 'v%g' % v) if flag else lambda v: v + 1
                inst.int_str = flag
            else:
                continue
            inst.ds.apply(col, f)
            for r in inst.rows:
                r[col] = f(r[col])
        elif kind == 'save':
            p = ctx.path('s%d.csv' % step)
            inst.ds.save(p)
        else:
            rows, ds = inst.rows, None
            if kind == 'select':
                rows, ds = [r for r in rows if r['user'] > a % 37], inst.ds.select('user > %d' % (a % 37), copy=not flag)
            elif kind == 'drop':
                rows, ds = [r for r in rows if r['rid'] >= a // 2], inst.ds.drop(range(a // 2), copy=not flag)
            else:
                ds, flag = inst.ds.copy(), False
            if flag:
                inst.rows = rows
            elif len(insts) < 3:
                new = inst.derive(ctx.track(ds), rows, inst.cols)
                new.note_len, new.int_str = inst.note_len, inst.int_str
                insts.append(new)
    for k, x in enumerate(insts):
        x.verify(f'final state of instance {k}')


@st.composite
def gen_long(draw):
    return {'n': draw(st.integers(5, 40)), 'steps': draw(st.sampled_from([30, 49, 51, 99, 101, 130, 250, 1050])), 'apply': draw(st.sampled_from([0, 0, 7, 60])),
            'cycle': draw(st.lists(st.tuples(st.sampled_from(['select', 'select', 'drop', 'drop', 'keep', 'copy', 'len', 'max']), st.booleans(), st.integers(0, 40)).map(list),
                                   min_size=1, max_size=6)),
            'backend': draw(st.sampled_from(['mem_df', 'db', 'db', 'db'])), 'opt': draw(st.sampled_from(['default', 'default', 'mid']))}


def fn_long(ctx, case):
    """Long sequences of operations that each leave most of the records."""
    g.set_opt(case['opt'])
    n = case['n']
    t = {'columns': ['user', 'item', 'interaction'], 'rows': [[k % 7, k * 7 % 5, float(k % 11)] for k in range(n)]}
    first = inst = Inst(g.build(ctx, t, case['backend']), 0, g.model_rows(t), t['columns'] + ['rid'], {})
    ctx.label(case['backend'])
    n_ops = 0
    for step in range(case['steps']):
        kind, in_place, a = case['cycle'][step % len(case['cycle'])]
        a = a * (step // 37 + 1) % 53
        if kind in ('len', 'max'):
            check(len(inst.ds) == len(inst.rows), 'step %d: len is %d, expected %d', step, len(inst.ds), len(inst.rows))
            if kind == 'max' and inst.rows:
                m = max(r['interaction'] for r in inst.rows)
                check(inst.ds.max('interaction') == m, 'step %d: max is not %r', step, m)
            continue
        if kind == 'select':
            col = ('rid', 'interaction')[step % 2]
            v = a if col == 'rid' else 10.5 + a
            rows, ds = [r for r in inst.rows if r[col] != v], inst.ds.select(f'{col} != {v}', copy=not in_place)
        elif kind == 'drop':
            rows, ds = [r for r in inst.rows if r['rid'] != a], inst.ds.drop([a], copy=not in_place)
        elif kind == 'keep':
            rids = [k for k in range(n) if k != a]
            rows, ds = [r for r in inst.rows if r['rid'] != a], inst.ds.drop(rids, copy=not in_place, keep=True)
        else:
            rows, ds, in_place = inst.rows, inst.ds.copy(), False
        n_ops += 1
        if in_place:
            inst.rows = [r for r in inst.rows if r in rows]
        else:
            inst = inst.derive(ds, rows)
            if inst.ds is first.ds:
                raise AssertionError('same instance')
        if case['apply'] and step % case['apply'] == case['apply'] - 1 and inst.rows:
            inst.ds.apply('interaction', lambda x: x + 1)
            for r in inst.rows:
                r['interaction'] += 1
    ctx.track(inst.ds)
    inst.verify('final state')
    first.verify('the first instance')
    ctx.nontrivial(n_ops > 45)


UNITS = [
    Unit('long', gen_long(), fn_long, 'sequences of up to 1050 operations on a few records; non-trivial: over 45 of them', quick=80, thorough=1500),
    Unit('bulky', gen_bulky(), fn_bulky, 'histories over megabytes of records, with functions that fail half way; non-trivial: a failure after over a thousand records', quick=60, thorough=1500),
    Unit('large', gen_large(), fn_large, 'histories over 1001-5200 records; non-trivial: an operation left over a thousand records', quick=120, thorough=2000),
    Unit('db_histories', gen(backend='db'), fn, 'random histories on one or two database-backed datasets and derived instances; '
         'non-trivial: at least one derived instance and one in-place change', quick=5500, thorough=60000),
    Unit('histories', gen(), fn, 'the same over all backends', quick=3000, thorough=30000),
]
