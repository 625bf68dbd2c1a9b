"""C19: similarity functions against dense definitions, for every input format, with and without the out-of-memory path."""
import math
from contextlib import ExitStack
from fractions import Fraction as F
from unittest import mock

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from DRecPy.Recommender.Baseline import similarity as S
from core import Unit, check

ID = 'C19'
ASSUMPTIONS = ['trailing rows without any similarity may be left out of the matrix (the repository\'s own tests expect it): they count as zeros', 'values are multiples of 1/4; an entry equal to 0 is a missing value', 'the similarity of two rows without any value is not defined for Jaccard']
FINDINGS = {}
NAMES = ['cosine_sim', 'cosine_sim_cf', 'adjusted_cosine_sim', 'jaccard_sim', 'pearson_corr', 'msd']
FORMATS = ['list', 'array', 'csr', 'lil', 'coo', 'csc', 'unsorted_csr']


@st.composite
def gen(draw):
    n, m = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    if draw(st.integers(0, 3)) == 0:  # rows with few distinct values: constant rows, equal rows, opposite rows
        vals = st.sampled_from([0, 0, 4, 8])
    else:
        vals = st.one_of(st.just(0), st.integers(1, 20), st.integers(-8, 20))
    rows = [[draw(vals) for _ in range(m)] for _ in range(n)]
    if n > 1 and draw(st.integers(0, 4)) == 0:
        rows[draw(st.integers(0, n - 1))] = [0] * m
    return {'m': rows, 'fn': draw(st.sampled_from(NAMES)), 'format': draw(st.sampled_from(FORMATS)), 'oom': draw(st.integers(0, 2)) == 0,
            'int': draw(st.booleans())}



def cos(a, b):
    num = sum((x * y for x, y in zip(a, b)), F(0))
    da, db = sum((x * x for x in a), F(0)), sum((x * x for x in b), F(0))
    if da == 0 or db == 0:
        return 0.0
    return float(num) / math.sqrt(float(da)) / math.sqrt(float(db))


def expected(name, a, b, lo, hi):
    co = [(x, y) for x, y in zip(a, b) if x != 0 and y != 0]
    if name == 'cosine_sim':
        return cos(a, b)
    if name == 'adjusted_cosine_sim':
        def adj(r):
            k = [x for x in r if x != 0]
            mean = sum(k, F(0)) / len(k) if k else 0
            return [x - mean if x != 0 else F(0) for x in r]
        return cos(adj(a), adj(b))
    if name == 'cosine_sim_cf':
        return cos([x for x, _ in co], [y for _, y in co])
    if name == 'jaccard_sim':
        union = sum(1 for x, y in zip(a, b) if x != 0 or y != 0)
        return len(co) / union if union else None
    if name == 'pearson_corr':
        if not co:
            return 0.0
        ma, mb = sum((x for x, _ in co), F(0)) / len(co), sum((y for _, y in co), F(0)) / len(co)
        return cos([x - ma for x, _ in co], [y - mb for _, y in co])
    if not co:
        return 0.0
    rng = (hi - lo) or 1
    return 1 - float(sum(((x - y) / rng) ** 2 for x, y in co) / len(co))


def to_format(rows, fmt):
    if fmt == 'list':
        return [list(r) for r in rows]
    a = np.array(rows)
    if fmt == 'array':
        return a
    if fmt == 'unsorted_csr':
        c = sparse.csr_matrix(a)
        data, ind = [], []
        for k in range(c.shape[0]):
            s, e = c.indptr[k], c.indptr[k + 1]
            data += list(c.data[s:e][::-1])
            ind += list(c.indices[s:e][::-1])
        return sparse.csr_matrix((np.array(data, dtype=a.dtype), np.array(ind, dtype=c.indices.dtype), c.indptr), shape=c.shape)
    return {'csr': sparse.csr_matrix, 'lil': sparse.lil_matrix, 'coo': sparse.coo_matrix, 'csc': sparse.csc_matrix}[fmt](a)


def dense(m):
    return m.toarray() if sparse.issparse(m) else np.array(m)


def fn(ctx, case):
    rows = [[F(v, 4) for v in r] for r in case['m']]
    if case['int']:
        rows = [[F(v) for v in r] for r in case['m']]
    plain = [[int(v) if case['int'] else float(v) for v in r] for r in rows]
    arg = to_format(plain, case['format'])
    before = dense(arg).copy()
    name = case['fn']
    with ExitStack() as stack:
        if case['oom']:
            # every sparse product whose result is rows x rows fails for lack of memory

            def dot(self, other, *a, **k):
                raise MemoryError()
            if name == 'jaccard_sim':
                stack.enter_context(mock.patch.object(sparse.csr_matrix, 'dot', dot))
                ctx.label('out of memory')
        with np.errstate(all='ignore'):
            got = getattr(S, name)(arg)
    check(sparse.issparse(got), '%s returns a %r', name, type(got))
    got = got.toarray()
    n = len(rows)
    check(got.shape[0] == got.shape[1] <= n, '%s of %d rows has shape %r', name, n, got.shape)
    got = np.pad(got, ((0, n - len(got)), (0, n - len(got))))
    check(np.array_equal(dense(arg), before), '%s changed its argument', name)
    flat = [v for r in rows for v in r]
    for i in range(n):
        for j in range(n):
            want = expected(name, rows[i], rows[j], min(flat), max(flat))
            if want is None:
                continue
            check(abs(got[i, j] - want) < 1e-7, '%s of rows %r and %r is %r, by definition %r', name, plain[i], plain[j], got[i, j], want)
    ctx.label(name, case['format'])
    ctx.nontrivial(n > 1 and any(sum(1 for x, y in zip(rows[i], rows[j]) if x != 0 and y != 0) > 1 for i in range(n) for j in range(i)))


UNITS = [Unit('similarity', gen(), fn, 'matrix x function x input format x out-of-memory fault; non-trivial: two rows share at least two columns',
              quick=24000, thorough=600000)]
