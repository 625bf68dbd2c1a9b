"""C24: the loss tracker against a plain record of what was added."""
from fractions import Fraction as F

from hypothesis import strategies as st

import matplotlib
matplotlib.use('Agg')
from DRecPy.Evaluation import LossTracker
from core import Unit, check

ID = 'C24'
ASSUMPTIONS = ['epochs are reported in non-decreasing order, as training does']
FINDINGS = {}
OPS = st.one_of(
    st.tuples(st.just('loss'), st.integers(-400, 4000).map(lambda x: x / 8)),
    st.tuples(st.just('loss'), st.floats(-1e6, 1e6, allow_nan=False)),
    st.tuples(st.just('result'), st.sampled_from(['NDCG', 'HR@10', 'HR@5', 'val']), st.floats(-10, 10, allow_nan=False), st.integers(0, 3)),
    st.tuples(st.just('reset')), st.tuples(st.just('graph'), st.booleans()))


def fn(ctx, case):
    trackers = [LossTracker() for _ in range(2)]
    models = [{'losses': [], 'results': {}, 'epochs': [], 'epoch': case['first']} for _ in range(2)]
    kinds = set()
    for which, op in case['ops']:
        t, m = trackers[which], models[which]
        kinds.add(op[0])
        if op[0] == 'loss':
            t.add_epoch_loss(op[1])
            m['losses'].append(op[1])
        elif op[0] == 'result':
            m['epoch'] += op[3]
            t.add_epoch_callback_result(op[1], op[2], m['epoch'])
            m['results'].setdefault(op[1], []).append(op[2])
            if m['epoch'] not in m['epochs']:
                m['epochs'].append(m['epoch'])
        elif op[0] == 'reset':
            t.reset_epoch_losses()
            m['losses'] = []
        elif all(len(v) == len(m['epochs']) for v in m['results'].values()) and len(case['ops']) < 8:
            import matplotlib.pyplot as plt
            t.display_graph(model_name='x' if op[1] else None, stopping_epoch=1 if op[1] else None)
            plt.close('all')
            ctx.label('graph')
        for t, m in zip(trackers, models):
            check(list(t.epoch_losses) == m['losses'], 'losses are %r, added %r', t.epoch_losses, m['losses'])
            check(t.epoch_callback_results == m['results'], 'results are %r, added %r', t.epoch_callback_results, m['results'])
            check(list(t.called_epochs) == m['epochs'], 'epochs are %r, reported %r', t.called_epochs, m['epochs'])
            want = float(sum(map(F, m['losses'])) / len(m['losses'])) if m['losses'] else 0
            scale = max([1] + [abs(x) for x in m['losses']])
            check(abs(t.get_epoch_avg_loss() - want) <= 1e-9 * scale, 'average is %r, expected %r', t.get_epoch_avg_loss(), want)
    ctx.label(*kinds)
    ctx.nontrivial({'loss', 'reset'} <= kinds and max(len(m['losses']) for m in models) > 1)


UNITS = [Unit('history', st.fixed_dictionaries({'first': st.integers(0, 3), 'ops': st.lists(st.tuples(st.integers(0, 1), OPS), min_size=1, max_size=25)}), fn,
              'operation sequences on two trackers; non-trivial: losses and resets, with at least two losses after a reset or at the end', quick=6000, thorough=150000)]
