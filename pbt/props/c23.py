"""C23: epoch callbacks and early stopping, with models whose weights after every epoch are recorded or known in advance."""
from unittest import mock

import matplotlib
matplotlib.use('Agg')
import numpy as np
from hypothesis import strategies as st

from core import Unit, check, raises
import deeplib as d
import tensorflow as tf
from DRecPy.Recommender import RecommenderABC
from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC, InvalidEpochValidationResultsException
import dsgen as g

ID = 'C23'
ASSUMPTIONS = ['without progress logs and without a rule, callbacks need not be called', 'metric names hold no @ unless the rule names one']
FINDINGS = {}
TABLE = {'columns': ['user', 'item', 'interaction'], 'types': {'user': 'int', 'item': 'int', 'interaction': 'num'}, 'rows': [[1, 1, 1], [1, 2, 3], [2, 1, 5]]}


class Linear(RecommenderABC):
    """Trains a variable, a layer and a network; the gradient at epoch e is `slopes[e]` for each weight, so with plain gradient
    descent the weights are known."""
    def __init__(self, kinds, slopes, **kwds):
        super().__init__(**kwds)
        self.kinds, self.slopes, self.calls, self.losses = kinds, slopes, 0, []

    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        self.calls, self.losses, self.batches = 0, [], []
        self.parts = []
        ones = tf.keras.initializers.Ones()
        if 'weight' in self.kinds:
            self.v = tf.Variable([0.5, -1.0])
            self._register_trainable(self.v)
        if 'layer' in self.kinds:
            self.layer = tf.keras.layers.Dense(2, kernel_initializer=ones)
            self.layer.build((None, 2))
            self._register_trainable(self.layer)
        if 'model' in self.kinds:
            self.net = tf.keras.Sequential([tf.keras.layers.Input(shape=(2,)), tf.keras.layers.Dense(3, kernel_initializer=ones), tf.keras.layers.Dense(1, kernel_initializer=ones)])
            self._register_trainable(self.net)

    def snapshot(self):
        out = []
        if 'weight' in self.kinds:
            out.append(np.array(self.v))
        if 'layer' in self.kinds:
            out += [np.array(w) for w in self.layer.get_weights()]
        if 'model' in self.kinds:
            out += [np.array(w) for w in self.net.get_weights()]
        return out

    def _sample_batch(self, batch_size, **kwds):
        self.batches.append(batch_size)
        return [0] * batch_size

    def _predict_batch(self, batch_samples, **kwds):
        total = 0.
        if 'weight' in self.kinds:
            total += tf.reduce_sum(self.v)
        if 'layer' in self.kinds:
            total += sum(tf.reduce_sum(tf.convert_to_tensor(w)) for w in self.layer.trainable_weights)
        if 'model' in self.kinds:
            total += sum(tf.reduce_sum(tf.convert_to_tensor(w)) for w in self.net.trainable_weights)
        return total, None

    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        loss = predictions * self.slopes[self.calls % len(self.slopes)]
        self.calls += 1
        self.losses.append(float(loss))
        return loss

    def _predict(self, uid, iid, **kwds):
        return 0.


class Chooser(EarlyStoppingRuleABC):
    """Follows a script: at its k-th computation it names script[k] % (current epoch + 1), or can not be computed."""
    def __init__(self, script, stop_at, floor):
        super().__init__(required_validation_metrics=['a'])
        self.script, self.stop_at, self.floor, self.calls, self.asked, self.best, self.model = script, stop_at, floor, [], [], None, None

    def _compute_best_epoch(self, losses, results, called, **kwds):
        self.calls.append(([float(x) for x in losses], {k: list(v) for k, v in results.items()}, list(called)))
        n = self.script[len(self.calls) % len(self.script)]
        if n == 99:
            raise InvalidEpochValidationResultsException('not now')
        now = len(losses)
        self.best = max(self.floor, n % (now + 1))
        return self.best

    def stop_training(self, current_epoch, best_computed_epoch, target_epoch, **kwds):
        self.asked.append((current_epoch, best_computed_epoch, target_epoch))
        return current_epoch >= self.stop_at


@st.composite
def gen(draw):
    return {'kinds': draw(st.lists(st.sampled_from(['weight', 'layer', 'model']), min_size=1, max_size=3, unique=True)), 'slopes': draw(st.lists(st.sampled_from([0.5, 1.0, -2.0, 4.0, 0.25]), min_size=1, max_size=4)),
            'epochs': draw(st.integers(1, 7)), 'cb': draw(st.one_of(st.none(), st.integers(1, 8), st.integers(1, 3))), 'cb_freq': draw(st.sampled_from([None, 1, 1, 2, 3])),
            'rule': draw(st.sampled_from(['chooser', 'chooser', 'max', 'max', None])), 'rule_freq': draw(st.sampled_from([None, 1, 1, 2, 3, 4])),
            'script': draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 99]), min_size=1, max_size=5)), 'stop': draw(st.sampled_from([2, 4, 100])),
            'values': draw(st.lists(st.sampled_from([0.0, 0.5, 1.0, 1.0, 2.0, -1.0]), min_size=8, max_size=8)), 'metrics': draw(st.sampled_from([['a'], ['a', 'b'], ['b', 'a'], ['a@5', 'b@5'], ['b']])),
            'verbose': draw(st.booleans()), 'optimizer': draw(st.sampled_from(['sgd', 'sgd', 'adam', None])), 'batch': draw(st.sampled_from([1, 4, 32])), 'twice': draw(st.integers(0, 3)) == 0}


def fn(ctx, case):
    g.set_opt('default')
    model = Linear(case['kinds'], case['slopes'], verbose=case['verbose'], seed=1)
    for _ in range(2 if case['twice'] else 1):
        once(ctx, case, model)
    if case['twice']:
        ctx.label('fitted twice')


def once(ctx, case, model):
    epochs, metrics = case['epochs'], case['metrics']
    snaps, called = {}, []

    def callback(m):
        check(m is model, 'the callback was given %r', m)
        e = model.calls
        called.append(e)
        snaps[e] = model.snapshot()
        return {name: case['values'][e] + (1 if name.startswith('b') else 0) for name in metrics}

    rule = {'chooser': lambda: Chooser(case['script'], case['stop'], 0 if case['verbose'] else 1), 'max': lambda: MaxValidationValueRule('a'), None: lambda: None}[case['rule']]()
    kw = {}
    if case['cb_freq'] is not None:
        kw['epoch_callback_freq'] = case['cb_freq']
    if case['rule_freq'] is not None:
        kw['early_stopping_freq'] = case['rule_freq']
    opt = {'sgd': lambda: tf.keras.optimizers.SGD(learning_rate=0.125), 'adam': lambda: tf.keras.optimizers.Adam(learning_rate=0.5), None: lambda: None}[case['optimizer']]()
    graph = mock.Mock()
    epoch_snaps = []
    real = model._sample_batch

    def sampling(*a, **k):  # the weights at the start of each epoch are those at the end of the one before
        epoch_snaps.append(model.snapshot())
        return real(*a, **k)
    model._sample_batch = sampling
    with mock.patch('DRecPy.Evaluation.LossTracker.display_graph', graph):
        model.fit(g.build(ctx, TABLE, 'mem_df'), epochs=epochs, batch_size=case['batch'], learning_rate=0.25, reg_rate=0.0, optimizer=opt, early_stopping_rule=rule,
                  epoch_callback_fn=None if case['cb'] is None else callback, **kw)
    model._sample_batch = real
    final = model.snapshot()
    cbf, rf = case['cb_freq'] or 5, case['rule_freq'] or 5
    ran = model.calls
    check(model.batches == [case['batch']] * ran, 'batch sizes %r', model.batches)
    check(len(epoch_snaps) == ran, 'sampled %d batches in %d epochs', len(epoch_snaps), ran)
    same = lambda a, b: len(a) == len(b) and all(np.allclose(x, y, atol=1e-6) for x, y in zip(a, b))
    # plain gradient descent: every weight moved by -rate * slope at each epoch
    if case['optimizer'] == 'sgd':
        for e in range(1, ran):
            step = 0.125 * case['slopes'][(e - 1) % len(case['slopes'])]
            check(all(np.allclose(x - step, y, atol=1e-5) for x, y in zip(epoch_snaps[e - 1], epoch_snaps[e])), 'epoch %d moved the weights from %r to %r, not by %r', e, epoch_snaps[e - 1], epoch_snaps[e], step)
    # callbacks
    active = case['cb'] is not None and (case['verbose'] or rule is not None)
    want = ([0] if case['verbose'] else []) + [e for e in range(1, ran + 1) if e % cbf == 0]
    if active:
        check(called == want, 'the callback was called at epochs %r, expected %r', called, want)
        for e in called:
            if e < ran:
                check(same(snaps[e], epoch_snaps[e]), 'the callback saw other weights than those of epoch %d', e)
    history = {n: [case['values'][e] + (1 if n.startswith('b') else 0) for e in want] for n in metrics} if active else {}
    # the rule
    best = None
    if isinstance(rule, Chooser):
        computable = lambda e: active and any(x <= e for x in want) and any(n.split('@')[0] == 'a' for n in metrics)
        stops = [e for e in range(1, epochs + 1) if e % rf == 0]
        times, k, last = [], 0, None
        expected_ran = epochs
        asked = []
        for e in stops + ([epochs] if epochs % rf else []):
            if not computable(e):
                continue
            k += 1
            n = case['script'][k % len(case['script'])]
            times.append(e)
            if n == 99:
                continue
            last = max(rule.floor, n % (e + 1))
            if e % rf == 0:
                asked.append((e, last, epochs))
                if e >= case['stop']:
                    expected_ran = e
                    break
        check(ran == expected_ran, '%d epochs were run, expected %d', ran, expected_ran)
        check(rule.asked == asked, 'asked to stop with %r, expected %r', rule.asked, asked)
        check(len(rule.calls) == len(times), 'the rule was computed %d times, expected at epochs %r', len(rule.calls), times)
        for (losses, results, eps), e in zip(rule.calls, times):
            check(len(losses) == e and np.allclose(losses, model.losses[:e], rtol=1e-5, atol=1e-5), 'the rule was given the losses %r, the true ones are %r', losses, model.losses[:e])
            upto = [x for x in want if x <= e]
            check(eps == upto, 'the rule was given the epochs %r, expected %r', eps, upto)
            check({k2: list(v) for k2, v in results.items()} == {n.split('@')[0]: history[n][:len(upto)] for n in metrics}, 'the rule was given %r, expected %r', results, history)
        best = last
    else:
        check(ran == epochs, '%d epochs were run instead of %d', ran, epochs)
        if rule is not None and active and want and any(n.split('@')[0] == 'a' for n in metrics):
            vals = [case['values'][e] for e in want]
            best = want[vals.index(max(vals))]
            ctx.label('max rule')
    # the final weights
    if best is not None and best < ran:
        check(same(final, epoch_snaps[best]), 'the best epoch is %d, whose weights were %r; the model was left with %r (last epoch %d)', best, epoch_snaps[best], final, ran)
        ctx.label('reverted')
        ctx.nontrivial()
    else:
        if ran in snaps:
            check(same(final, snaps[ran]), 'the weights of the last epoch were %r; the model was left with %r', snaps[ran], final)
        if case['optimizer'] == 'sgd':
            step = 0.125 * case['slopes'][(ran - 1) % len(case['slopes'])]
            check(all(np.allclose(x - step, y, atol=1e-5) for x, y in zip(epoch_snaps[-1], final)), 'the last epoch moved the weights from %r to %r, not by %r', epoch_snaps[-1], final, step)
        ctx.nontrivial(ran > 1)
    check(model.fitted, 'not fitted')
    if case['verbose']:
        ctx.label('verbose')
    ctx.label(*case['kinds'])


@st.composite
def gen_max(draw):
    n = draw(st.integers(1, 9))
    name = draw(st.sampled_from(['a', 'a@5', 'HitRatio']))
    vals = lambda: draw(st.lists(st.sampled_from([0.0, 1.0, 1.0, 2.0, -3.0, 0.5]), min_size=n, max_size=n))
    return {'name': name, 'vals': vals(), 'other': vals(), 'epochs': sorted(draw(st.sets(st.integers(0, 50), min_size=n, max_size=n))), 'suffix': draw(st.sampled_from(['', '@3'])) if '@' not in name else '',
            'order': draw(st.booleans()), 'bad': draw(st.sampled_from([None, None, None, 'missing', 'empty', 'nodict', 'nolist', 'emptylist']))}


def fn_max(ctx, case):
    rule = MaxValidationValueRule(case['name'])
    res = [(case['name'] + case['suffix'], list(case['vals'])), ('other' + case['suffix'], list(case['other']))]
    res = dict(res if case['order'] else res[::-1])
    key = case['name'] + case['suffix']
    if case['bad']:
        if case['bad'] == 'missing':
            del res[key]
        elif case['bad'] == 'empty':
            res = {}
        elif case['bad'] == 'nodict':
            res = [1]
        elif case['bad'] == 'nolist':
            res[key] = 3
        else:
            res[key] = []
        check(raises(rule.compute, [1.0] * 50, res, list(case['epochs'])), 'results %r were accepted', res)
        return
    got = rule.compute([1.0] * 50, res, list(case['epochs']))
    want = case['epochs'][case['vals'].index(max(case['vals']))]
    check(got == want, 'results %r at epochs %r: the best epoch is %r, not %r', case['vals'], case['epochs'], want, got)
    check(not rule.stop_training(case['epochs'][-1], got, 60), 'the rule must never stop the training')
    ctx.nontrivial(len(set(case['vals'])) > 1)


UNITS = [
    Unit('fit', gen(), fn, 'kinds of trainables x epochs x callback and rule frequencies x results x rule scripts (best epochs, failures, stops) x optimizers x verbose x fitted twice; non-trivial: weights are '
         'reverted, or two or more epochs are run', quick=1200, thorough=16000, budget_quick=100),
    Unit('rule', gen_max(), fn_max, 'the maximum-value rule on generated histories; non-trivial: values differ', quick=1600, thorough=20000),
]
