"""C27: the trained recommenders compute the network of their definition, and training takes the gradient step of its loss."""
import itertools
from unittest import mock

import matplotlib
matplotlib.use('Agg')
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from core import Unit, check
import deeplib as d
import dsgen as g
import netlib as n
from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC

ID = 'C27'
ASSUMPTIONS = ['each user has at least L records for Caser', 'weights are recognised by the shapes of the registered trainables; a model whose trainables are not recognised is not judged',
               'the training step is judged on batches of one or two samples, which the data must explain']
FINDINGS = {}


class Data:
    """What the records say, by internal id."""
    def __init__(self, ds, rows, sort):
        users, items = list(dict.fromkeys(r['user'] for r in rows)), list(dict.fromkeys(r['item'] for r in rows))
        self.n_users, self.n_items = len(users), len(items)
        self.users, self.items = [ds.uid_to_user(u) for u in range(len(users))], [ds.iid_to_item(i) for i in range(len(items))]
        un, it = {u: k for k, u in enumerate(self.users)}, {i: k for k, i in enumerate(self.items)}
        self.matrix = np.zeros((len(users), len(items)))
        for r in rows:
            self.matrix[un[r['user']], it[r['item']]] = r['interaction']
        self.sequences = [[it[r['item']] for r in sorted(rows, key=lambda r: r[sort]) if un[r['user']] == u] for u in range(len(users))]
        vals = [r['interaction'] for r in rows]
        self.low, self.high = (0 if min(vals) == 1 else min(vals)), max(vals)


@st.composite
def tables(draw, L, T):
    """Every item occurs; every user has at least L + T records and lacks four of the items."""
    nu = draw(st.integers(2, 4))
    ni = max(8, L + T + 5)
    uk, ik = draw(st.sampled_from(['int', 'plain', 'off'])), draw(st.sampled_from(['int', 'plain', 'off']))
    name = lambda kind, p, i: {'int': i, 'plain': '%s%d' % (p, i), 'off': 10 + 3 * i}[kind]
    pool = draw(st.sampled_from([[1, 2, 3, 4, 5], [0.5, 1, 1.5, 2.5, 4], [2, 3, 4, 5]]))
    rows = []
    for u in range(nu):
        if u == 0:
            its = range(4, ni)
        elif u == 1:
            its = list(range(4)) + draw(st.permutations(range(8, ni)))[:draw(st.integers(max(0, L + T - 4), ni - 8))]
        else:
            its = draw(st.permutations(range(ni)))[:draw(st.integers(L + T, ni - 4))]
        rows += [[name(uk, 'u', u), name(ik, 'i', i), draw(st.sampled_from(pool))] for i in its]
    rows[0][2], rows[1][2] = pool[0], pool[-1]
    rows = draw(st.permutations(rows))
    times = draw(st.permutations(range(len(rows))))
    cols = ['user', 'item', 'interaction', 'timestamp']
    types = {'user': 'str' if uk == 'plain' else 'int', 'item': 'str' if ik == 'plain' else 'int', 'interaction': 'num', 'timestamp': 'int'}
    return {'columns': cols, 'types': types, 'rows': [r + [t] for r, t in zip(rows, times)], 'chunk': None}


@st.composite
def confs(draw, c, training):
    p = {'seed': draw(st.integers(0, 1000))}
    if c == 'CDAE':
        p.update(hidden_factors=draw(st.sampled_from([2, 3, 5])), corruption_level=draw(st.sampled_from([0.0, 0.0, 0.25, 0.5])), loss=draw(st.sampled_from(['bce', 'mse'])))
    elif c == 'DMF':
        k = draw(st.sampled_from([2, 3, 4]))
        p.update(user_factors=draw(st.sampled_from([[k], [6, k], [5, 3, k]])), item_factors=draw(st.sampled_from([[k], [5, k]])), use_nce=draw(st.booleans()), l2_norm_vectors=draw(st.booleans()))
    else:
        nv = draw(st.sampled_from([1, 2, 3]))
        p.update(L=draw(st.sampled_from([1, 2, 3, 4])), T=draw(st.sampled_from([1, 1, 2])), d=draw(st.sampled_from([2, 3])), n_v=nv, n_h=draw(st.sampled_from([x for x in (1, 2, 3, 4) if x != nv])),
                 dropout_rate=0.0 if training else draw(st.sampled_from([0.0, 0.5])), sort_column=draw(st.sampled_from(['timestamp', 'timestamp', 'rid'])),
                 act_h=draw(st.sampled_from(['relu', 'relu', 'tanh', 'sigmoid'])), act_mlp=draw(st.sampled_from(['relu', 'relu', 'tanh'])))
    if draw(st.booleans()):
        p['interaction_threshold'] = draw(st.sampled_from([0.5] if c == 'Caser' else [1, 2, 3]))
    f = {'neg_ratio': draw(st.sampled_from([1, 2] if c == 'Caser' else [0, 1, 3])), 'reg_rate': draw(st.sampled_from([0.0, 0.05, 0.3]))}
    return {'class': c, 'params': p, 'fit': f}


def make(conf, **kw):
    p = dict(conf['params'])
    for k in ('act_h', 'act_mlp'):
        if k in p:
            p[k] = n.ACTS[p[k]]
    return d.CLASSES[conf['class']](**dict(p, **kw))


@st.composite
def gen_scores(draw):
    conf = draw(confs(draw(st.sampled_from(['CDAE', 'DMF', 'Caser', 'Caser'])), False))
    p = conf['params']
    conf['fit'].update(epochs=draw(st.integers(1, 3)), batch_size=draw(st.integers(1, 4)), learning_rate=draw(st.sampled_from([0.001, 0.1, 0.5])))
    return {'conf': conf, 'table': draw(tables(p.get('L', 2), p.get('T', 1))), 'backend': draw(st.sampled_from(g.BACKENDS)), 'optimizer': draw(st.sampled_from([None, 'sgd']))}


def fn_scores(ctx, case):
    g.set_opt('default')
    conf = case['conf']
    rows = g.model_rows(case['table'])
    ds = g.build(ctx, case['table'], case['backend'])
    model = make(conf, verbose=False)
    model.fit(ds, optimizer=tf.keras.optimizers.SGD(learning_rate=conf['fit']['learning_rate']) if case['optimizer'] else None, **conf['fit'])
    data = Data(model.interaction_dataset, rows, conf['params'].get('sort_column', 'rid'))
    net = n.NETS[conf['class']](data, conf)
    try:
        ws = net.weights(model)
    except n.Unrecognised:
        return ctx.label('not recognised')
    values = set()
    for u in range(data.n_users):
        want = net.scores(ws, u)
        got = {i: float(s) for s, i in model.rank(data.users[u], list(data.items), novelty=False)}
        for i, item in enumerate(data.items):
            check(item in got, 'rank of user %r lacks the item %r', data.users[u], item)
            check(abs(got[item] - want[i]) <= 1e-4 * max(1, abs(want[i])), 'rank of user %r gives the item %r the score %r; the network gives %r', data.users[u], item, got[item], want[i])
            if conf['class'] != 'Caser':
                p = float(model.predict(data.users[u], item))
                check(abs(p - want[i]) <= 1e-4 * max(1, abs(want[i])), 'predict(%r, %r) is %r; the network gives %r', data.users[u], item, p, want[i])
            values.add(round(float(want[i]), 4))
    ctx.nontrivial(len(values) >= 5)
    ctx.label(conf['class'], case['backend'])


class Watch(EarlyStoppingRuleABC):
    """Never stops the training; sees the losses."""
    def __init__(self):
        super().__init__(required_validation_metrics=['a'])
        self.losses = []

    def _compute_best_epoch(self, losses, results, called, **kwds):
        self.losses = [float(x) for x in losses]
        return len(losses)

    def stop_training(self, current_epoch, best_computed_epoch, target_epoch, **kwds):
        return False


@st.composite
def gen_step(draw):
    conf = draw(confs(draw(st.sampled_from(['CDAE', 'DMF', 'Caser'])), True))
    p = conf['params']
    opt = draw(st.sampled_from(['sgd', 'sgd', 'adam'] if conf['class'] != 'Caser' else ['sgd']))
    one = opt == 'adam' or p.get('corruption_level')
    conf['fit'].update(batch_size=1 if one else draw(st.sampled_from([1, 1, 2])), epochs=1 if opt == 'adam' else draw(st.sampled_from([2, 3])), learning_rate=draw(st.sampled_from([0.25, 0.5] if opt == 'sgd' else [0.01, 0.1])))
    return {'conf': conf, 'table': draw(tables(p.get('L', 2), p.get('T', 1))), 'backend': draw(st.sampled_from(g.BACKENDS)), 'optimizer': opt}


def fn_step(ctx, case):
    g.set_opt('default')
    conf, fit = case['conf'], case['conf']['fit']
    rows = g.model_rows(case['table'])
    ds = g.build(ctx, case['table'], case['backend'])
    sgd = case['optimizer'] == 'sgd'
    model = make(conf, verbose=not sgd)
    snaps, watch = [], Watch()

    def callback(m):
        try:
            snaps.append(net(m).weights(m))
        except n.Unrecognised:
            snaps.append(None)
        return {'a': 1.0}
    net = lambda m: n.NETS[conf['class']](Data(m.interaction_dataset, rows, conf['params'].get('sort_column', 'rid')), conf)
    with mock.patch('DRecPy.Evaluation.LossTracker.display_graph', mock.Mock()):
        # the plain descent has another rate than the one given for the default optimizer
        model.fit(ds, epoch_callback_fn=callback, epoch_callback_freq=1, early_stopping_rule=watch, early_stopping_freq=1, optimizer=tf.keras.optimizers.SGD(learning_rate=fit['learning_rate']) if sgd else None,
                  **dict(fit, learning_rate=0.003 if sgd else fit['learning_rate']))
    check(len(snaps) == fit['epochs'] + (not sgd), 'the callback was called %d times in %d epochs', len(snaps), fit['epochs'])
    if None in snaps:
        return ctx.label('not recognised')
    net = net(model)
    shapes = [w.shape for w in snaps[0]]
    for e in range(1, len(snaps)):
        before, after = snaps[e - 1], snaps[e]
        rate = fit['learning_rate']
        step = n.flat(after) - n.flat(before)
        size = fit['batch_size']
        cands = net.samples(before, after, rate if sgd and size == 1 else None)
        reported = watch.losses[e - 1 if not sgd else e]
        l0, g0 = n.gradient(lambda vs: net.reg(vs, fit['reg_rate'], size), before)
        each = [n.gradient(lambda vs: net.loss(vs, s), before) for s in cands]
        best = None
        for combo in itertools.combinations_with_replacement(range(len(cands)), size):
            grad = g0 + sum(each[k][1] for k in combo) / size
            loss = l0 + sum(each[k][0] for k in combo) / size
            if sgd:
                off = np.abs(step + rate * grad).max()
            else:  # the first step of Adam: the rate, in the direction of the gradient, unless that is tiny
                big = np.abs(grad) > 1e-3
                off = max(np.abs(step + rate * np.sign(grad))[big].max() / rate * 1e-3 if big.any() else 0, np.maximum(0, np.abs(step) - rate * 1.001).max())
            off = max(off, abs(loss - reported) / max(1, abs(loss)) / 10)
            if best is None or off < best[0]:
                best = (off, combo, loss)
        tol = 2e-5 + 1e-4 * np.abs(step).max()
        check(best is not None and best[0] <= tol, 'no batch of %d samples explains the weights after epoch %d: the nearest is off by %r (loss %r, reported %r); weights %r', size, e, best and best[0], best and best[2],
              reported, shapes)
        ctx.nontrivial(np.abs(step).max() > 1e-3)
        if size == 2 and len(set(best[1])) == 2:
            ctx.label('two different samples')
    ctx.label(conf['class'], case['optimizer'], case['backend'])


UNITS = [
    Unit('scores', gen_scores(), fn_scores, 'records x network sizes and options x training x storage: predictions and rankings against a numpy network on the trained weights; non-trivial: five different scores',
         quick=700, thorough=9000, budget_quick=45),
    Unit('step', gen_step(), fn_step, 'records x network sizes and options x optimizers: the weights and the loss after an epoch against the gradient step on some batch the data admit; non-trivial: the weights moved',
         quick=500, thorough=8000, budget_quick=60),
]
