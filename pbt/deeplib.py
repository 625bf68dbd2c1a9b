"""The trained recommenders of the repository, at sizes at which one fit takes a fraction of a second."""
import os
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
import warnings
warnings.filterwarnings('ignore')

import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from DRecPy.Recommender import CDAE, DMF, Caser, RecommenderABC
from DRecPy.Recommender.Baseline import ItemKNN, UserKNN
import dsgen as g

tf.config.threading.set_inter_op_parallelism_threads(1)
tf.config.threading.set_intra_op_parallelism_threads(1)
CLASSES = {'CDAE': CDAE, 'DMF': DMF, 'Caser': Caser, 'UserKNN': UserKNN, 'ItemKNN': ItemKNN}
L, T = 2, 1


@st.composite
def tables(draw, **kw):
    """Every user has at least L + T + 1 records and lacks two of the items, so that every model can be trained and ranks something."""
    nu = draw(st.integers(2, 4))
    ni = 2 * nu + draw(st.integers(3, 4))
    uk, ik = draw(st.sampled_from(['int', 'plain', 'off'])), draw(st.sampled_from(['int', 'plain', 'off']))
    name = lambda kind, p, i: {'int': i, 'plain': '%s%d' % (p, i), 'off': 10 + 3 * i}[kind]
    rows = []
    inter = st.sampled_from([1, 2, 3, 4, 5])
    stamp = draw(st.booleans())
    for u in range(nu):
        own, never = [2 * u, 2 * u + 1], [2 * ((u + 1) % nu), 2 * ((u + 1) % nu) + 1]
        rest = [i for i in range(ni) if i not in own + never]
        its = own + draw(st.permutations(rest))[:draw(st.integers(L + T - 1, len(rest)))]
        for i in its:
            rows.append([name(uk, 'u', u), name(ik, 'i', i), draw(inter)])
    rows[0][2] = 5
    rows = draw(st.permutations(rows))
    cols = ['user', 'item', 'interaction', 'timestamp']
    types = {'user': 'str' if uk == 'plain' else 'int', 'item': 'str' if ik == 'plain' else 'int', 'interaction': 'num', 'timestamp': 'int'}
    times = draw(st.permutations(range(len(rows))))
    return {'columns': cols, 'types': types, 'rows': [r + [t] for r, t in zip(rows, times)], 'chunk': None}


@st.composite
def configs(draw, classes=('CDAE', 'DMF', 'Caser')):
    c = draw(st.sampled_from(classes))
    p = {'seed': draw(st.integers(0, 50))}
    if c == 'CDAE':
        p.update(hidden_factors=draw(st.sampled_from([2, 4])), corruption_level=draw(st.sampled_from([0.0, 0.2, 0.5])), loss=draw(st.sampled_from(['bce', 'mse'])))
    elif c == 'DMF':
        d = draw(st.sampled_from([2, 4]))
        p.update(user_factors=draw(st.sampled_from([[d], [6, d]])), item_factors=draw(st.sampled_from([[d], [5, d]])), use_nce=draw(st.booleans()), l2_norm_vectors=draw(st.booleans()))
    elif c == 'Caser':
        p.update(L=L, T=T, d=draw(st.sampled_from([2, 4])), n_v=draw(st.sampled_from([1, 2])), n_h=draw(st.sampled_from([2, 3])), dropout_rate=draw(st.sampled_from([0.0, 0.5])),
                 sort_column=draw(st.sampled_from(['timestamp', 'timestamp', 'rid'])))
    elif c != 'Bias':
        p.update(k=draw(st.sampled_from([1, 2, 20])), m=draw(st.sampled_from([0, 1])), sim_metric=draw(st.sampled_from(['cosine', 'adjusted_cosine', 'msd', 'pearson', 'jaccard', 'cosine_cf'])),
                 aggregation=draw(st.sampled_from(['mean', 'weighted_mean'])), shrinkage=draw(st.sampled_from([None, 100])), use_averages=draw(st.booleans()))
    if draw(st.booleans()):
        p['interaction_threshold'] = draw(st.sampled_from([1] if c == 'Caser' else [1, 2]))
    f = {'epochs': draw(st.integers(1, 2)), 'batch_size': draw(st.sampled_from([1, 3, 4])), 'learning_rate': draw(st.sampled_from([0.001, 0.05])), 'neg_ratio': draw(st.sampled_from([1, 2])) if c == 'Caser' else draw(st.sampled_from([0, 1, 3])),
         'reg_rate': draw(st.sampled_from([0.0, 0.01]))}
    return {'class': c, 'params': p, 'fit': f}


def make(conf, **kw):
    p = dict(conf['params'])
    return CLASSES[conf['class']](verbose=False, **dict(p, **kw))


def answers(model, users, items, novelty=False):
    """Everything the model says: {user: [(score, item)]}."""
    out = {}
    for u in users:
        out[u] = [(float(s), i.item() if hasattr(i, 'item') else i) for s, i in model.rank(u, list(items), novelty=novelty)]
    return out


def close(a, b):
    """Equal answers: the same scores up to rounding."""
    if list(a) != list(b):
        return False
    for u in a:
        x, y = {i: s for s, i in a[u]}, {i: s for s, i in b[u]}
        if set(x) != set(y) or not all(abs(x[i] - y[i]) <= 1e-5 * max(1, abs(x[i])) for i in x):
            return False
    return True


class Bias(RecommenderABC):
    """Trains a variable per user and a layer; the answer is their sum."""
    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        rng = np.random.RandomState(self.seed)
        self.b = tf.Variable(rng.uniform(size=[self.n_users, self.n_items]).astype('float32'))
        self.layer = tf.keras.layers.Dense(1, kernel_initializer=tf.keras.initializers.Constant(float(rng.uniform())))
        self.layer.build((None, 1))
        self._register_trainables([self.b, self.layer])

    def _sample_batch(self, batch_size, **kwds):
        recs = self.interaction_dataset.values_list(columns=['uid', 'iid', 'interaction'], to_list=True)
        return [recs[self._rng.randint(0, len(recs) - 1)] for _ in range(batch_size)]

    def _predict_batch(self, batch_samples, **kwds):
        return tf.stack([self._value(int(u), int(i)) for u, i, _ in batch_samples]), [float(x) for _, _, x in batch_samples]

    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        return tf.reduce_mean((predictions - tf.constant(desired_values)) ** 2)

    def _value(self, uid, iid):
        return tf.reshape(self.layer(tf.reshape(self.b[uid, iid], [1, 1])), [])

    def _predict(self, uid, iid, **kwds):
        return float(self._value(uid, iid))


CLASSES['Bias'] = Bias
