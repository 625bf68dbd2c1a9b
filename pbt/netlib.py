"""Reference networks for the trained recommenders: the scores in plain numpy, the losses in TensorFlow (for gradients). They take
the weights of a fitted model, which are recognised by the shapes of what the model registered as trainable."""
import itertools

import numpy as np
import tensorflow as tf

ACTS = {'relu': tf.nn.relu, 'tanh': tf.nn.tanh, 'sigmoid': tf.nn.sigmoid}
NP_ACTS = {'relu': lambda x: np.maximum(0, x), 'tanh': np.tanh, 'sigmoid': lambda x: 1 / (1 + np.exp(-x))}


class Unrecognised(Exception):
    pass


def find(parts, what):
    got = [p for p in parts if what(p)]
    if len(got) != 1:
        raise Unrecognised
    return got[0]


def parts_of(model):
    """The weights of each registered variable, layer and network."""
    out = [[np.array(w)] for w in model.trainable_weights]
    for part in list(model.trainable_layers) + list(model.trainable_models):
        out.append([np.array(w) for w in part.get_weights()])
    return out


def bce(y, p):
    p = tf.clip_by_value(p, 1e-7, 1 - 1e-7)
    return -(y * tf.math.log(p) + (1 - y) * tf.math.log(1 - p))


class CDAE:
    """sigmoid(sigmoid(x W + V_u + b) W' + b'), x being 1 at the items of the user at or above the threshold."""
    def __init__(self, data, conf):
        self.data, self.conf = data, conf
        p = conf['params']
        self.k, self.q, self.kind = p['hidden_factors'], p['corruption_level'], p['loss']
        self.y = (data.matrix >= p.get('interaction_threshold', 1e-3)).astype('float32')

    def weights(self, model):
        I, U, K = self.data.n_items, self.data.n_users, self.k
        return [find(parts_of(model), lambda p: len(p) == 1 and p[0].shape == s)[0] for s in [(I, K), (K, I), (U, K), (K,), (I,)]]

    def forward(self, ws, x, u):
        W, W_, V, b, b_ = ws
        s = NP_ACTS['sigmoid']
        return s(s(x @ W + V[u] + b) @ W_ + b_)

    def scores(self, ws, u):
        return self.forward(ws, self.y[u], u)

    def samples(self, before, after, rate):
        """(user, input) pairs: with corruption, each one of the input is either lost or scaled up. The step of the output bias (rate
        given: plain gradient descent, one sample) tells most of them apart cheaply."""
        out = []
        for u in range(self.data.n_users):
            if not self.q:
                out.append((u, self.y[u]))
                continue
            ones = np.flatnonzero(self.y[u])
            for bits in itertools.product([0, 1], repeat=len(ones)):
                x = np.zeros_like(self.y[u])
                x[ones] = np.array(bits) / (1 - self.q)
                if rate is not None:
                    p = self.forward(before, x, u)
                    grad = 2 * (p - self.y[u]) * p * (1 - p) if self.kind == 'mse' else p - self.y[u]
                    if np.abs((before[4] - after[4]) / rate - grad / len(p)).max() > 2e-3:
                        continue
                out.append((u, x))
        return out

    def loss(self, ws, s):
        W, W_, V, b, b_ = ws
        u, x = s
        p = tf.sigmoid(tf.sigmoid(tf.constant(x[None], tf.float32) @ W + V[u] + b) @ W_ + b_)[0]
        y = tf.constant(self.y[u])
        return tf.reduce_mean((y - p) ** 2 if self.kind == 'mse' else bce(y, p))

    def reg(self, ws, rate, n):
        return rate / n * sum(tf.reduce_sum(w ** 2) / 2 for w in ws[:3])


class DMF:
    """low + (high - low) * max(1e-6, cos(f(row of the user), g(column of the item))), f and g being relu networks."""
    def __init__(self, data, conf):
        self.data, self.conf = data, conf
        p = conf['params']
        self.f, self.g, self.norm, self.nce = p['user_factors'], p['item_factors'], p['l2_norm_vectors'], p['use_nce']
        self.threshold = p.get('interaction_threshold', 1e-3)

    def weights(self, model):
        parts = parts_of(model)
        out = []
        for n, fs in ((self.data.n_items, self.f), (self.data.n_users, self.g)):
            shapes = [s for a, b in zip([n] + fs, fs) for s in [(a, b), (b,)]]
            out += find(parts, lambda p: [w.shape for w in p] == shapes)
        return out

    def nets(self, ws):
        k = 2 * len(self.f)
        return ws[:k], ws[k:]

    def scores(self, ws, u):
        return np.array([self.data.low + (self.data.high - self.data.low) * self.prob(ws, u, i) for i in range(self.data.n_items)])

    def prob(self, ws, u, i):
        reps = []
        for net, x in zip(self.nets(ws), (self.data.matrix[u], self.data.matrix[:, i])):
            if self.norm and (x ** 2).sum() > 0:
                x = x / np.sqrt((x ** 2).sum())
            for k in range(0, len(net), 2):
                x = np.maximum(0, x @ net[k] + net[k + 1])
            n = np.sqrt((x ** 2).sum())
            reps.append(x / n if n > 1e-6 else x * 0)
        return max(1e-6, float((reps[0] * reps[1]).sum()))

    def samples(self, before, after, rate):
        out = []
        for u in range(self.data.n_users):
            for i in range(self.data.n_items):
                v = self.data.matrix[u, i]
                out.append((u, i, v if v >= self.threshold else 0))
        return out

    def loss(self, ws, s):
        u, i, v = s
        reps = []
        for net, x in zip(self.nets(ws), (self.data.matrix[u], self.data.matrix[:, i])):
            x = tf.constant(x[None], tf.float32)
            if self.norm:
                x = tf.nn.l2_normalize(x, axis=1)
            for k in range(0, len(net), 2):
                x = tf.nn.relu(x @ net[k] + net[k + 1])
            reps.append(tf.nn.l2_normalize(x, axis=1))
        p = tf.maximum(1e-6, tf.reduce_sum(reps[0] * reps[1]))
        return bce((v - self.data.low) / (self.data.high - self.data.low) if self.nce else float(v), p)

    def reg(self, ws, rate, n):
        return rate * sum(tf.reduce_sum(w ** 2) for net in self.nets(ws) for w in net[::2])


class Caser:
    """Vertical and horizontal convolutions over the embeddings of L items in sequence, a dense layer, and a linear layer per item
    over that and the embedding of the user; the score uses the last L items of the user."""
    def __init__(self, data, conf):
        self.data, self.conf = data, conf
        p = conf['params']
        self.L, self.T, self.d, self.nv, self.nh = (p[k] for k in ('L', 'T', 'd', 'n_v', 'n_h'))
        self.act_h, self.act_mlp = p.get('act_h', 'relu'), p.get('act_mlp', 'relu')
        self.neg = conf['fit']['neg_ratio'] * self.T

    def weights(self, model):
        parts = parts_of(model)
        U, I, d, L = self.data.n_users, self.data.n_items, self.d, self.L
        shapes = [[(U, d)], [(I, d)], [(L, d, self.nv), (self.nv,)]] + [[(k + 1, d, self.nh), (self.nh,)] for k in range(L)] + [[(self.nv + self.nh * L, d), (d,)], [(I, 2 * d)], [(I, 1)]]
        return [w for s in shapes for w in find(parts, lambda p: [w.shape for w in p] == s)]

    def scores(self, ws, u):
        E = ws[1][self.data.sequences[u][-self.L:]]
        parts = [np.einsum('ld,ldf->f', E, ws[2]) + ws[3]]
        for k in range(self.L):
            w, b = ws[4 + 2 * k], ws[5 + 2 * k]
            conv = [NP_ACTS[self.act_h](np.einsum('ld,ldf->f', E[j:j + k + 1], w) + b) for j in range(self.L - k)]
            parts.append(np.max(conv, axis=0))
        D, db, W1, b1 = ws[-4:]
        z = NP_ACTS[self.act_mlp](np.concatenate(parts) @ D + db)
        return W1 @ np.concatenate([z, ws[0][u]]) + b1[:, 0]

    def samples(self, before, after, rate):
        """(user, sequence, targets, negatives): the bias of exactly the targets and negatives moves."""
        moved = set(np.flatnonzero(np.abs(before[-1] - after[-1])[:, 0] > 0).tolist())
        out = []
        for u, seq in enumerate(self.data.sequences):
            others = sorted(moved - set(seq))
            for k in range(len(seq) - self.L - self.T + 1):
                pos = seq[k + self.L:k + self.L + self.T]
                if moved >= set(pos):
                    out += [(u, seq[k:k + self.L], pos, list(neg)) for neg in itertools.combinations(others, self.neg)]
        return out

    def loss(self, ws, s):
        u, seq, pos, neg = s
        E = tf.gather(ws[1], seq)
        parts = [tf.einsum('ld,ldf->f', E, ws[2]) + ws[3]]
        for k in range(self.L):
            w, b = ws[4 + 2 * k], ws[5 + 2 * k]
            conv = [ACTS[self.act_h](tf.einsum('ld,ldf->f', E[j:j + k + 1], w) + b) for j in range(self.L - k)]
            parts.append(tf.reduce_max(tf.stack(conv), axis=0))
        D, db, W1, b1 = ws[-4:]
        z = tf.concat([ACTS[self.act_mlp](tf.linalg.matvec(D, tf.concat(parts, 0), transpose_a=True) + db), ws[0][u]], 0)
        its = list(pos) + list(neg)
        p = tf.sigmoid(tf.linalg.matvec(tf.gather(W1, its), z) + tf.gather(b1, its)[:, 0])
        return tf.reduce_mean(bce(tf.constant([1.] * len(pos) + [0.] * len(neg)), p))

    def reg(self, ws, rate, n):
        return rate * sum(tf.reduce_sum(w ** 2) for w in [ws[0], ws[1], ws[2]] + ws[4:4 + 2 * self.L:2] + [ws[-4], ws[-2]])


NETS = {'CDAE': CDAE, 'DMF': DMF, 'Caser': Caser}


def gradient(loss, ws):
    """The loss and its gradient, as one vector."""
    vs = [tf.Variable(np.array(w, 'float32')) for w in ws]
    with tf.GradientTape() as tape:
        l = loss(vs)
    if not tf.is_tensor(l):
        return float(l), np.zeros(sum(w.size for w in ws))
    gs = tape.gradient(l, vs)
    return float(l), np.concatenate([np.zeros(w.size) if x is None else np.array(tf.convert_to_tensor(x)).ravel().astype(float) for x, w in zip(gs, ws)])


def flat(ws):
    return np.concatenate([np.array(w, float).ravel() for w in ws])
