"""Recommenders with known answers, built on the repository's base class."""
from DRecPy.Recommender import RecommenderABC


class TableModel(RecommenderABC):
    """Predicts from a table {(raw user, raw item): value}; missing pairs have no prediction; 'raise' raises."""
    def __init__(self, table, **kwds):
        kwds.setdefault('verbose', False)
        super().__init__(**kwds)
        self.table = table

    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        self.pre_fit_args = (learning_rate, neg_ratio, reg_rate)

    def _sample_batch(self, batch_size, **kwds):
        raise NotImplementedError

    def _predict_batch(self, batch_samples, **kwds):
        raise NotImplementedError

    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        raise NotImplementedError

    def _predict(self, uid, iid, **kwds):
        if uid is None or iid is None:
            return None
        ds = self.interaction_dataset
        u, i = ds.uid_to_user(uid), ds.iid_to_item(iid)
        u = u.item() if hasattr(u, 'item') else u
        i = i.item() if hasattr(i, 'item') else i
        v = self.table.get((u, i))
        if v == 'raise':
            raise ValueError('no prediction')
        return v
