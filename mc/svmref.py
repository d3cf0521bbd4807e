"""Explicit-Gram SVM references, shared by C17, C18, C24."""
import numpy as np
from sklearn.svm import SVC, SVR

from mc import ref


def gram(k, X, Y=None, normalized=False):
    X = np.asarray(X, float).tolist()
    Y2 = None if Y is None else np.asarray(Y, float).tolist()
    K = ref.raw_km(k, X, Y2)
    if not normalized:
        return K
    if Y is None:
        return ref.normalized(K)
    return ref.normalized(K, [k(x, x) for x in X], [k(y, y) for y in Y2])


class Ref:
    """an SVM on the explicit kernel matrix"""

    def __init__(self, k, normalized, learner, X, y, sample_weight=None, **par):
        self.k, self.norm, self.X = k, normalized, np.asarray(X, float)
        self.svr = learner == 'SVR'
        self.m = (SVR if self.svr else SVC)(kernel='precomputed', **par)
        if not self.svr:
            self.m.decision_function_shape = 'ovo'
        self.m.fit(gram(k, self.X, None, normalized), y, sample_weight=sample_weight)

    def predict(self, T):
        """(predictions, clear): clear[i] is False where a decision is too close to call"""
        K = gram(self.k, T, self.X, self.norm)
        p = self.m.predict(K)
        if self.svr:
            return p, np.ones(len(p), bool)
        d = self.m.decision_function(K)
        d = d.reshape(len(K), -1)
        return p, (np.abs(d) > 0.02).all(axis=1)


def compare(got, refm, T, tol=5e-3):
    """None or text, and the number of predictions compared"""
    want, clear = refm.predict(T)
    got = np.asarray(got)
    if got.shape != want.shape:
        return 'predictions of shape {} expected {}'.format(got.shape, want.shape), 0
    if refm.svr:
        if got.dtype.kind != 'f':
            return 'regression predictions of type {}'.format(got.dtype), 0
        s = max(1.0, float(np.ptp(want)))
        bad = np.abs(got - want) > tol * s
        if not np.isfinite(got).all():
            bad |= True
    else:
        bad = clear & (got != want)
    if bad.any():
        i = int(np.argmax(bad))
        return 'predicts {!r} for {} expected {!r}'.format(got[i], np.asarray(T)[i].tolist(),
                                                        want[i]), 0
    return None, int(clear.sum())
