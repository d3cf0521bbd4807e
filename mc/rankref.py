"""Independent scoring of kernel matrices, shared by C16 and C18."""
import numpy as np
from sklearn.metrics import r2_score
from sklearn.model_selection import KFold, StratifiedKFold
from sklearn.svm import SVC, SVR

from mc import ref

CS = [10.0 ** e for e in range(-6, 6)]


def align(K, y, undefined=0.0):
    K = np.asarray(K, float)
    if not np.isfinite(K).all():
        return np.nan
    y = np.asarray(y, float)
    a, b = ref.centered(K), ref.centered(np.outer(y, y))
    na, nb = ref.fnorm(a), ref.fnorm(b)
    if na < 1e-8 or nb < 1e-8:
        return undefined
    return ref.fprod(a, b) / (na * nb)


def cv(K, y, learner, folds=3):
    K, y = np.asarray(K, float), np.asarray(y)
    if not np.isfinite(K).all():
        return np.nan
    svr = learner.lower() == 'svr'
    split = list((KFold if svr else StratifiedKFold)(folds).split(np.zeros((len(y), 1)), y))
    best = -np.inf
    for C in CS:
        sc = []
        for tr, te in split:
            m = SVR(kernel='precomputed', C=C) if svr else SVC(kernel='precomputed', C=C)
            m.fit(K[np.ix_(tr, tr)], y[tr])
            p = m.predict(K[np.ix_(te, tr)])
            if svr:
                sc.append(r2_score(y[te], p))
            else:
                sc.append(np.mean(p == y[te]))
        best = max(best, float(np.mean(sc)))
    return best


def rescaled(s):
    s = np.array(s, float)
    ok = ~np.isnan(s)
    if ok.any():
        lo, hi = s[ok].min(), s[ok].max()
        s[ok] = 0.0 if np.isclose(hi - lo, 0.0) else 100 * (s[ok] - lo) / (hi - lo)
    return s
