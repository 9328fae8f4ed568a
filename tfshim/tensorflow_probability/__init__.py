"""stats.histogram and distributions.Categorical of TensorFlow Probability."""
import types

import numpy as np
import tensorflow as tf


def _histogram(x, edges, axis=None, weights=None, extend_lower_interval=False, extend_upper_interval=False, dtype=None, name=None):
    x, e = tf.convert_to_tensor(x)._a, tf.convert_to_tensor(edges)._a
    if weights is not None or extend_lower_interval or extend_upper_interval or axis not in (1, -1) or x.ndim != 2:
        raise tf.HarnessGap("tfp.stats.histogram options")
    n = e.size - 1
    # find_bins: the last interval is closed; outside is NaN, which counts nowhere.
    b = np.searchsorted(e, x, side="right") - 1
    b[x == e[-1]] = n - 1
    bad = (x < e[0]) | (x > e[-1]) | np.isnan(x)
    out = np.zeros((n, x.shape[0]), x.dtype)
    r = np.broadcast_to(np.arange(x.shape[0])[:, None], x.shape)
    np.add.at(out, (b[~bad], r[~bad]), 1)
    return tf.Tensor(out)


class Categorical:
    def __init__(self, logits=None, probs=None, **kw):
        if probs is None or kw:
            raise tf.HarnessGap("tfp.distributions.Categorical options")
        self._p = tf.convert_to_tensor(probs)._a

    def log_prob(self, value):
        k = tf.convert_to_tensor(value)._a.astype(np.int64)
        with np.errstate(all="ignore"):
            l = np.log(self._p)  # Not normalised: -softmax_cross_entropy with logits = log(probs).
            m = np.max(l, -1, keepdims=True)
            l = l - (np.log(np.sum(np.exp(l - m), -1, keepdims=True)) + m)
            shape = np.broadcast_shapes(k.shape, l.shape[:-1])
            return tf.Tensor(np.take_along_axis(np.broadcast_to(l, shape + l.shape[-1:]), np.broadcast_to(k, shape)[..., None], -1)[..., 0].astype(self._p.dtype))


stats = types.SimpleNamespace(histogram=_histogram)
distributions = types.SimpleNamespace(Categorical=Categorical)
