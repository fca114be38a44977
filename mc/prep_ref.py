"""Plain python reference of feature preprocessing."""
import math

ORDER = [
    "BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE",
    "CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS", "CLIP_LOG",
]
EPS = 1e-6


def order_features(params):
    """column order: by type, then by feature id"""
    return sorted(params, key=lambda f: (ORDER.index(params[f].feature_type), f))


def clamp(x, lo, hi):
    return max(lo, min(hi, x))


def one(p, x, present):
    """list of outputs of one feature"""
    t = p.feature_type
    if t == "ENUM":
        return [1.0 if present and x == v else 0.0 for v in p.possible_values]
    if not present:
        return [0.0]
    if t == "DO_NOT_PREPROCESS":
        return [x]
    if t == "BINARY":
        r = 0.0 if x == 0 else 1.0
    elif t == "PROBABILITY":
        c = clamp(x, 0.01, 0.99)
        r = math.log(c / (1 - c))
    elif t == "CONTINUOUS":
        r = (x - p.mean) / p.stddev
    elif t == "BOXCOX":
        v = max(x + p.boxcox_shift, 1e-6)
        v = (v ** p.boxcox_lambda - 1) / p.boxcox_lambda
        r = (v - p.mean) / p.stddev
    elif t == "QUANTILE":
        q = p.quantiles
        if x >= q[-1]:
            r = 1.0
        elif x <= q[0]:
            r = 0.0
        else:
            i = max(k for k in range(len(q)) if q[k] <= x)
            r = (i + (x - q[i]) / (q[i + 1] - q[i])) / (len(q) - 1)
    elif t == "CONTINUOUS_ACTION":
        r = (x - p.min_value) * 2 * (1 - EPS) / (p.max_value - p.min_value) - 1 + EPS
        r = clamp(r, -1 + EPS, 1 - EPS)
    elif t == "DISCRETE_ACTION":
        r = x
    elif t == "CLIP_LOG":
        r = math.log(max(x, EPS))
    else:
        raise AssertionError(t)
    return [clamp(r, -6.0, 6.0)]


def row(params, values, presence):
    """values/presence: dict feature -> value / bool"""
    out = []
    for f in order_features(params):
        out += one(params[f], values[f], presence[f])
    return out
