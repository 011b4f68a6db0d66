"""independent finite-difference reference used by several checks"""
import numpy as np


def d1(v, h):
    n = len(v)
    out = [None] * n
    for i in range(n):
        if 0 < i < n - 1:
            out[i] = (v[i + 1] - v[i - 1]) / (2 * h)
    out[0] = (4 * v[1] - 3 * v[0] - v[2]) / (2 * h)
    out[n - 1] = (3 * v[n - 1] - 4 * v[n - 2] + v[n - 3]) / (2 * h)
    return out


def d2(v, h):
    n = len(v)
    out = [None] * n
    for i in range(1, n - 1):
        out[i] = (v[i + 1] - 2 * v[i] + v[i - 1]) / (h * h)
    out[0] = (2 * v[0] - 5 * v[1] + 4 * v[2] - v[3]) / (h * h)
    out[n - 1] = (2 * v[n - 1] - 5 * v[n - 2] + 4 * v[n - 3] - v[n - 4]) / (h * h)
    return out


def p1(v, h):
    n = len(v)
    return [(v[(i + 1) % n] - v[(i - 1) % n]) / (2 * h) for i in range(n)]


def p2(v, h):
    n = len(v)
    return [(v[(i + 1) % n] - 2 * v[i] + v[(i - 1) % n]) / (h * h) for i in range(n)]


def along(f, a, axis, h):
    """apply a 1-D reference along one axis, element by element"""
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    other = [range(s) for k, s in enumerate(a.shape) if k != axis]
    import itertools
    for rest in itertools.product(*other):
        ix = [list(rest[:axis]) + [i] + list(rest[axis:]) for i in range(a.shape[axis])]
        line = f([a[tuple(j)] for j in ix], h)
        for j, v in zip(ix, line):
            out[tuple(j)] = v
    return out
