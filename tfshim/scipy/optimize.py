"""linear_sum_assignment, by shortest augmenting paths."""
import numpy as np


def linear_sum_assignment(cost_matrix, maximize=False):
    c = np.asarray(cost_matrix)
    if c.ndim != 2:
        raise ValueError("expected a matrix (2-D array), got a %r array" % (c.shape,))
    if not (np.issubdtype(c.dtype, np.number) or c.dtype == bool):
        raise ValueError("expected a matrix containing numerical entries, got %s" % c.dtype)
    c = c.astype(np.float64)
    if maximize:
        c = -c
    if np.isnan(c).any() or (c == -np.inf).any():
        raise ValueError("matrix contains invalid numeric entries")
    turned = c.shape[0] > c.shape[1]
    if turned:
        c = c.T
    n, m = c.shape
    u, v = np.zeros(n + 1), np.zeros(m + 1)
    p, way = np.zeros(m + 1, int), np.zeros(m + 1, int)
    for i in range(1, n + 1):
        p[0] = i
        j0 = 0
        minv = np.full(m + 1, np.inf)
        used = np.zeros(m + 1, bool)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], np.inf, -1
            for j in range(1, m + 1):
                if not used[j]:
                    cur = c[i0 - 1, j - 1] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < delta:
                        delta, j1 = minv[j], j
            if j1 < 0:
                raise ValueError("cost matrix is infeasible")
            u[p[used]] += delta
            v[used] -= delta
            minv[~used] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            p[j0] = p[way[j0]]
            j0 = way[j0]
    rows = p[1:] - 1
    cols = np.nonzero(rows >= 0)[0]
    rows = rows[cols]
    if turned:
        rows, cols = cols, rows
    order = np.argsort(rows, kind="stable")
    return rows[order].astype(np.int64), cols[order].astype(np.int64)
