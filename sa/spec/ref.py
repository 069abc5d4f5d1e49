"""Reference semantics of kalepy's guarantees, written in plain numpy.  Interpreted abstractly, never executed."""
import numpy as np
import scipy as sp


# ---------------------------------------------------------------- kernels (y2: squared distance from the centre)
def k_gaussian(y2):
    return np.exp(-y2 / 2)


def k_box(y2):
    return np.where(y2 <= 1.0, 1.0, 0.0)


def k_parabola(y2):
    return np.where(y2 <= 1.0, 1.0 - y2, 0.0)


def k_triweight(y2):
    return np.maximum((1.0 - y2)**3, 0.0)


KERNELS = {'gaussian': k_gaussian, 'box': k_box, 'parabola': k_parabola, 'epanechnikov': k_parabola, 'triweight': k_triweight}


def ballvol(D):
    """volume of the unit ball in D dimensions"""
    return np.pi**(D / 2) / sp.special.gamma(D / 2 + 1)


def c_gaussian(D):
    return (2 * np.pi)**(D / 2)


def c_box(D):
    return ballvol(D)


def c_parabola(D):
    # integral over the unit ball of 1 - r^2: D V (1/D - 1/(D+2))
    return ballvol(D) * D * (1 / D - 1 / (D + 2))


def c_triweight(D):
    # integral over the unit ball of (1 - r^2)^3
    return ballvol(D) * D * (1 / D - 3 / (D + 2) + 3 / (D + 4) - 1 / (D + 6))


NORMS = {'gaussian': c_gaussian, 'box': c_box, 'parabola': c_parabola, 'epanechnikov': c_parabola, 'triweight': c_triweight}


# ---------------------------------------------------------------- bandwidth
def neff(N, weights):
    if weights is None:
        return N
    return np.sum(weights)**2 / np.sum(weights**2)


def scott(neff, D):
    return neff**(-1 / (D + 4))


def silverman(neff, D):
    return (neff * (D + 2) / 4)**(-1 / (D + 4))


def covariance(data, weights):
    """weighted covariance of a (D, N) dataset"""
    return np.atleast_2d(np.cov(data, rowvar=True, bias=False, aweights=weights))


def matrix(cov, bw):
    """kernel covariance: the data covariance scaled element by element by the squared bandwidth matrix"""
    return cov * bw * bw


# ---------------------------------------------------------------- density
def ksum(points, data, weights, H, kernel):
    """sum over the data of weight times kernel; points (D, M), data (D, N) -> (M,)"""
    D = len(data)
    U = sp.linalg.cholesky(np.linalg.inv(H))
    delta = points[:, :, np.newaxis] - data[:, np.newaxis, :]
    y2 = 0.0
    for k in range(D):
        u = 0.0
        for l in range(D):
            u = u + U[k, l] * delta[l]
        y2 = y2 + u * u
    kv = KERNELS[kernel](y2)
    if weights is not None:
        kv = kv * weights[np.newaxis, :]
    return np.sum(kv, axis=1)


def normalisation(H, kernel):
    D = len(H)
    return np.sqrt(np.abs(np.linalg.det(H))) * NORMS[kernel](D)


def mirrored(data, dim, loc):
    rows = []
    for k in range(len(data)):
        rows.append(2 * loc - data[k] if k == dim else data[k])
    return np.array(rows)


def density(points, data, weights, H, kernel, reflect=None):
    """reflect: None, or one entry per dimension: None or (lo, hi) with None for an open side"""
    res = ksum(points, data, weights, H, kernel)
    if reflect is not None:
        out = False
        for k in range(len(data)):
            if reflect[k] is None:
                continue
            lo, hi = reflect[k]
            for loc in (lo, hi):
                if loc is not None:
                    res = res + ksum(points, mirrored(data, k, loc), weights, H, kernel)
            if lo is not None:
                out = out | (points[k] < lo)
            if hi is not None:
                out = out | (points[k] > hi)
        res = np.where(out, 0.0, res)
    return res / normalisation(H, kernel)


def total(weights, N):
    return N if weights is None else np.sum(weights)


def restrict(H, params):
    return np.array([[H[a, b] for b in params] for a in params])


def rows(x, params):
    return np.array([x[p] for p in params])


def divide(a, b):
    return a / b


def diag(x):
    return np.array([[x[i] if i == j else 0.0 for j in range(len(x))] for i in range(len(x))])


def grid_points(edges):
    """all combinations of the edges, first dimension slowest: (D, G0*G1*...)"""
    coords = np.meshgrid(*edges, indexing='ij')
    return np.array([c.flatten() for c in coords])


def grid_density(edges, data, weights, H, kernel, reflect=None):
    d = density(grid_points(edges), data, weights, H, kernel, reflect)
    return d.reshape([len(e) for e in edges])


def extremum(data, d, j):
    return np.min(data[d]) if j == 0 else np.max(data[d])


def extent(data, d):
    return np.max(data[d]) - np.min(data[d])


# ---------------------------------------------------------------- bandwidth specifications
def plugin(rule, N, weights, given, D):
    n = neff(N, weights) if given is None else given
    return scott(n, D) if rule == 'scott' else silverman(n, D)


def full(h, D):
    return np.array([[h for j in range(D)] for i in range(D)])


def scaled_rows(B, r):
    return B * r


# ---------------------------------------------------------------- kernels evaluated at points (D, M)
def radius2(points):
    y2 = 0.0
    for p in points:
        y2 = y2 + p * p
    return y2


def kernel_at(points, kernel):
    return KERNELS[kernel](radius2(points)) / NORMS[kernel](len(points))


def kernel_grid(edges, kernel):
    v = kernel_at(grid_points(edges), kernel)
    return v.reshape([len(e) for e in edges])


def in_ball(points):
    return radius2(points) < 1.0


def everywhere(points):
    return np.ones(len(points[0]), dtype=bool)


# ---------------------------------------------------------------- gridded densities
def along(a, ax, lo, hi):
    """entries lo:hi along one axis"""
    return a[tuple([slice(None)] * ax + [slice(lo, hi)])]


def onaxis(v, ax, D):
    """a vector along one of D axes"""
    return v[tuple([slice(None) if d == ax else np.newaxis for d in range(D)])]


def cell_mean(dens, axes):
    m = dens
    for ax in axes:
        m = (along(m, ax, None, -1) + along(m, ax, 1, None)) / 2
    return m


def cell_mass(edges, dens, axes=None):
    D = len(dens.shape)
    axes = range(D) if axes is None else axes
    m = cell_mean(dens, axes)
    for ax in axes:
        e = edges[ax]
        m = m * onaxis(e[1:] - e[:-1], ax, D)
    return m


def total_mass(edges, dens, mass):
    if mass is None:
        mass = cell_mass(edges, dens)
    return int(np.sum(mass))


def pair_shape(vals, weights):
    """dimensions, leading shape, and the difference between the numbers of points and of weights"""
    return len(vals.shape), vals.shape[:-1], len(weights.shape), vals.shape[-1] - weights.shape[0]


# ---------------------------------------------------------------- weighted quantiles
def quantile(values, percs, weights):
    """interpolate the sorted values at the middle of their own cumulative weight"""
    order = np.argsort(values)
    v = values[order]
    w = np.ones(len(values)) if weights is None else weights[order]
    mid = (np.cumsum(w) - 0.5 * w) / np.sum(w)
    return np.interp(percs, mid, v)


def quantile_sorted(values, percs, weights):
    w = np.ones(len(values)) if weights is None else weights
    mid = (np.cumsum(w) - 0.5 * w) / np.sum(w)
    return np.interp(percs, mid, values)


def quantile_rows(values, percs, weights, n, axis, srt):
    """one row of quantiles per entry of the other axis, of length n"""
    rows = []
    one = quantile_sorted if srt else quantile
    for i in range(n):
        if axis == 0:
            rows.append(one(values[:, i], percs, None if weights is None else weights[:, i]))
        else:
            rows.append(one(values[i], percs, None if weights is None else weights[i]))
    return np.array(rows)


def interquartile(values, weights):
    return quantile(values, 0.75, weights) - quantile(values, 0.25, weights)


def normal_cdf(sigmas):
    return sp.stats.norm.cdf(sigmas)


# ---------------------------------------------------------------- cumulative distribution
def cell_means(y):
    """mean of the corner values of every cell"""
    for k in range(np.ndim(y)):
        y = halves(y, k)
    return y


def halves(y, k):
    n = np.shape(y)[k]
    return 0.5 * (np.take(y, np.arange(n - 1), axis=k) + np.take(y, np.arange(1, n), axis=k))


def cdf(q, edges, dens):
    """normalised cumulative trapezoid integral, linearly interpolated at q (D, M) and constant outside the grid"""
    D = len(edges)
    c = cell_means(dens)
    for k in range(D):
        sh = [-1 if j == k else 1 for j in range(D)]
        c = c * np.reshape(edges[k][1:] - edges[k][:-1], sh)
    for k in range(D):
        c = np.cumsum(c, axis=k)
    c = c / np.max(c)
    if D == 1:
        return np.interp(q[0], edges[0], np.concatenate([np.zeros(1), c]))
    full = np.zeros([len(e) for e in edges])
    full[tuple([slice(1, None)] * D)] = c
    f = sp.interpolate.RegularGridInterpolator(edges, full)
    return f(np.array([np.clip(q[k], edges[k][0], edges[k][-1]) for k in range(D)]).T)


# ---------------------------------------------------------------- trapezoid rule
def axes_of(axis, D):
    return list(range(D)) if axis is None else [a + D if a < 0 else a for a in ([axis] if isinstance(axis, int) else axis)]


def trapz_mass(dens, edges, axis):
    """mean of the corner densities times the widths of the cells, along the given axes"""
    D = len(edges)
    c = dens
    for k in axes_of(axis, D):
        c = halves(c, k)
        c = c * np.reshape(edges[k][1:] - edges[k][:-1], [-1 if j == k else 1 for j in range(D)])
    return c


def trapz_total(dens, edges, axis):
    return np.sum(trapz_mass(dens, edges, axis), axis=tuple(axes_of(axis, len(edges))))


def cumulative(c, axis):
    for k in axes_of(axis, np.ndim(c)):
        c = np.cumsum(c, axis=k)
    return c


def cumulative_mass(dens, edges, axis, prepend):
    c = cumulative(trapz_mass(dens, edges, axis), axis)
    if not prepend:
        return c
    ax = axes_of(axis, len(edges))
    sh = [np.shape(dens)[k] for k in range(len(edges))]
    full = np.zeros(sh)
    full[tuple([slice(1, None) if k in ax else slice(None) for k in range(len(edges))])] = c
    return full


def mids(a, axis, log):
    if log:
        a = np.log10(a)
    for k in axis:
        a = halves(a, k)
    return 10.0**a if log else a


def centres(edges, dens):
    """centre of mass, in each dimension, of the density linear between the corner values of each cell"""
    D = len(edges)
    out = []
    for k in range(D):
        y = dens
        for j in range(D):
            if j != k:
                y = halves(y, j)
        n = np.shape(y)[k]
        y1, y2 = np.take(y, np.arange(n - 1), axis=k), np.take(y, np.arange(1, n), axis=k)
        sh = [-1 if j == k else 1 for j in range(D)]
        lo, hi = np.reshape(edges[k][:-1], sh), np.reshape(edges[k][1:], sh)
        out.append((lo * (2 * y1 + y2) + hi * (y1 + 2 * y2)) / (3 * (y1 + y2)))
    return np.array(out)


# ---------------------------------------------------------------- histograms
def counts(data, edges, weights):
    """sum of the weights of the data in each bin; closed below, the last one on both sides"""
    n = len(edges) - 1
    out = []
    for j in range(n):
        x = (data >= edges[j]) & (data <= edges[j + 1]) if j == n - 1 else (data >= edges[j]) & (data < edges[j + 1])
        out.append(np.sum(np.where(x, 1.0 if weights is None else weights, 0.0)))
    return np.array(out)


def histogram(data, edges, weights, density, probability):
    h = counts(data, edges, weights)
    if density:
        h = h / np.array([edges[j + 1] - edges[j] for j in range(len(edges) - 1)])
    if probability:
        h = h / (np.size(data) if weights is None else np.sum(weights))
    return h


def equal_edges(data, n):
    lo, hi = np.min(data), np.max(data)
    return np.array([lo + (hi - lo) * j / n for j in range(n + 1)])


def counts2d(x, y, ex, ey, weights):
    out = []
    n, m = len(ex) - 1, len(ey) - 1
    for i in range(n):
        a = (x >= ex[i]) & (x <= ex[i + 1]) if i == n - 1 else (x >= ex[i]) & (x < ex[i + 1])
        row = []
        for j in range(m):
            b = (y >= ey[j]) & (y <= ey[j + 1]) if j == m - 1 else (y >= ey[j]) & (y < ey[j + 1])
            row.append(np.sum(np.where(a & b, 1.0 if weights is None else weights, 0.0)))
        out.append(row)
    return np.array(out)


def density2d(x, y, ex, ey, weights):
    h = counts2d(x, y, ex, ey, weights)
    a = np.array([[(ex[i + 1] - ex[i]) * (ey[j + 1] - ey[j]) for j in range(len(ey) - 1)] for i in range(len(ex) - 1)])
    return h / np.sum(h) / a


def covers(edges, data):
    n = len(edges)
    return np.all(edges[0] <= data) & np.all(data <= edges[n - 1]) & np.all(np.diff(edges) > 0)


# ---------------------------------------------------------------- helpers
def inside(data, lows, highs):
    """which points of (D, N) data are strictly within the bounds; None is no bound"""
    r = np.ones(np.shape(data)[1], dtype=bool)
    for d in range(len(lows)):
        if lows[d] is not None:
            r = r & (data[d] > lows[d])
        if highs[d] is not None:
            r = r & (data[d] < highs[d])
    return r


def outside(data, lo, hi):
    r = np.zeros(np.shape(data)[0], dtype=bool)
    if lo is not None:
        r = r | (data < lo)
    if hi is not None:
        r = r | (data > hi)
    return r


def none_of(n, value):
    return np.array([value] * n, dtype=bool)


def stretched(lo, hi, below, above):
    c = (lo + hi) / 2.0
    return c - (c - lo) * (1.0 + below), c + (hi - c) * (1.0 + above)


def extremes(data, prev, stretch, log_stretch, limit):
    lo, hi = np.min(data), np.max(data)
    if stretch is not None:
        lo, hi = stretched(lo, hi, stretch[0], stretch[1])
    if log_stretch is not None:
        lo, hi = stretched(np.log10(lo), np.log10(hi), log_stretch[0], log_stretch[1])
        lo, hi = 10.0**lo, 10.0**hi
    if prev is not None:
        if prev[0] is not None:
            lo = np.minimum(lo, prev[0])
        if prev[1] is not None:
            hi = np.maximum(hi, prev[1])
    if limit is not None:
        if limit[0] is not None:
            lo = np.maximum(lo, limit[0])
        if limit[1] is not None:
            hi = np.minimum(hi, limit[1])
    return np.array([lo, hi])


def positives(data):
    """smallest and largest of the positive data; None when there is none"""
    if not np.any(data > 0):
        return None
    return np.array([np.min(np.where(data > 0, data, np.inf)), np.max(np.where(data > 0, data, -np.inf))])


def identity(n):
    return np.array([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])


def spaced(lo, hi, num, log):
    if log:
        return np.array([10.0**(np.log10(lo) + (np.log10(hi) - np.log10(lo)) * j / (num - 1)) for j in range(num)])
    return np.array([lo + (hi - lo) * j / (num - 1) for j in range(num)])


def ends(x, lo, hi):
    """differences of the ends of a grid from those asked for, whether it increases"""
    n = len(x)
    return x[0] / lo, x[n - 1] / hi, np.all(np.diff(x) > 0)


def between(a, b, f, log):
    return a**(1.0 - f) * b**f if log else a * (1.0 - f) + b * f


def divided(x, num, log):
    n = len(x)
    return np.array([between(x[i], x[i + 1], j / (num + 1), log) for i in range(n - 1) for j in range(num + 1)] + [x[n - 1]])


def cells(lo, hi, n):
    """edges, middles and widths of equal cells"""
    w = (hi - lo) / (n - 1)
    e = np.array([lo + w * j for j in range(n)])
    return e, np.array([e[j] + w / 2.0 for j in range(n - 1)]), np.array([w for j in range(n - 1)])


def concatenated(parts):
    return np.array([x for p in parts for x in p])


# ---------------------------------------------------------------- KDE of a histogram
def bin_centres(edges):
    return grid_points([0.5 * (e[1:] + e[:-1]) for e in edges])


def mean_widths(edges):
    return np.array([(e[len(e) - 1] - e[0]) / (len(e) - 1) for e in edges])


def histogram_pdf(points, edges, hist, kernel):
    w = hist.flatten()
    H = diag(mean_widths(edges)**2)
    return density(points, bin_centres(edges), w, H, kernel) / np.sum(w)

