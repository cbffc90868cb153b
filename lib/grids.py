"""Input grids, built without the code under test."""
import numpy as np
import tok
from tok import NAMES

R = 6370997.0


def vec(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def lonlat(v):
    v = np.asarray(v)
    return np.degrees(np.arctan2(v[..., 1], v[..., 0])), np.degrees(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))


def corners(rng, nx, ny, lon0, lat0, dlon, dlat, jitter=0.0, conv='signed'):
    """(nx+1, ny+1) corner longitudes and latitudes; jitter in cell fractions"""
    i, j = np.meshgrid(np.arange(nx + 1), np.arange(ny + 1), indexing='ij')
    x = lon0 + dlon * (i + (rng.uniform(-jitter, jitter, i.shape) if jitter else 0))
    y = lat0 + dlat * (j + (rng.uniform(-jitter, jitter, i.shape) if jitter else 0))
    return conv_lon(x, conv), y


def conv_lon(x, conv):
    x = np.asarray(x, float)
    if conv == '0to360':
        return np.where(x < 0, x + 360.0, np.where(x >= 360, x - 360.0, x))
    if conv == 'signed':
        return np.where(x > 180, x - 360.0, np.where(x < -180, x + 360.0, x))
    return x


def grid_from_corners(X, Y, fill=None, rng=None):
    """a full sixteen-field grid around given corners; the other fields are
    arbitrary (distinct) values unless fill is given"""
    ni, nj = X.shape[0] - 1, X.shape[1] - 1
    g = {}
    for k, f in enumerate(NAMES):
        s = tok.shape(f, ni, nj)
        if fill is not None:
            g[f] = np.full(s, float(fill))
        else:
            g[f] = (k + 1) * 1000.0 + rng.random(s) if rng is not None else (k + 1) * 1000.0 + np.arange(s[0] * s[1]).reshape(s)
    g['XG'], g['YG'] = np.array(X, float), np.array(Y, float)
    return g


def pair_east(m, ni, nj, rng):
    """two tiles side by side (A west of B), arbitrary other fields"""
    X, Y = corners(rng, 2 * ni, nj, 20.0, 10.0, 1.5, 1.25, 0.2)
    a = grid_from_corners(X[:ni + 1], Y[:ni + 1], rng=rng)
    b = grid_from_corners(X[ni:], Y[ni:], rng=rng)
    return a, b
