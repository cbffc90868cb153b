"""Independent spherical geometry: vectors, slerp, areas (Oosterom-Strackee),
and a bound for the round-off of law-of-cosines areas."""
import numpy as np

R = 6370997.0
EPS = 2.220446049250313e-16


def vec(lon, lat):
    lon, lat = np.radians(np.asarray(lon, float)), np.radians(np.asarray(lat, float))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def ang(a, b):
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, -1))


def slerp(a, b, t):
    """points at fractions t of the great circle from a to b (broadcast)"""
    w = ang(a, b)[..., None]
    t = np.asarray(t, float)[..., None] if np.ndim(t) else t
    s = np.sin(w)
    small = w < 1e-12
    s = np.where(small, 1.0, s)
    v = np.where(small, (1 - t) * a + t * b, (np.sin((1 - t) * w) * a + np.sin(t * w) * b) / s)
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def tri(a, b, c):
    return 2 * np.arctan2(np.abs(np.sum(a * np.cross(b, c), -1)),
                          1 + np.sum(a * b, -1) + np.sum(b * c, -1) + np.sum(c * a, -1))


def quad(a, b, c, d):
    return tri(a, b, c) + tri(a, c, d)


def convex(a, b, c, d):
    """cells that are convex (triangles, with two corners in one, included), and
    the sense they are run through (0: neither, a line)"""
    v = lambda p, q, r: np.sum(p * np.cross(q - p, r - p), -1)
    o = np.stack([v(a, b, c), v(b, c, d), v(c, d, a), v(d, a, b)])
    eps = 1e-15 + 1e-9 * np.abs(o).max(0)
    s = np.where((o > -eps).all(0), 1, 0) - np.where((o < eps).all(0), 1, 0)
    return s


def planar(a, b, c, d):
    return 0.5 * np.linalg.norm(np.cross(b - a, c - a) + np.cross(c - a, d - a), axis=-1)


def tri_noise(A, B, C):
    """bound on the round-off of A+B+C-pi from the law of cosines"""
    a, b, c = ang(B, C), ang(A, C), ang(A, B)
    tot = 0.0
    area2 = np.linalg.norm(np.cross(A - C, B - C), axis=-1)      # ~ product of sides * sin
    with np.errstate(all='ignore'):
        for x, y, z in ((a, b, c), (b, a, c), (c, a, b)):        # angle opposite x, between y and z
            sy, sz = np.sin(y), np.sin(z)
            darg = EPS * (3 / (sy * sz) + 1 / (y * sy) + 1 / (z * sz))
            sn = np.clip(area2 / (sy * sz), 0, 1)
            tot = tot + np.where(sn * sn > 4 * darg, darg / np.maximum(sn, 1e-300), 3 * np.sqrt(darg) + darg)
        degenerate = np.minimum(np.minimum(a, b), c) < 1e-13
    return np.where(degenerate, 1e-15, tot + 1e-15)


def quad_noise(a, b, c, d):
    return tri_noise(a, b, c) + tri_noise(a, c, d)
