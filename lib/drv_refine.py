"""Driver for refinement: generated source grids, regions, orientations and
factors; runs mkgrid / regrid on them; compares with what TLC says the refined
grid consists of (GenRefine), evaluated with independent geometry."""
import os, shutil, tempfile
import numpy as np
import sg, tok, tlc, geo, grids
from tok import NAMES

TRANSITION = 10.0e3


# ------------------------------------------------------------------ cases
def nearest_set(X, Y, lon, lat):
    d = geo.ang(geo.vec(X, Y), geo.vec(lon, lat)[None, None])
    k = d.min()
    tie = [tuple(map(int, t)) for t in np.argwhere(d <= k + 1e-9)]
    rest = d[d > k + 1e-9]
    gap = (rest.min() - k) if rest.size else 9.0
    return tie, k, gap


def cell_scale(X, Y):
    V = geo.vec(X, Y)
    s = []
    if X.shape[0] > 1:
        s.append(geo.ang(V[1:], V[:-1]).ravel())
    if X.shape[1] > 1:
        s.append(geo.ang(V[:, 1:], V[:, :-1]).ravel())
    s = np.concatenate(s)
    s = s[s > 1e-9]
    return s.min() if s.size else 1e-3


SCALES = [30.0, 12.0, 3.0, 0.7, 0.2, 0.06, 0.01, 0.002]


def mk_case(rng, small=False):
    """a 'mkgrid' case"""
    k = rng.integers(0, 10)
    dlon = float(rng.choice([80., 40., 10., 2., .3, .05, .004, 10 ** rng.uniform(-8, -3)])) * rng.uniform(.5, 1.5)
    dlat = min(70.0, dlon * float(rng.choice([1, 1, 1, .1, .02, .5, 2, 8])))
    if rng.random() < .04:                              # millimetres
        dlon, dlat = 10 ** rng.uniform(-7.5, -6, 2)
    lat0 = rng.uniform(-80, 80 - min(dlat, 160))
    if lat0 + dlat > 88:
        lat0 = 88 - dlat
    lon0 = rng.uniform(-180, 180)
    if k == 0:
        lon0 = -dlon * rng.uniform(0, 1)                # across Greenwich
    elif k in (1, 2):
        lon0 = 180 - dlon * rng.uniform(0, 1)           # across the dateline
    if k == 3:
        lat0 = -dlat / 2                                # equator
    if k == 6:
        lon0 = 360.0 - dlon * rng.uniform(0, 1)         # past 360
    lats = (lat0, lat0 + dlat)
    if k == 4:
        lats = (90.0 - dlat, 90.0)
    if k == 5:
        lats = (-90.0, -90.0 + dlat)
    lons = np.array([lon0, lon0 + dlon])
    conv = rng.choice(['signed', '0to360', 'plain', 'plain'])
    if k != 6:
        lons = grids.conv_lon(lons, conv)
    if k == 7:
        lons = np.array([360.0 - dlon, 360.0])          # up to 360 exactly
    if k == 8:                                          # evenly about zero or the dateline, or from or to it
        h = dlon / 2
        lons = np.array([(360 - h, h), (-h, h), (180 - h, 180 + h), (180 - h, h - 180), (-180, dlon - 180), (180 - dlon, 180),
                         (0, dlon) if rng.random() < .5 else (-0.0, dlon), (180, 180 + dlon)][int(rng.integers(0, 8))], float)
    wh = rng.random() < .3
    if wh:
        k = int(rng.integers(0, 5))                     # all of them whole, or some
        lons = np.round(lons) if k < 3 else np.array([np.round(lons[0]), lons[1]]) if k == 3 else lons
        lats = tuple(np.round(lats)) if k in (0, 4) else (lats[0], np.round(lats[1])) if k == 1 else lats
        if abs(lons[0] - lons[1]) < 1:
            lons = np.array([lons[0], lons[0] + 1])
        if lats[0] == lats[1]:
            lats = (lats[0], lats[0] + 1) if lats[0] < 88 else (lats[0] - 1, lats[0])
        lats = tuple(min(90., max(-90., x)) for x in lats)
    if rng.random() < .2:
        lats = lats[::-1]
    if rng.random() < .2:
        lons = lons[::-1]
    mx = 5 if small else 9
    ls, ks = int(rng.integers(1, mx)), int(rng.integers(1, mx))
    if not small and rng.random() < .12:                       # long and thin
        ls, ks = int(10 ** rng.uniform(1, 2.4)), int(rng.integers(1, 4))
        if rng.random() < .5:
            ls, ks = ks, ls
    X = np.array([[lons[0], lons[0]], [lons[1], lons[1]]], float)
    Y = np.array([[lats[0], lats[1]], [lats[0], lats[1]]], float)
    return dict(kind='mkgrid', X=X, Y=Y, nw=(0, 1), se=(1, 0), nws=[(0, 1)], ses=[(1, 0)],
                p1=(float(lons[0]), float(lats[1])), p2=(float(lons[1]), float(lats[0])), ls=ls, ks=ks,
                source='none', verbose=bool(rng.random() < .2), types=rng.random() < (.8 if wh else .2))


def whole(Z):
    return bool(np.all((Z == np.round(Z)) & ~((Z == 0) & np.signbit(Z))))


def as_typed(rng, x):
    """the same number, as another kind of number"""
    k = int(rng.integers(0, 6))
    if whole(np.asarray(x)) and rng.random() < .8:
        return (int, int, np.int64)[k % 3](x)
    if k == 3:
        return np.float64(x)
    if k == 4 and float(np.float32(x)) == x:
        return np.float32(x)
    return x


def transition_case(rng):
    """uneven grids whose mean steps lie about where areas turn from flat to spherical"""
    M, N = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    ls, ks = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    lat0 = rng.uniform(-60, 60)
    k = int(rng.integers(0, 3))
    lo, hi = [rng.uniform(.6, .97), rng.uniform(.8, .99)], [rng.uniform(1.02, 1.1), rng.uniform(1.05, 1.5)]
    t = [(lo[0], lo[1]), (lo[0], hi[0]), (hi[0], lo[0])][k] if rng.random() < .8 else (hi[0], hi[1])
    tx, ty = (TRANSITION * v for v in t)
    steps = []
    for n, w in ((M - 1, tx * 2 * ls), (N - 1, ty * 2 * ks)):
        r = np.exp(rng.uniform(0, rng.choice([.3, 2.2]), n))
        steps.append(np.degrees(w / geo.R) * r / r.mean())
    lat = lat0 + np.concatenate([[0], np.cumsum(steps[1])])
    lon = rng.uniform(-179, 170) + np.concatenate([[0], np.cumsum(steps[0])]) / np.cos(np.radians(lat.mean()))
    X, Y = np.repeat(lon[:, None], N, 1), np.repeat(lat[None, :], M, 0)
    c = [((0, N - 1), (M - 1, 0)), ((M - 1, 0), (0, N - 1)), ((0, 0), (M - 1, N - 1)), ((M - 1, N - 1), (0, 0))][int(rng.integers(0, 4))]
    return dict(kind='regrid', X=X, Y=Y, nw=c[0], se=c[1], nws=[c[0]], ses=[c[1]],
                p1=(float(X[c[0]]), float(Y[c[0]])), p2=(float(X[c[1]]), float(Y[c[1]])),
                ls=ls, ks=ks, source='matrices', verbose=False)

def src_grid(rng, M=None, N=None, special=None):
    """stored corner matrices of an (M-1)x(N-1) grid"""
    M = M or int(rng.integers(2, 7))
    N = N or int(rng.integers(2, 7))
    special = special if special is not None else rng.choice(['', '', '', '', 'dateline', 'dateline', 'zero', 'zero', 'polar', 'pole', 'pole', 'seam', 'rot', 'rot', 'equator', 'onemin', 'eqdate', 'wide', 'to360', 'past360', 'uneven', 'uneven', 'whole', 'greenwich'])
    dlon = float(rng.choice(SCALES)) * rng.uniform(.6, 1.4)
    dlat = dlon * float(rng.choice([1, 1, 1, .03, .2, .5, 2, 6]))
    dlon = min(dlon, 150.0 / (M - 1)); dlat = min(dlat, 70.0 / (N - 1))
    lon0 = rng.uniform(-180, 180 - dlon * (M - 1)) if dlon * (M - 1) < 360 else -180
    lat0 = rng.uniform(-82, 82 - dlat * (N - 1))
    jit = float(rng.choice([0, 0, .1, .3]))
    conv = str(rng.choice(['signed', '0to360', 'plain']))
    if special == 'dateline':
        lon0 = 180 - dlon * (M - 1) * rng.uniform(0, 1)
        sym = 180.0
    elif special == 'zero':
        lon0 = -dlon * (M - 1) * rng.uniform(0, 1)
        sym = 0.0
    elif special == 'equator':
        lat0 = -dlat * (N - 1) * rng.uniform(0, 1)
    elif special == 'polar':
        lat0 = 89.5 - dlat * (N - 1)
    if special == 'pole':
        sgn = rng.choice([1, -1])
        i = np.arange(M); j = np.arange(N)
        X = np.repeat((lon0 + dlon * i)[:, None], N, 1)
        Y = np.repeat((sgn * (90 - dlat * (N - 1 - j)) if sgn > 0 else (-90 + dlat * j))[None, :], M, 0).astype(float)
        X = grids.conv_lon(X, conv)
    elif special == 'seam':                                    # periodic: first and last column coincide
        M = max(M, 5)
        i = np.arange(M); j = np.arange(N)
        lon = np.linspace(0, 360, M) - (180 if conv == 'signed' else 0)
        X = np.repeat(lon[:, None], N, 1); Y = np.repeat((lat0 + dlat * j)[None, :], M, 0)
    elif special == 'greenwich':                               # 0 to 360 degrees around a meridian of zero, plus or minus
        i = np.arange(M)
        k = int(rng.integers(0, M))
        lon = np.where(i < k, 360 + dlon * (i - k), dlon * (i - k))
        X = np.repeat(lon[:, None], N, 1); Y = np.repeat((lat0 + dlat * np.arange(N))[None, :], M, 0)
        X[k] = np.where(rng.random(N) < float(rng.choice([0, .5, 1])), -0.0, 0.0)
        if jit:
            Y = np.clip(Y + dlat * rng.uniform(-jit, jit, Y.shape), -89.9, 89.9)
    elif special in ('to360', 'past360'):                      # up to 360 degrees exactly, or beyond
        i = np.arange(M); j = np.arange(N)
        k = M - 1 if special == 'to360' else int(rng.integers(0, M))
        lon = 360.0 + dlon * (i - k)
        lon[k] = 360.0
        X = np.repeat(lon[:, None], N, 1); Y = np.repeat((lat0 + dlat * j)[None, :], M, 0)
        if jit:
            Y = np.clip(Y + dlat * rng.uniform(-jit, jit, Y.shape), -89.9, 89.9)
    elif special == 'eqdate':                                  # across the dateline, along the equator
        lon = 180 + dlon * (np.arange(M) - rng.uniform(0, M - 1))
        X = grids.conv_lon(np.repeat(lon[:, None], N, 1), conv)
        Y = np.repeat((dlat * (np.arange(N) - int(rng.integers(0, N))))[None, :], M, 0).astype(float)
        if jit and rng.random() < .3:
            Y = Y + np.where(Y == 0, 0, dlat * rng.uniform(-jit, jit, Y.shape))
        Y = np.clip(Y, -89.9, 89.9)
    elif special == 'wide':                                    # from below zero to beyond 180
        M = max(M, 4)
        w = rng.uniform(190, 340)
        lo = rng.uniform(-min(w - 181, 175), -1)
        X = np.repeat(np.linspace(lo, lo + w, M)[:, None], N, 1); Y = np.repeat((lat0 + dlat * np.arange(N))[None, :], M, 0)
        Y = np.clip(Y, -89.9, 89.9)
        if jit:
            X = X + np.minimum(dlat, 3) * rng.uniform(-jit, jit, X.shape)
    elif special == 'onemin':                                  # a single corner is below zero, or a few
        X, Y = grids.corners(rng, M - 1, N - 1, 0., lat0, min(dlon, 150. / M), dlat, float(rng.choice([.1, .3])), 'plain')
        Y = np.clip(Y, -89.9, 89.9)
        v = np.sort(X.ravel())
        X = X - (v[0] + v[1]) / 2
        if rng.random() < .7:                                  # anywhere along an edge
            X = X - X[1:].min() + .5 * min(dlon, 150. / M)
            X[0] = rng.uniform(.05, .3, N) * min(dlon, 150. / M)
            X[0, int(rng.integers(0, N))] *= -1
    elif special == 'uneven':                                  # parallels and meridians, uneven steps
        lon = lon0 + dlon * np.concatenate([[0], np.cumsum(rng.uniform(.2, 1, M - 1))])
        lat = lat0 + dlat * np.concatenate([[0], np.cumsum(rng.uniform(.2, 1, N - 1))])
        if rng.random() < .6:                                  # one of them the equator
            lat -= lat[int(rng.integers(0, N))]
        X = grids.conv_lon(np.repeat(lon[:, None], N, 1), conv); Y = np.repeat(lat[None, :], M, 0)
    elif special == 'whole':                                   # whole degrees
        lon = int(rng.integers(-180, 300)) + np.cumsum(rng.integers(1, 9, M)) + 0.
        lat = int(rng.integers(-60, 40)) + np.cumsum(rng.integers(1, 7, N))
        if rng.random() < .3:
            lat = lat + rng.uniform(0, 1)
        elif rng.random() < .3:
            lon = lon + rng.uniform(0, 1)
        X = grids.conv_lon(np.repeat(lon[:, None], N, 1), conv); Y = np.repeat(lat[None, :], M, 0).astype(float)
        Y = np.clip(Y, -89., 89.)
    elif special in ('zero', 'dateline') and rng.random() < .6:
        # the meridian itself among the corners, or half-way between two of them
        i = np.arange(M)
        k = int(rng.integers(0, M)) if rng.random() < .6 else (M - 1) / 2 if rng.random() < .5 else int(rng.integers(0, M - 1)) + .5
        lon = sym + dlon * (i - k)
        lon = (lon + 180) % 360 - 180 if conv == 'signed' else np.where(lon < 0, lon + 360, lon)
        lon[(lon == -180) & (rng.random(M) < .5)] = 180.0
        X = np.repeat(lon[:, None], N, 1); Y = np.repeat((lat0 + dlat * np.arange(N))[None, :], M, 0)
        if jit:
            Y = np.clip(Y + dlat * rng.uniform(-jit, jit, Y.shape), -89.9, 89.9)
        Y = np.clip(Y, -89.9, 89.9)
    else:
        X, Y = grids.corners(rng, M - 1, N - 1, lon0, lat0, dlon, dlat, jit, conv)
        Y = np.clip(Y, -89.9, 89.9)
        if special == 'rot':                                   # a tilted grid: turn it on the sphere
            v = geo.vec(X, Y)
            c = v.reshape(-1, 3).mean(0); c /= np.linalg.norm(c)
            a = rng.uniform(0, 2 * np.pi)
            K = np.array([[0, -c[2], c[1]], [c[2], 0, -c[0]], [-c[1], c[0], 0]])
            Rm = np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K
            X, Y = grids.lonlat(v @ Rm.T)
            X = grids.conv_lon(X, conv)
    if rng.random() < .2:                                      # single-precision values
        k = int(rng.integers(0, 3))
        if rng.random() < .4 and len(np.unique(np.round(X, 0))) == len(np.unique(np.round(X, 9))):
            X = np.round(X) + 0.0
        X = X.astype('f4').astype(float) if k != 1 else X
        Y = Y.astype('f4').astype(float) if k != 2 else Y
    if rng.random() < (.6 if special in ('zero', 'seam') else .3):   # a zero is no negative number
        X = np.where((X == 0) & (rng.random(X.shape) < .5), -0.0, X)
    # any stored orientation, mirrored ones included
    if rng.random() < .5:
        k = int(rng.integers(0, 4))
        X, Y = np.rot90(X, k).copy(), np.rot90(Y, k).copy()
    if rng.random() < .15:
        X, Y = X.T.copy(), Y.T.copy()
    return X, Y


def re_case(rng, ambiguous=.25, small=False, degenerate=.08, source=None, typed=False, big=False):
    if typed:
        source = 'matrices'
    for _ in range(200):
        M = N = None
        if big:                                                # many cells, in one direction or both
            M, N = int(10 ** rng.uniform(1.1, 2.3)), int(rng.integers(2, 5))
            M, N = (M, N) if rng.random() < .4 else (N, M) if rng.random() < .7 else (int(rng.integers(10, 30)), int(rng.integers(10, 30)))
        level = not typed and not big and rng.random() < .12
        X, Y = src_grid(rng, M, N, special='rot' if level else 'whole' if typed and rng.random() < .5 else None if not big else str(
            rng.choice(['', 'dateline', 'zero', 'pole', 'seam', 'rot', 'equator', 'to360', 'past360', 'uneven'])))
        if typed and not (whole(X) or whole(Y)):
            X, Y = X.astype('f4').astype(float), Y.astype('f4').astype(float)
        M, N = X.shape
        a = (int(rng.integers(0, M)), int(rng.integers(0, N)))
        b = (int(rng.integers(0, M)), int(rng.integers(0, N)))
        deg = rng.random() < degenerate
        if (a[0] == b[0] or a[1] == b[1]) != deg:
            continue
        if rng.random() < (.8 if big else .35) and not deg:    # whole grid
            a = (0 if a[0] < b[0] else M - 1, 0 if a[1] < b[1] else N - 1)
            b = (M - 1 - a[0], N - 1 - a[1])
        s = cell_scale(X, Y)
        same = None
        if not deg and level:                                  # two corners on (nearly) one parallel or meridian
            Z = [X, Y][int(rng.integers(0, 2))]
            L = [(u, v) for u in np.ndindex(M, N) for v in np.ndindex(M, N)
                 if u[0] != v[0] and u[1] != v[1] and abs(Z[u] - Z[v]) < np.degrees(s) * .5]
            if L:
                a, b = L[int(rng.integers(0, len(L)))]
                same = Z is Y
        pts = []
        for x in (a, b):
            lon, lat = X[x], Y[x]
            k = rng.integers(0, 5)
            if k == 4:                                         # nearer by centimetres or metres to this corner than to the next
                nb = [(x[0] + i, x[1] + j) for i, j in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1))
                      if 0 <= x[0] + i < M and 0 <= x[1] + j < N]
                nb = nb[int(rng.integers(0, len(nb)))]
                A, B = geo.vec(X[x], Y[x]), geo.vec(X[nb], Y[nb])
                w = float(geo.ang(A, B)) * geo.R
                g = 10.0 ** rng.uniform(-1.5, .7)
                if w > 50:
                    lon, lat = grids.lonlat(geo.slerp(A, B, .5 - g / 2 / w)[None])
                    lon, lat = float(np.ravel(lon)[0]), float(np.ravel(lat)[0])
                    if rng.random() < .3 and lon < 0:
                        lon += 360
            if k == 1:                                         # imprecise
                off = np.degrees(s) * .25 * rng.uniform(-1, 1, 2)
                lat = min(90., max(-90., lat + off[1]))
                lon = lon + off[0] / max(.05, np.cos(np.radians(lat)))
            elif k == 2:                                       # other convention
                lon = lon + 360 if lon < 0 else lon - 360
            pts.append((float(lon), float(lat)))
        if same is not None:                                   # the points are exactly on it
            pts = [(float(X[x]), float(Y[x])) for x in (a, b)]
            k = int(rng.integers(0, 3))
            z = [pts[0][same], pts[1][same], (pts[0][same] + pts[1][same]) / 2][k]
            pts = [(q[0], z) if same else (z, q[1]) for q in pts]
        nws, _, g1 = nearest_set(X, Y, *pts[0])
        ses, _, g2 = nearest_set(X, Y, *pts[1])
        if min(g1, g2) < 3e-9:
            continue
        if (len(nws) > 1 or len(ses) > 1) and rng.random() > ambiguous:
            continue
        if len(nws) == 1 and len(ses) == 1 and (nws[0] != a or ses[0] != b):
            continue
        mx = 4 if small else 6 if rng.random() < .85 else 14
        ls, ks = int(rng.integers(1, mx)), int(rng.integers(1, mx))
        cells = max(1, abs(a[0] - b[0]) * abs(a[1] - b[1]))
        while ls * ks * cells > (900 if big else 160) and ls * ks > 1:
            ls, ks = max(1, ls - 1), max(1, ks - 1)
        return dict(kind='regrid', X=X, Y=Y, nw=a, se=b, nws=nws, ses=ses, p1=pts[0], p2=pts[1], ls=ls, ks=ks,
                    source=source or str(rng.choice(['matrices', 'matrices', 'file', 'bin', 'csv'])),
                    verbose=bool(rng.random() < .15))
    raise RuntimeError('no case')


def tile_case(rng, repo):
    """a region of the large stored grid shipped with the repository's tests"""
    fn = os.path.join(repo, 'simplegrid/tests/data/tile005.mitgrid')
    if not os.path.exists(fn):
        return re_case(rng)
    with open(fn, 'rb') as f:
        g = tok.decode(f.read(), 270, 90)
    X, Y = g['XG'], g['YG']
    for _ in range(100):
        i0 = int(rng.integers(0, 255)); j0 = int(rng.integers(0, 80))
        w, h = int(rng.integers(1, 12)), int(rng.integers(1, 9))
        c = [(i0, j0), (i0 + w, j0 + h), (i0, j0 + h), (i0 + w, j0)]
        a, b = [(c[0], c[1]), (c[1], c[0]), (c[2], c[3]), (c[3], c[2])][int(rng.integers(0, 4))]
        p1, p2 = (float(X[a]), float(Y[a])), (float(X[b]), float(Y[b]))
        nws, _, _ = nearest_set(X, Y, *p1)
        ses, _, _ = nearest_set(X, Y, *p2)
        if len(nws) == 1 and len(ses) == 1:
            return dict(kind='regrid', X=X, Y=Y, nw=a, se=b, nws=nws, ses=ses, p1=p1, p2=p2, ls=1, ks=2 if w * h < 40 else 1,
                        source='file', verbose=False)
    return re_case(rng)


def fields_for(case, rng):
    """dict of matrices around the case's corners; other fields arbitrary or absent"""
    X, Y = case['X'], case['Y']
    g = grids.grid_from_corners(X, Y, rng=rng)
    return g


def execute(m, case, rng):
    kw = dict(lon1=case['p1'][0], lat1=case['p1'][1], lon2=case['p2'][0], lat2=case['p2'][1],
              lon_subscale=case['ls'], lat_subscale=case['ks'])
    if case['verbose']:
        kw['verbose'] = True
    if case.get('types'):
        for k in ('lon1', 'lat1', 'lon2', 'lat2'):
            kw[k] = as_typed(rng, kw[k])
    if case['kind'] == 'mkgrid':
        return sg.call(m.mkgrid.mkgrid, **kw)
    X, Y = case['X'], case['Y']
    ni, nj = X.shape[0] - 1, X.shape[1] - 1
    d = tempfile.mkdtemp(prefix='rgc')
    try:
        src = case['source']
        if src == 'matrices':
            g = fields_for(case, rng)
            k = rng.integers(0, 4)
            if k == 1:
                g = {f: (np.asfortranarray(g[f])) for f in NAMES}
            elif k == 2:
                g = {f: (g[f] if f in ('XG', 'YG', 'XC') else None) for f in NAMES}
            elif k == 3:
                g = {f: g[f].astype('>f8')[::-1, ::-1].copy()[::-1, ::-1] for f in NAMES}
            if k < 3 and whole(X) and whole(Y) and rng.random() < .5:
                g['XG'], g['YG'] = X.astype(int), Y.astype(int)
            for f, Z in (('XG', X), ('YG', Y)):                # mixed kinds of numbers
                if rng.random() < .5 and whole(Z):
                    g[f] = Z.astype(rng.choice(['i4', 'i8', '>i4', 'f4']))
                elif rng.random() < .5 and np.all(Z.astype('f4') == Z):
                    g[f] = Z.astype('f4')
            kw['mitgrid_matrices'] = g
            return sg.call(m.regrid.regrid, **kw)
        kw.update(ni=ni, nj=nj)
        if src == 'file':
            fn = os.path.join(d, 'g.mitgrid')
            tok.put(fn, fields_for(case, rng), ni, nj)
            kw['mitgridfile'] = fn
        else:
            ext = '.csv' if src == 'csv' else str(rng.choice(['.bin', '.dat', '']))
            for n, a in (('xg_file', X), ('yg_file', Y)):
                fn = os.path.join(d, n + ext)
                if src == 'csv':
                    with open(fn, 'w') as f:
                        for row in a:
                            f.write(','.join(repr(float(v)) for v in row) + '\n')
                else:
                    np.asarray(a, '>f8').T.tofile(fn)
                kw[n] = fn
        return sg.call(m.regrid.regrid, **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Locator:
    """identity of points up to 1e-13 rad: coincident positions share an id"""
    D = np.array([0.4352, 0.6237, 0.6493])

    def __init__(s, V):
        s.V, s.p = V, V @ s.D
        s.o = np.argsort(s.p, kind='stable')
        s.sp = s.p[s.o]
        s.ids = np.zeros(len(V), int)
        for k in range(len(V)):
            s.ids[k] = min(s.near(V[k])) + 1

    def near(s, w, tol=1e-13):
        x = float(w @ s.D)
        if not np.isfinite(x):
            return []
        a, b = np.searchsorted(s.sp, x - 2 * tol), np.searchsorted(s.sp, x + 2 * tol, 'right')
        c = s.o[a:b]
        d = s.V[c] - w
        return [int(k) for k in c[np.einsum('ij,ij->i', d, d) < tol * tol]]

    def at(s, w):
        c = s.near(w)
        return int(s.ids[c[0]]) if c else 0


# ------------------------------------------------------- traces for TraceRegrid
def result_parts(o):
    g, ni, nj = o.value
    G = {f: np.asarray(g[f], float) for f in NAMES}
    return G, int(ni), int(nj)


def event(case, o, T):
    X, Y = case['X'], case['Y']
    V = geo.vec(X, Y).reshape(-1, 3)
    loc = Locator(V)
    ids = loc.ids
    e = dict(m=X.shape[0], n=X.shape[1], nws=[list(p) for p in case['nws']], ses=[list(p) for p in case['ses']],
             ids=ids.reshape(X.shape).tolist(),
             bits=[[[T.one(X[i, j]), T.one(Y[i, j])] for j in range(X.shape[1])] for i in range(X.shape[0])],
             kind=o.kind, value_error='ValueError' in o.mro, ls=case['ls'], ks=case['ks'],
             ni=0, nj=0, shapes={f: [0, 0] for f in NAMES}, cid=[], cbits=[])
    if o.kind == 'ok':
        G, ni, nj = result_parts(o)
        e.update(ni=ni, nj=nj, shapes={f: (list(G[f].shape) + [-1, -1])[:2] if G[f].ndim == 2 else [-1, -1] for f in NAMES})
        cx, cy = G['XG'][::case['ls'], ::case['ks']], G['YG'][::case['ls'], ::case['ks']]
        if cx.shape == cy.shape and cx.ndim == 2:
            W = geo.vec(cx, cy)
            cid = [[loc.at(w) for w in row] for row in W]
            e.update(cid=cid, cbits=[[[T.one(cx[i, j]), T.one(cy[i, j])] for j in range(cx.shape[1])] for i in range(cx.shape[0])])
    return e


# ------------------------------------------------------------- numeric oracle
def picked(case, G, ni, nj):
    """the admissible pair the result belongs to (ties make several possible)"""
    X, Y = case['X'], case['Y']
    for a in case['nws']:
        for b in case['ses']:
            if a[0] == b[0] or a[1] == b[1]:
                continue
            if G['XG'].shape == (ni + 1, nj + 1) and G['XG'][0, -1] == X[a] and G['XG'][-1, 0] == X[b] \
                    and G['YG'][0, -1] == Y[a] and G['YG'][-1, 0] == Y[b]:
                return a, b
    return None


class Expect:
    """the refined grid as the specification (one GenRefine record) has it"""

    def __init__(s, case, gen):
        ls, ks = case['ls'], case['ks']
        s.ls, s.ks, s.ni, s.nj = ls, ks, gen['ni'], gen['nj']
        B = np.array(gen['block'])
        s.Xb, s.Yb = case['X'][B[..., 0], B[..., 1]], case['Y'][B[..., 0], B[..., 1]]
        C = geo.vec(s.Xb, s.Yb)
        nP, nQ = 2 * s.ni + 1, 2 * s.nj + 1
        V = np.full((nP, nQ, 3), np.nan)
        s.new = np.ones((nP, nQ), bool)
        t = gen['terms']
        later = []
        for p in range(nP):
            for q in range(nQ):
                k = t[p][q]
                if k[0] == 0:
                    V[p, q] = C[k[1], k[2]]; s.new[p, q] = False
                elif k[0] == 1:
                    V[p, q] = geo.slerp(C[k[1], k[2]], C[k[1] + 1, k[2]], k[3] / (2.0 * ls))
                else:
                    later.append((p, q, k))
        for p, q, k in later:
            V[p, q] = geo.slerp(V[k[1], 2 * ks * k[2]], V[k[1], 2 * ks * (k[2] + 1)], k[3] / (2.0 * ks))
        s.V = V
        s.EX, s.EY = geo.ang(V[1:], V[:-1]) * geo.R, geo.ang(V[:, 1:], V[:, :-1]) * geo.R
        a, b, c, d = V[:-1, :-1], V[1:, :-1], V[1:, 1:], V[:-1, 1:]
        mx, my = s.EX[s.EX > 1e-6].mean(), s.EY[s.EY > 1e-6].mean()
        s.mx, s.my = mx, my
        s.planar = mx < TRANSITION and my < TRANSITION
        s.mode_clear = all(abs(x - TRANSITION) > 1e-3 * TRANSITION for x in (mx, my))
        if s.planar:
            s.AR = geo.planar(a, b, c, d) * geo.R ** 2
            s.TA = 1e-9 * s.AR + 1e-9
            # cancellation in the corner differences of small cells
            s.TA = s.TA + 40 * geo.EPS * (s.EX[:, :-1] + s.EX[:, 1:] + s.EY[:-1] + s.EY[1:]) * geo.R
        else:
            s.AR = geo.quad(a, b, c, d) * geo.R ** 2
            s.FL = geo.planar(a, b, c, d) * geo.R ** 2
            s.TA = 4 * geo.quad_noise(a, b, c, d) * geo.R ** 2 + 1e-9 * s.AR
        s.fields, s.kinds = gen['fields'], gen['kinds']
        # total: the original cells, bounded by great circles
        ca, cb, cc, cd = C[:-1, :-1], C[1:, :-1], C[1:, 1:], C[:-1, 1:]
        s.total = geo.quad(ca, cb, cc, cd).sum() * geo.R ** 2
        # cells that are not convex are no figures of their own (the diagonal taken matters)
        s.good = geo.convex(a, b, c, d) != 0
        o, oc = geo.convex(a, b, c, d), geo.convex(ca, cb, cc, cd)
        s.total_clear = s.good.all() and bool((o == o.flat[0]).all() and (oc == o.flat[0]).all())

    def dim_ok(s, G):
        return all(G[f].shape == (len(s.fields[f]), len(s.fields[f][0])) for f in NAMES)


def brief(case):
    c = dict(case)
    if np.size(c['X']) > 60:
        c['X'] = c['Y'] = 'large'
    return c


def chk_positions(case, x, G):
    out = []
    for fx, fy in (('XC', 'YC'), ('XG', 'YG')):
        P = np.array([[k[0][1:] for k in row] for row in x.fields[fx]])
        W = x.V[P[..., 0], P[..., 1]]
        new = x.new[P[..., 0], P[..., 1]]
        d = geo.ang(W, geo.vec(G[fx], G[fy]))
        badm = new & ~(d < 1e-11)
        if badm.any():
            i, j = np.argwhere(badm)[0]
            out.append(('position', dict(field=fx, at=[int(i), int(j)], off_m=float(d[i, j] * geo.R), n=int(badm.sum()),
                                         got=[G[fx][i, j], G[fy][i, j]])))
    return out


def chk_lengths(case, x, G):
    out = []
    for f in NAMES:
        if x.kinds[f] not in ('dx', 'dy'):
            continue
        E = x.EX if x.kinds[f] == 'dx' else x.EY
        for i, row in enumerate(x.fields[f]):
            for j, el in enumerate(row):
                if el:
                    w = sum(E[k[1], k[2]] for k in el)
                    g = G[f][i, j]
                    if not abs(g - w) <= 1e-9 * w + 1e-5:
                        out.append(('length', dict(field=f, at=[i, j], got=g, want=w)))
    return out[:6]


def chk_areas(case, x, G):
    out = []
    if not x.mode_clear:
        return out
    for f in NAMES:
        if x.kinds[f] != 'area':
            continue
        for i, row in enumerate(x.fields[f]):
            for j, el in enumerate(row):
                if el and all(x.good[k[1], k[2]] for k in el):
                    w = sum(x.AR[k[1], k[2]] for k in el)
                    t = sum(x.TA[k[1], k[2]] for k in el)
                    g = G[f][i, j]
                    if not abs(g - w) <= t:
                        out.append(('area', dict(field=f, at=[i, j], got=g, want=w, tol=t, planar=bool(x.planar))))
                    if not np.isfinite(g) or (w > 4 * t and not g > 0):
                        out.append(('area.finite', dict(field=f, at=[i, j], got=g)))
    if not x.planar:
        # the flat areas, though the grid calls for spherical ones: all values
        # agree with the flat ones far better than these do with the spherical
        far = same = 0
        for f in NAMES:
            if x.kinds[f] != 'area':
                continue
            for i, row in enumerate(x.fields[f]):
                for j, el in enumerate(row):
                    if el:
                        w, p = (sum(A[k[1], k[2]] for k in el) for A in (x.AR, x.FL))
                        if abs(w - p) > 3e-8 * w:
                            far += 1
                            same += abs(G[f][i, j] - p) < 1e-9 * w
        if far >= 4 and same == far:
            out.append(('area.mode', dict(planar_though_spherical=far, mean_x=float(x.mx), mean_y=float(x.my))))
    tot, tol = float(np.sum(G['RAC'])), float(x.TA.sum()) + 2e-5 * x.total
    if x.total_clear and not abs(tot - x.total) <= tol:
        out.append(('area.total', dict(got=tot, want=float(x.total), tol=tol)))
    return out[:6]


def chk_zeros(case, x, G):
    out = []
    for f in NAMES:
        k = x.kinds[f]
        if k in ('lon', 'lat'):
            if not np.all(np.isfinite(G[f])):
                out.append(('finite', dict(field=f)))
            continue
        E = dict(dx=x.EX, dy=x.EY, area=x.AR)[k]
        for i, row in enumerate(x.fields[f]):
            for j, el in enumerate(row):
                g = G[f][i, j]
                if not el:
                    if not g == 0.0:
                        out.append(('undefined.zero', dict(field=f, at=[i, j], got=g)))
                else:
                    w = sum(E[e[1], e[2]] for e in el)
                    small = min(E[e[1], e[2]] for e in el) < 1e-5 or \
                        (k == 'area' and w < 8 * sum(x.TA[e[1], e[2]] for e in el))
                    if not np.isfinite(g) or (not small and not g > 0):
                        out.append(('defined.nonzero', dict(field=f, at=[i, j], got=g, want=w)))
    return out[:6]


def chk_lons(case, x, G):
    out = []
    nonneg = not np.any(x.Xb < 0)
    for f in ('XC', 'XG'):
        P = np.array([[k[0][1:] for k in row] for row in x.fields[f]])
        new = x.new[P[..., 0], P[..., 1]]
        v = G[f][new]
        bad = (v < 0) | (v > 360) if nonneg else (v < -180) | (v > 180)
        bad |= ~np.isfinite(v)
        if bad.any():
            out.append(('lon.convention', dict(field=f, nonneg=bool(nonneg), values=v[bad][:4])))
    return out


def run_cases(ctx, m, cases, checks, trace_clauses, prop_counts=None):
    rng = ctx.np
    T = tok.Tok()
    evs, outs = [], []
    for c in cases:
        o = execute(m, c, rng)
        try:
            evs.append(event(c, o, T))
        except Exception as ex:
            ctx.violation('malformed result', dict(case=brief(c), error=repr(ex)))
            o.kind = 'malformed'
            evs.append(dict(event(c, dead(o), T)))
        outs.append(o)
        ctx.count('%s %s' % (c['kind'], o.kind if o.kind != 'err' else o.exc))
        ctx.count('source ' + c['source'])
    ctx.sample({k: v for k, v in evs[0].items() if k not in ('bits',)})
    if trace_clauses:
        for i, clauses in tlc.trace(ctx, 'TraceRegrid', evs, chunks=4):
            cl = [x for x in clauses if x in trace_clauses or x == 'unevaluable']
            if cl and outs[i].kind != 'malformed':
                ctx.violation(cl, dict(case=brief(cases[i]), outcome=repr(outs[i]), ni=evs[i]['ni'], nj=evs[i]['nj']))
    if checks:
        todo = []
        for c, o in zip(cases, outs):
            if o.kind != 'ok':
                if o.kind in ('hang', 'err') and any(a[0] != b[0] and a[1] != b[1] for a in c['nws'] for b in c['ses']) \
                        and len(c['nws']) == len(c['ses']) == 1:
                    ctx.violation('no result', dict(case=brief(c), outcome=repr(o)))
                continue
            G, ni, nj = result_parts(o)
            pk = picked(c, G, ni, nj) if c['kind'] == 'regrid' and (len(c['nws']) > 1 or len(c['ses']) > 1) else (c['nw'], c['se'])
            if pk is None:
                ctx.count('unresolved tie'); continue
            if pk[0][0] == pk[1][0] or pk[0][1] == pk[1][1]:
                ctx.violation('returned a grid for a degenerate pair', dict(case=brief(c)))
                continue
            todo.append((c, G, ni, nj, dict(m=c['X'].shape[0], n=c['X'].shape[1], nw=list(pk[0]), se=list(pk[1]), ls=c['ls'], ks=c['ks'])))
        gens = tlc.generate(ctx, 'GenRefine', [t[4] for t in todo])
        for (c, G, ni, nj, _), gen in zip(todo, gens):
            x = Expect(c, gen)
            if (ni, nj) != (x.ni, x.nj) or not x.dim_ok(G):
                ctx.violation('shape', dict(case=brief(c), got=[ni, nj], want=[x.ni, x.nj]))
                continue
            ctx.count('compared'); ctx.traces += 1
            ctx.count('planar' if x.planar else 'spherical')
            for chk in checks:
                for cl, det in chk(c, x, G):
                    ctx.violation(cl, dict(det, case=brief(c)))
    return evs, outs


def dead(o):
    p = sg.Outcome()
    p.kind, p.exc, p.value, p.mro, p.msg = 'err', 'malformed', None, ['ValueError'], ''
    return p


def mix(ctx, n, mk=.35, tile=.04, trans=.05, big=.04, **kw):
    out = []
    for _ in range(n):
        if ctx.np.random() < big:
            out.append(re_case(ctx.np, big=True, **dict(kw, ambiguous=0)))
            continue
        if ctx.np.random() < trans:
            out.append(transition_case(ctx.np))
            continue
        if ctx.np.random() < .06:
            out.append(re_case(ctx.np, typed=True, **kw))
            continue
        r = ctx.np.random()
        out.append(mk_case(ctx.np) if r < mk else tile_case(ctx.np, sg.REPO) if r < mk + tile else re_case(ctx.np, **kw))
    return out
