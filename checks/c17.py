"""Nearest-point search: answers of the real code to one question under many
layouts, judged against a distance matrix computed independently."""
import numpy as np
import pyproj
import sg, tlc, geo

# distances are given to the specification as integers, in units of UNIT
# above the smallest one (positions farther than FAR are just far)
UNIT, FAR = 1e-4, 2 * 10 ** 9
TOL = 10                # 1 mm: distances over 1e7 m carry round-off far below this


def gc(lon, lat, X, Y):
    return geo.R * geo.ang(np.broadcast_to(geo.vec(lon, lat), X.shape + (3,)), geo.vec(X, Y))


def layouts(rng, A):
    """the same matrix in several memory layouts"""
    n, m = A.shape
    big = np.full((2 * n + 1, 3 * m + 2), np.nan)
    big[1::2, 1:1 + 3 * m:3] = A
    wide = np.zeros((n + 2, m + 3))
    wide[1:n + 1, 2:m + 2] = A
    ro = A.copy()
    ro.flags.writeable = False
    whole = dict(whole=A.astype(rng.choice(['i4', 'i8', '>i4', 'i2']))) if np.all(A == np.round(A)) else {}
    if np.all(A.astype('f4') == A):
        whole['single'] = A.astype('f4')
    return dict(whole, C=np.ascontiguousarray(A), F=np.asfortranarray(A), strided=big[1::2, 1:1 + 3 * m:3],
                view=wide[1:n + 1, 2:m + 2], T=np.ascontiguousarray(A.T).T, readonly=ro,
                rev=np.ascontiguousarray(A[::-1, ::-1])[::-1, ::-1])


def ahead(lon, lat, az, r):
    """the point r metres from (lon,lat) in direction az on the sphere"""
    p, d = np.radians(lat), r / geo.R
    y = np.arcsin(np.clip(np.sin(p) * np.cos(d) + np.cos(p) * np.sin(d) * np.cos(az), -1, 1))
    x = np.radians(lon) + np.arctan2(np.sin(az) * np.sin(d) * np.cos(p), np.cos(d) - np.sin(p) * np.sin(y))
    return np.degrees(x), np.degrees(y)


def neartie(rng, n, m):
    """two or more positions almost equally near"""
    lon, lat = rng.uniform(-180, 180), np.degrees(np.arcsin(rng.uniform(-1, 1)))
    r = 10.0 ** (rng.uniform(1, 6.9) if rng.random() < .7 else rng.uniform(-4, 1))
    gap = float(rng.choice([.004, .05, .5, 5.]))
    R = np.where(rng.random((n, m)) < .6, r + gap * rng.integers(1, 4, (n, m)), r * rng.uniform(1.2, 2.5, (n, m)))
    R[rng.integers(n), rng.integers(m)] = r
    X, Y = ahead(lon, lat, rng.uniform(0, 2 * np.pi, (n, m)), R)
    return 'neartie/any', float(lon), float(lat), X, Y


def question(rng, big):
    n, m = (int(x) for x in rng.integers(1, 9 if big else 6, 2))
    if rng.random() < .25:
        return neartie(rng, n, m)
    kind = rng.choice(['world', 'patch', 'dateline', 'pole', 'lattice', 'same'])
    if kind == 'world':
        X, Y = rng.uniform(-180, 180, (n, m)), np.degrees(np.arcsin(rng.uniform(-1, 1, (n, m))))
    elif kind == 'patch':
        x0, y0, s = rng.uniform(-170, 170), rng.uniform(-80, 80), 10.0 ** rng.uniform(-2, .5)
        X, Y = x0 + s * (np.arange(n)[:, None] + rng.uniform(-.3, .3, (n, m))), y0 + s * (np.arange(m) + rng.uniform(-.3, .3, (n, m)))
    elif kind == 'dateline':
        X = 180 + rng.uniform(-3, 3, (n, m))
        X = np.where(rng.random((n, m)) < .5, X - 360, X)
        Y = rng.uniform(-5, 5, (n, m))
    elif kind == 'pole':
        X, Y = rng.uniform(-180, 360, (n, m)), rng.choice([-1, 1]) * (90 - rng.uniform(0, 3, (n, m)))
        if rng.random() < .4:
            Y[0, :] = 90 if Y[0, 0] > 0 else -90
    elif kind == 'same':
        X, Y = np.full((n, m), 33.0), np.full((n, m), -12.0)
    else:
        s, x0, y0 = float(rng.choice([1., 10., .5, 40.])), float(rng.choice([0, -180, 170, 300])), float(rng.choice([0, -80, 40]))
        X, Y = x0 + s * np.arange(n)[:, None] + np.zeros((n, m)), y0 + s * np.arange(m) + np.zeros((n, m))
        Y = np.clip(Y, -90, 90)
    Y = np.clip(Y, -90, 90)
    q = rng.choice(['far', 'at', 'close', 'antipode', 'polar', 'between', 'centre'])
    i, j = int(rng.integers(n)), int(rng.integers(m))
    if rng.random() < .4:           # the corners of the matrix, the last rows above all
        i, j = (n - 1 if rng.random() < .6 else 0), (m - 1 if rng.random() < .6 else 0)
    if q == 'far':
        lon, lat = rng.uniform(-180, 180), rng.uniform(-90, 90)
    elif q == 'at':
        lon, lat = X[i, j], Y[i, j]
    elif q == 'close':
        lon, lat = X[i, j] + rng.normal() * 1e-3, np.clip(Y[i, j] + rng.normal() * 1e-3, -90, 90)
    elif q == 'antipode':
        lon, lat = X[i, j] + 180, -Y[i, j]
    elif q == 'polar':
        lon, lat = rng.uniform(-180, 180), rng.choice([-1, 1]) * (90.0 - rng.choice([0, 10.0 ** rng.uniform(-10, -2)]))
    elif q == 'between':
        lon, lat = (X[0, 0] + X[i, j]) / 2, (Y[0, 0] + Y[i, j]) / 2
    else:
        lon, lat = X.mean(), Y.mean()
    return '%s/%s' % (kind, q), float(lon), float(lat), X, Y


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCNear')
    fn = m.util.nearest
    sphere, wgs = pyproj.Geod(ellps='sphere'), pyproj.Geod(ellps='WGS84')
    rng = ctx.np
    ev, info = [], []

    base = [0.]

    def answer(o):
        if o.kind != 'ok':
            return dict(kind=o.kind, mro=o.mro, i=-1, j=-1, d=-1)
        try:
            i, j, d = o.value
            if int(i) != i or int(j) != j or not np.isfinite(d) or abs(d) > 2.1e7:
                raise ValueError
            d = min(max((float(d) - base[0]) / UNIT, -FAR), FAR)
            return dict(kind='ok', mro=[], i=int(i), j=int(j), d=int(round(d)))
        except Exception:
            return dict(kind='malformed', mro=[], i=-1, j=-1, d=-1)

    for t in range(ctx.n(260, 4000)):
        name, lon, lat, X, Y = question(rng, ctx.thorough)
        g = sphere if rng.random() < .75 else wgs
        if g is sphere:
            D = gc(lon, lat, X, Y)
        else:
            D = np.array([[g.inv(lon, lat, X[i, j], Y[i, j])[2] for j in range(X.shape[1])] for i in range(X.shape[0])])
        base[0] = D.min()
        D = np.rint(np.minimum((D - base[0]) / UNIT, FAR)).astype(np.int64).tolist()
        LX, LY = layouts(rng, X), layouts(rng, Y)
        res, desc = [], []
        keys = sorted(set(LX) & set(LY))
        for k in keys if t % 4 == 0 else list(rng.choice(keys, 3, replace=False)):
            k2 = k if rng.random() < .7 else keys[int(rng.integers(len(keys)))]
            a, b = LX[k], LY[k2]
            x = lon
            if rng.random() < .4:
                x = lon + float(rng.choice([-360, 360]))
            if rng.random() < .3 and a.dtype.kind == 'f' and a.dtype.itemsize == 8:
                a = np.where(rng.random(a.shape) < .5, a + 360.0, a)
                if rng.random() < .5:
                    a = np.asfortranarray(a)
            res.append(answer(sg.call(fn, x, lat, a, b, g)))
            desc.append((k, k2, x))
        ev.append(dict(ev='near', legal=True, D=D, tol=TOL, res=res))
        info.append(dict(kind=name, lon=lon, lat=lat, lons=X, lats=Y, ellps='sphere' if g is sphere else 'WGS84', calls=desc))
        ctx.count(name.split('/')[0])
    for t in range(ctx.n(24, 200)):
        s = tuple(int(x) for x in rng.integers(1, 5, 2))
        wrong = [((s[0],), (s[0],)), (s + (2,), s + (2,)), (s, (s[0], s[1] + 1)), (s, (s[0] + 1, s[1])),
                 (s, s[:1]), (s[:1], s), (s, s + (1,)), ((), ()), ((s[0] + 1, s[1] + 2), (s[1] + 2, s[0] + 1)), (s, (1, 1) if s != (1, 1) else (2, 1))]
        a, b = wrong[t % len(wrong)]
        if a == b and len(a) == 2:
            continue
        o = sg.call(fn, 1.0, 2.0, rng.uniform(0, 5, a), rng.uniform(0, 5, b), sphere)
        ev.append(dict(ev='near', legal=False, D=[[0]], tol=0, res=[answer(o)]))
        info.append(dict(kind='shapes', lons=a, lats=b))
        ctx.count('refused shapes')
    ctx.sample(dict(info[0], D=ev[0]['D'], answers=ev[0]['res']))
    for at, cl in tlc.trace(ctx, 'TraceNear', ev, chunks=4):
        for c in cl:
            ctx.violation(c, dict(info[at], answers=ev[at]['res']))
