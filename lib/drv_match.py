"""Pairs of tiles, adjoining or not, and what matchedges makes of them."""
import numpy as np
import pyproj
import sg, tok, tlc, geo, grids, drv_refine as dr

CORN = dict(SW=(0, 0), SE=(-1, 0), NE=(-1, -1), NW=(0, -1))
TOL = 1e-6


def diag(X, Y):
    V = {k: geo.vec(X[c], Y[c]) for k, c in CORN.items()}
    return geo.ang(V['SW'], V['NE']) + geo.ang(V['SE'], V['NW'])


def move(X, Y, pos, dist, rng):
    v = geo.vec(X[pos], Y[pos])
    t = rng.standard_normal(3)
    t -= (t @ v) * v
    t /= np.linalg.norm(t)
    w = np.cos(dist) * v + np.sin(dist) * t
    lon, lat = grids.lonlat(w)
    lon = float(lon)
    if X[pos] > 180 and lon < 0:
        lon += 360
    X[pos], Y[pos] = lon, float(lat)


def base(rng):
    """corner matrices of the grid both tiles are cut from"""
    while True:
        M = N = None
        if rng.random() < .1:
            M, N = int(10 ** rng.uniform(1, 1.9)), int(rng.integers(2, 5))
            M, N = (M, N) if rng.random() < .4 else (N, M) if rng.random() < .7 else (14, 15)
        X, Y = dr.src_grid(rng, M, N)
        M, N = X.shape
        if max(M, N) < 3:
            continue
        return X, Y


def pair(rng, kind=None):
    """returns dict(A=(X,Y), B=(X,Y), how)"""
    kind = kind or str(rng.choice(['adjoin'] * 8 + ['near', 'near', 'far', 'gap', 'shift', 'turned', 'diag', 'same', 'part', 'mirror', 'wrap']))
    for _ in range(1000):
        X, Y = base(rng)
        if kind == 'wrap':
            X, Y = dr.src_grid(rng, M=int(rng.integers(5, 9)), special='seam')
            if geo.ang(geo.vec(X[0, 0], Y[0, 0]), geo.vec(X[-1, 0], Y[-1, 0])) > 1e-9:
                continue
        M, N = X.shape
        ax = int(rng.integers(0, 2)) if kind != 'wrap' else 0
        L = (M, N)[ax]
        if L < 3:
            continue
        cut = int(rng.integers(1, L - 1))
        lo, hi = (0, cut + 1), (cut, L)
        if kind == 'gap':
            if L < 5:
                continue
            cut = int(rng.integers(1, L - 3)); lo, hi = (0, cut + 1), (cut + 1, L)
        if kind == 'wrap':
            lo, hi = (0, 2), (L - int(rng.integers(2, L - 2)), L)       # neighbours through the seam
        sl = lambda s: (slice(*s), slice(None)) if ax == 0 else (slice(None), slice(*s))
        A, B = [X[sl(lo)].copy(), Y[sl(lo)].copy()], [X[sl(hi)].copy(), Y[sl(hi)].copy()]
        if min(A[0].shape + B[0].shape) < 2:
            continue
        if kind == 'same':
            B = [A[0].copy(), A[1].copy()]
        if kind == 'part':                                  # the first tile with all of the grid
            B = [X.copy(), Y.copy()]
        if kind in ('shift', 'diag'):                       # neighbours by one cell row off / only a corner
            O = (M, N)[1 - ax]
            if O < 4:
                continue
            c2 = int(rng.integers(1, O - 1))
            s1, s2 = ((0, O - 1), (1, O)) if kind == 'shift' else ((0, c2 + 1), (c2, O))
            o = lambda s: (slice(None), slice(*s)) if ax == 0 else (slice(*s), slice(None))
            A = [a[o(s1)].copy() for a in A]; B = [b[o(s2)].copy() for b in B]
        if kind == 'turned':
            k = int(rng.integers(1, 4))
            if k != 2 and (k == 2 or B[0].shape[0] != B[0].shape[1]) and rng.random() < .5:
                pass
            B = [np.rot90(b, k).copy() for b in B]
        if kind == 'mirror':
            B = [b[::1, ::-1].copy() if ax == 0 else b[::-1].copy() for b in B]
        if rng.random() < .5:
            A, B = B, A
        if rng.random() < .4:
            B[0] = np.where(B[0] < 0, B[0] + 360, B[0]) if (B[0] < 0).any() else np.where(B[0] > 180, B[0] - 360, B[0])
        if rng.random() < .4:       # the date line has two longitudes
            B[0] = np.where((B[0] == 180) | (B[0] == -180), rng.choice([-180., 180.], size=B[0].shape), B[0])
        tol = (diag(*A) + diag(*B)) / 4 * TOL
        if kind in ('near', 'far'):
            va = {k: geo.vec(A[0][c], A[1][c]) for k, c in CORN.items()}
            hit = [c for c in CORN.values() if min(geo.ang(geo.vec(B[0][c], B[1][c]), v) for v in va.values()) < 1e-10]
            if len(hit) != 2:
                continue
            f = .8 if kind == 'near' else 1.25
            who = hit if rng.random() < .5 else hit[:1] if rng.random() < .5 else hit[1:]
            for c in who:
                move(B[0], B[1], c, f * tol, rng)
        cl, sure = [], True
        for a, pa in CORN.items():
            for b, pb in CORN.items():
                d = geo.ang(geo.vec(A[0][pa], A[1][pa]), geo.vec(B[0][pb], B[1][pb])) / tol
                if .9 < d < 1.1:
                    sure = False
                if d < 1:
                    cl.append([a, b])
        # within one tile no two corners may be nearly but not quite coincident
        if not sure:
            continue
        return dict(A=A, B=B, kind=kind, close=cl, tol=tol)
    raise RuntimeError('no pair ' + kind)


def layouts(rng, a):
    k = rng.integers(0, 4)
    return np.asfortranarray(a) if k == 1 else a.T.copy().T if k == 2 else a.astype('>f8') if k == 3 else a


def select(sl, shape):
    """positions a selector picks, as [[i,j],..]; [] if it is not a 1-d selection"""
    try:
        I, J = np.indices(shape)
        i, j = I[sl], J[sl]
        if i.ndim != 1:
            return [[-1, -1]]
        return [[int(a), int(b)] for a, b in zip(i, j)]
    except Exception:
        return [[-1, -1]]


def run(ctx, m, n):
    rng = ctx.np
    geod = pyproj.Geod(ellps='sphere')
    cases = [pair(rng) for _ in range(n)]
    confs = [dict(m=c['A'][0].shape[0], n=c['A'][0].shape[1], mb=c['B'][0].shape[0], nb=c['B'][0].shape[1], close=c['close']) for c in cases]
    gens = tlc.generate(ctx, 'GenMatch', confs)
    evs, info = [], []
    for c, cf, g in zip(cases, confs, gens):
        ctx.count('%s %s' % (c['kind'], g['verdict']))
        (AX, AY), (BX, BY) = c['A'], c['B']
        if g['verdict'] == 'edge':                        # whole edges must have the same number of points
            if len(g['low'][1]) != len(g['high'][1]):
                ctx.count('unequal'); continue
        o = sg.call(m.matchedges.matchedges, *[layouts(rng, x) for x in (AX, AY, BX, BY)], geod,
                    **({'verbose': True} if rng.random() < .2 else {}))
        e = dict(cf, kind=o.kind, value_error='ValueError' in o.mro, ea=-1, eb=-1, arow=[], brow=[], join=[], strip=[])
        det = dict(kind=c['kind'], A=c['A'], B=c['B'], close=c['close'], outcome=repr(o))
        if o.kind == 'ok':
            try:
                ea, asl, eb, bsl, sx, sy, js = o.value
                e.update(ea=int(ea), eb=int(eb), arow=select(asl, AX.shape), brow=select(bsl, BX.shape),
                         join=select(js, (2 * AX.shape[0] + 1, 2 * AX.shape[1] + 1)))
                sx, sy = np.asarray(sx, float), np.asarray(sy, float)
                if g['verdict'] == 'edge':
                    ok, off = strip_ok(c, g, sx, sy)
                    e['strip'] = ok
                    det['strip'] = dict(off=off, lon=sx, lat=sy)
            except Exception as ex:
                ctx.violation('malformed result', dict(error=repr(ex), **det))
                continue
        evs.append(e); info.append(det)
    ctx.sample(evs[0])
    for i, cl in tlc.trace(ctx, 'TraceMatch', evs, chunks=3):
        ctx.violation(cl, info[i])


def strip_ok(c, g, sx, sy):
    def pts(row):
        X, Y = c[row[0]]
        P = np.array(row[1])
        return geo.vec(X[P[:, 0], P[:, 1]], Y[P[:, 0], P[:, 1]]), X[P[:, 0], P[:, 1]]
    (Lo, lx), (Hi, hx) = pts(g['low']), pts(g['high'])
    ew = g['edge'] in 'EW'
    C = (lambda i, j: (Lo, Hi)[i][j]) if ew else (lambda i, j: (Lo, Hi)[j][i])

    def at(p, q):
        """lattice point of the one-cell-wide row, by its construction"""
        import functools
        if q % 2:
            return geo.slerp(at(p, q - 1), at(p, q + 1), .5)
        if p % 2:
            return geo.slerp(C(p // 2, q // 2), C(p // 2 + 1, q // 2), .5)
        return C(p // 2, q // 2)
    want = []
    for k, t in enumerate(g['terms']):
        if t[0] == 0:
            w = C(t[1], t[2])
        elif t[0] == 1:
            w = geo.slerp(C(t[1], t[2]), C(t[1] + 1, t[2]), t[3] / 2)
        else:
            w = geo.slerp(at(t[1], 2 * t[2]), at(t[1], 2 * t[2] + 2), t[3] / 2)
        want.append(w)
    if sx.shape != (len(want),) or sy.shape != sx.shape:
        return [0], -1
    d = geo.ang(np.array(want), geo.vec(sx, sy))
    nonneg = not (np.any(lx < 0) or np.any(hx < 0))
    conv = ((sx >= 0) & (sx <= 360)) if nonneg else ((sx >= -180) & (sx <= 180))
    tol = 1e-11 + (c['tol'] if c['kind'] == 'near' else 0)
    return [int(x) for x in ((d <= tol) & conv)], float(np.max(d))
