"""Cartesian points and cell areas: exact values from the specification at
multiples of 15 degrees, independent geometry elsewhere."""
import numpy as np
import sg, tlc, geo

S = np.array([1.0, np.sqrt(2), np.sqrt(3), np.sqrt(6)])
EPS = 2.3e-16


def units(got, want, tol):
    d = np.abs(np.asarray(got, float) - want) / tol
    d = np.where(np.isfinite(d), np.minimum(d, 1e6), 1e6)
    return np.trunc(d).astype(int).tolist()


def lattice(rng):
    """corner matrix in 15-degree units"""
    k = rng.choice(['patch', 'pole', 'octant', 'any', 'wide'])
    m, n = (int(x) for x in rng.integers(2, 5, 2))
    if k == 'patch':
        a, b = int(rng.integers(-24, 24)), int(rng.integers(-6, 7 - n)) if n < 7 else -6
        M = [[(a + i, b + j) for j in range(n)] for i in range(m)]
    elif k == 'pole':
        s = int(rng.choice([-1, 1]))
        M = [[(int(2 * i), s * (6 - j)) for j in range(n)] for i in range(m)]
    elif k == 'octant':
        a = int(rng.integers(-12, 12))
        M = [[(a, 0), (a, 6)], [(a + 6, 0), (a + 6, 6)]]
        if rng.random() < .5:
            M = [[(a, 0), (a, 3), (a, 6)], [(a + 3, 0), (a + 3, 3), (a + 3, 6)], [(a + 6, 0), (a + 6, 3), (a + 6, 6)]]
    elif k == 'wide':
        M = [[(5 * i, -5 + 5 * j) for j in range(min(n, 3))] for i in range(m)]
    else:
        a, b = int(rng.integers(-20, 20)), int(rng.integers(-4, 3))
        M = [[(a + 2 * i, min(6, b + j)) for j in range(min(n, 3))] for i in range(m)]
    if rng.random() < .3:               # the other orientation
        M = [list(r) for r in zip(*M)]
    return k, M


def shapeof(v):
    return [int(x) for x in np.shape(v)]


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCCart')
    u, rng = m.util, ctx.np
    ev, info = [], []

    def cart(lons, lats, want, tag, rad=None, tol=8 * EPS):
        r = 1.0 if rad is None else rad
        o = sg.call(u.lonlat2cart, lons, lats) if rad is None else (
            sg.call(u.lonlat2cart, lons, lats, rad) if rng.random() < .5 else sg.call(u.lonlat2cart, lons, lats, rad=rad))
        sh = list(lons.shape)
        ok = o.kind == 'ok' and shapeof(o.value) == sh + [3]
        ev.append(dict(ev='cart', legal=True, m=sh[0], n=sh[1], kind=o.kind, mro=o.mro, shape=shapeof(o.value) if o.kind == 'ok' else [],
                       err=units(o.value, r * want, abs(r) * tol) if ok else []))
        info.append(dict(what='lonlat2cart', case=tag, lons=lons, lats=lats, rad=rad))
        return o

    def area(fn, pts, want, tol, tag, total=None, ttol=None):
        o = sg.call(getattr(u, fn), pts)
        sh = list(pts.shape[:2])
        ok = o.kind == 'ok' and shapeof(o.value) == [sh[0] - 1, sh[1] - 1]
        s = 0
        if ok and total is not None:
            s = units(np.sum(o.value), total, ttol)
        ev.append(dict(ev='area', m=sh[0], n=sh[1], kind=o.kind, shape=shapeof(o.value) if o.kind == 'ok' else [],
                       err=units(o.value, want, tol) if ok else [], sum=s))
        info.append(dict(what=fn, case=tag, points=pts, got=o.value if ok else None, want=want))

    def quads(P):
        return P[:-1, :-1], P[1:, :-1], P[1:, 1:], P[:-1, 1:]

    # exact lattice
    cases = [lattice(rng) for _ in range(ctx.n(80, 900))]
    gen = tlc.generate(ctx, 'GenCart', [dict(M=M) for _, M in cases])
    for (tag, M), g in zip(cases, gen):
        L = np.array(M, float)
        lons, lats = 15 * L[..., 0], 15 * L[..., 1]
        want = np.array(g['cart'], float) @ S / 16
        if rng.random() < .3:
            lons, lats = lons.astype(int), lats.astype(int)
            if rng.random() < .4:
                lats = lats.astype(float)
        cart(lons, lats, want, tag, None if rng.random() < .4 else float(10.0 ** rng.uniform(-3, 7)))
        sp = np.array(g['sph'], float) @ S          # (m-1,n-1,2,2)
        sph = (2 * np.arctan2(np.abs(sp[..., 0] / 4096), sp[..., 1] / 256)).sum(-1)
        pla = 0.5 * np.linalg.norm(np.array(g['pla'], float) @ S / 256, axis=-1)
        a, b, c, d = quads(want)
        area('squad_uarea', want, sph, 4 * geo.quad_noise(a, b, c, d) + 1e-12, tag)
        area('pquad_uarea', want, pla, 1e-12, tag)
        ctx.count(tag)
    # anywhere
    for t in range(ctx.n(120, 2500)):
        mm, nn = (int(x) for x in rng.integers(2, 7, 2))
        s = 10.0 ** rng.uniform(-2, 1)
        x0, y0 = rng.uniform(-180, 360), rng.uniform(-85, 85)
        sy = s * 10.0 ** rng.uniform(-3.5, 0) if rng.random() < .4 else s
        sx, sy = (s, sy) if rng.random() < .5 else (sy, s)
        X = x0 + sx * (np.arange(mm)[:, None] + rng.uniform(-.3, .3, (mm, nn))) / max(.05, np.cos(np.radians(y0)))
        Y = np.clip(y0 + sy * (np.arange(nn) + rng.uniform(-.3, .3, (mm, nn))), -89.9, 89.9)
        if t % 5 == 0:
            X, Y = X.T, Y.T
        lo = rng.random()
        if lo < .1:                      # one of the matrices in single precision
            X = X.astype('f4').astype(float)
        elif lo < .2:
            Y = Y.astype('f4').astype(float)
        A = X if rng.random() < .6 else np.asfortranarray(X)
        B = Y
        if lo < .2:
            A, B = (A.astype('f4'), Y) if lo < .1 else (A, Y.astype('f4'))
        V = geo.vec(X, Y)
        # the argument of the sine may be reduced after scaling: a few ulps of a large angle
        cart(A, B, V, 'random', None if rng.random() < .3 else float(rng.choice([2.5, 1e-3, 6370997.0, 1.0])), 2e-14 if lo >= .2 else 3e-6)
        a, b, c, d = quads(V)
        # convex cells only: the diagonal taken is a matter of the implementation for others
        cr = lambda p, q, r: np.sum(p * np.cross(q, r), -1)
        o = np.sign([cr(a, b, c), cr(b, c, d), cr(c, d, a), cr(d, a, b)])
        if not (np.all(o == o[0])):
            continue
        area('squad_uarea', V, geo.quad(a, b, c, d), 4 * geo.quad_noise(a, b, c, d) + 1e-13, 'random')
        area('pquad_uarea', V, geo.planar(a, b, c, d), 1e-13 * geo.planar(a, b, c, d) + 1e-14 * s * np.pi / 180 / max(.05, np.cos(np.radians(y0))), 'random')
        ctx.count('random')
    # tilings of the whole sphere and of half of it
    for t in range(ctx.n(6, 30)):
        ni, nj = int(rng.integers(3, 10)), int(rng.integers(2, 9))
        lon = np.sort(rng.uniform(-180, 180, ni))
        while np.max(np.diff(np.append(lon, lon[0] + 360))) > 170:
            lon = np.sort(rng.uniform(-180, 180, ni))
        lon = np.append(lon, lon[0] + 360)
        lat = np.concatenate([[-90], np.sort(rng.uniform(-80, 80, nj - 1)), [90]])
        V = geo.vec(np.repeat(lon[:, None], nj + 1, 1), np.repeat(lat[None, :], ni + 1, 0))
        # poles exactly: the corners coincide
        V[:, 0], V[:, -1] = [0, 0, -1], [0, 0, 1]
        V[-1] = V[0]
        if t % 2:
            V = np.ascontiguousarray(V.transpose(1, 0, 2))
        a, b, c, d = quads(V)
        nz = 4 * geo.quad_noise(a, b, c, d) + 1e-12
        area('squad_uarea', V, geo.quad(a, b, c, d), nz, 'sphere', 4 * np.pi, nz.sum() + 1e-10)
        ctx.count('whole sphere')
    for t in range(ctx.n(24, 200)):
        s = tuple(int(x) for x in rng.integers(1, 5, 2))
        wrong = [((s[0],), (s[0],)), (s + (2,), s + (2,)), (s, (s[0], s[1] + 1)), (s, (s[0] + 1, s[1])),
                 (s, s[:1]), (s[:1], s), (s, s + (1,)), (s + (1,), s), ((), ()), (s, (1, 1)), ((1, 1), s), (s, (1, s[1])), ((s[0], 1), s)]
        a, b = wrong[t % len(wrong)]
        if a == b and len(a) == 2:
            continue
        o = sg.call(u.lonlat2cart, rng.uniform(0, 5, a), rng.uniform(0, 5, b))
        ev.append(dict(ev='cart', legal=False, m=0, n=0, kind=o.kind, mro=o.mro, shape=[], err=[]))
        info.append(dict(what='lonlat2cart', case='shapes', lons=a, lats=b))
        ctx.count('refused shapes')
    ctx.sample(dict(lattice=cases[0], exact=gen[0]['cart'][0][0]))
    for at, cl in tlc.trace(ctx, 'TraceCart', ev, chunks=2):
        for c in cl:
            ctx.violation(c, info[at])
