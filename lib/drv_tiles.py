"""Fringing and joining tiles: pairs, and grids cut up and joined again."""
import os, shutil, tempfile
import numpy as np
import sg, tok, tlc, geo, grids, drv_refine as dr, drv_match as dm, drv_file
from tok import NAMES

OPP = dict(N='S', S='N', E='W', W='E')
LOC = dict(zip(NAMES, 'TTTTTZZZZZUVUVVU'))


def lib_grid(X, Y, gen):
    """the grid the library's conventions give for these corners, computed by
    independent geometry: boundary entries zero"""
    case = dict(X=X, Y=Y, ls=1, ks=1)
    x = dr.Expect(case, gen)
    g = {}
    lon, lat = grids.lonlat(x.V)
    if not np.any(X < 0):
        lon = np.where(lon < 0, lon + 360, lon)
    for f in NAMES:
        k = x.kinds[f]
        E = dict(dx=x.EX, dy=x.EY, area=x.AR, lon=lon, lat=lat)[k]
        g[f] = np.array([[sum(E[e[1], e[2]] for e in el) if el else 0.0 for el in row] for row in x.fields[f]])
    g['XG'], g['YG'] = np.array(X, float), np.array(Y, float)
    return g, x


def conf(X):
    m, n = X.shape
    return dict(m=m, n=n, nw=[0, n - 1], se=[m - 1, 0], ls=1, ks=1)


def edge_of(case):
    """A's shared edge, from the way the pair's corners coincide"""
    cl = {tuple(c) for c in case['close']}
    E = dict(N=('NW', 'NE'), S=('SW', 'SE'), E=('SE', 'NE'), W=('SW', 'NW'))
    hit = [e for e in 'NSEW' if all((a, b) in cl for a, b in zip(E[e], E[OPP[e]]))]
    mir = [e for e in 'NSEW' if all((a, b) in cl for a, b in zip(E[e], E[OPP[e]][::-1])) and e not in hit]
    return hit[0] if len(hit) == 1 and not mir else None


def joined_corners(e, A, B):
    ax = 0 if e in 'EW' else 1
    cut = lambda s: (s, slice(None)) if ax == 0 else (slice(None), s)
    if e in 'EN':
        return [np.concatenate((a, b[cut(slice(1, None))]), ax) for a, b in zip(A, B)]
    return [np.concatenate((b[cut(slice(None, -1))], a), ax) for a, b in zip(A, B)]


def spoil(rng, g, how):
    """arbitrary contents: the tools must carry whatever is there"""
    for f in NAMES:
        if f in ('XG', 'YG'):
            continue
        a = g[f]
        if how == 'random':
            a = rng.standard_normal(a.shape) * 10.0 ** rng.integers(-3, 7)
        k = rng.random()
        p = .25 if how == 'random' else .12
        if k < .7:
            m = rng.random(a.shape) < p
            a = np.where(m, 0.0, a)
        if k < .3:
            m = rng.random(a.shape) < .15
            a = np.where(m, rng.choice([np.nan, -0.0, np.inf, -np.inf, 1e-300, -1.0], size=a.shape), a)
        g[f] = a
    return g


def pairs(ctx, n):
    rng = ctx.np
    out = []
    while len(out) < n:
        c = dm.pair(rng, kind=str(rng.choice(['adjoin'] * 6 + ['wrap', 'near'])))
        e = edge_of(c)
        if e is None:
            continue
        if c['A'][0].shape[1 if e in 'EW' else 0] != c['B'][0].shape[1 if e in 'EW' else 0]:
            continue
        c['edge'] = e
        out.append(c)
    return out


def write(fn, g, ni, nj, rng, dirty):
    tok.put(fn, g, ni, nj)
    if dirty:
        w = np.fromfile(fn, '>f8')
        for q in drv_file.pad_words(ni, nj):
            if rng.random() < .3:
                w[q] = rng.choice([1.0, np.nan, -3.0])
        w.tofile(fn)


def run_pairs(ctx, m, n, prefixes, numeric=(), stitch=True):
    rng = ctx.np
    T = tok.Tok()
    cs = pairs(ctx, n)
    confs = []
    for c in cs:
        c['C'] = joined_corners(c['edge'], c['A'], c['B'])
        confs += [conf(c['A'][0]), conf(c['B'][0]), conf(c['C'][0])]
    gens = tlc.generate(ctx, 'GenRefine', confs)
    evs, info = [], []
    for k, c in enumerate(cs):
        gA, xA = lib_grid(*c['A'], gens[3 * k])
        gB, xB = lib_grid(*c['B'], gens[3 * k + 1])
        _, xC = lib_grid(*c['C'], gens[3 * k + 2])
        how = str(rng.choice(['lib', 'lib', 'holes', 'random']))
        if how != 'lib':
            gA, gB = spoil(rng, gA, how), spoil(rng, gB, how)
        (ma, na), (mb, nb) = c['A'][0].shape, c['B'][0].shape
        sz = dict(a=(ma - 1, na - 1), b=(mb - 1, nb - 1))
        d = tempfile.mkdtemp(prefix='til')
        det = dict(how=how, edge=c['edge'], kind=c['kind'], A=c['A'], B=c['B'])
        ctx.count('%s %s' % (c['edge'], how))
        try:
            pa, pb = os.path.join(d, 'a.mitgrid'), os.path.join(d, 'b.mitgrid')
            evs.append(dict(ev='reset')); info.append(None)
            for p, g, s in ((pa, gA, 'a'), (pb, gB, 'b')):
                write(p, g, *sz[s], rng, rng.random() < .2)
                evs.append(dict(ev='put', path=s, ni=sz[s][0], nj=sz[s][1], words=T.file(p))); info.append(None)
            kw = dict(tilea=pa, nia=sz['a'][0], nja=sz['a'][1], tileb=pb, nib=sz['b'][0], njb=sz['b'][1])
            if rng.random() < .15:
                kw['verbose'] = True
            files = lambda: dict(a=T.file(pa), b=T.file(pb))
            o = sg.call(m.addfringe.addfringe, **kw)
            e = dict(ev='fringe', a='a', b='b', edge=c['edge'], kind=o.kind, ea=-1, eb=-1, res=0, files=files())
            fr = None
            if o.kind == 'ok':
                ea, eb, fr = o.value
                e.update(ea=int(ea), eb=int(eb), res=T.grid(fr))
            evs.append(e); info.append(dict(det, outcome=repr(o)))
            if fr is not None:
                for clause, dd in values(ctx, c, gA, fr, xA, xC, numeric):
                    ctx.violation(clause, dict(det, **dd))
            if stitch:
                o = sg.call(m.stitch.stitch, **kw)
                e = dict(ev='stitch', a='a', b='b', edge=c['edge'], kind=o.kind, fr=e['res'], nic=-1, njc=-1, res=0, files=files())
                if o.kind == 'ok':
                    r, nic, njc = o.value
                    e.update(nic=int(nic), njc=int(njc), res=T.grid(r))
                evs.append(e); info.append(dict(det, outcome=repr(o)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.sample({k: v for k, v in evs[3].items() if k not in ('files', 'res')})
    check(ctx, evs, info, prefixes)


def check(ctx, evs, info, prefixes, chunks=6):
    starts = [i for i, e in enumerate(evs) if e['ev'] == 'reset']
    k = min(chunks, len(starts))
    cuts = [starts[len(starts) * i // k] for i in range(k)] + [len(evs)]

    def go(c):
        return [(cuts[c] + i, cl) for i, cl in tlc.trace(ctx, 'TraceTiles', evs[cuts[c]:cuts[c + 1]])]
    for part in tlc.pmap(go, range(k)):
        for i, cl in part:
            cl = [x for x in cl if x.startswith(prefixes + ('unevaluable',))]
            if cl:
                ctx.violation(cl, info[i])


def values(ctx, c, gA, fr, xA, xC, numeric):
    """what stands where tile A had zeros"""
    out = []
    if not numeric:
        return out
    e = c['edge']
    nib, njb = c['B'][0].shape[0] - 1, c['B'][0].shape[1] - 1
    oi, oj = (nib, 0) if e == 'W' else (0, njb) if e == 'S' else (0, 0)
    for f in NAMES:
        k = xA.kinds[f]
        R = np.asarray(fr[f], float)
        if R.shape != gA[f].shape:
            return [('shape', dict(field=f))]
        for i, j in np.argwhere(gA[f] == 0):
            i, j = int(i), int(j)
            own = xA.fields[f][i][j]
            g = R[i, j]
            if k in ('lon', 'lat'):
                continue
            if own:
                if 'own' in numeric:
                    bad = bad_value(xA, k, own, g)
                    if bad:
                        out.append(('fringe.own', dict(field=f, at=[i, j], **bad)))
                continue
            cross = xC.fields[f][i + oi][j + oj]
            if cross and 'cross' in numeric:
                ctx.count('cross entries')
                if g == 0:
                    ctx.known('cross-border-zero', 'cross-border entries of the matched edge are left 0.0')
                else:
                    bad = bad_value(xC, k, cross, g)
                    if bad:
                        out.append(('fringe.cross', dict(field=f, at=[i, j], **bad)))
        if 'own' in numeric and k == 'lon':
            fy = f.replace('X', 'Y')
            Q = np.asarray(fr[fy], float)
            P = np.array([[t[0][1:] for t in row] for row in xA.fields[f]])
            W = xA.V[P[..., 0], P[..., 1]]
            zx, zy = gA[f] == 0, gA[fy] == 0
            both = (zx & zy) | (zx & (np.abs(gA[fy] - grids.lonlat(W)[1]) < 1e-9)) | (zy & (geo.ang(geo.vec(gA[f], grids.lonlat(W)[1]), W) < 1e-10))
            if f == 'XC' and both.any():
                dd = geo.ang(W, geo.vec(R, Q))
                if np.any(both & ~(dd < 1e-9)):
                    out.append(('fringe.own', dict(field=f + fy, off=float(np.nanmax(np.where(both, dd, 0))))))
    return out[:6]


def bad_value(x, k, elems, g):
    E = dict(dx=x.EX, dy=x.EY, area=x.AR)[k]
    w = sum(E[t[1], t[2]] for t in elems)
    if k == 'area':
        if not x.mode_clear:
            return None
        tol = sum(x.TA[t[1], t[2]] for t in elems)
    else:
        tol = 1e-9 * w + 1e-5
    if abs(g - w) <= tol:
        return None
    return dict(got=g, want=w, tol=tol)


# ------------------------------------------------------------- cut and rejoin
def cut_up(rng, M, N):
    """cell sizes along each axis"""
    def parts(n):
        k = int(rng.integers(1, min(3, n) + 1))
        c = sorted(rng.choice(np.arange(1, n), k - 1, replace=False)) if k > 1 else []
        return [0] + [int(x) for x in c] + [n]
    while True:
        px, py = parts(M), parts(N)
        if len(px) + len(py) > 4:
            return px, py


def run_cuts(ctx, m, n, prefixes):
    rng = ctx.np
    T = tok.Tok()
    todo = []
    while len(todo) < n:
        M, N = int(rng.integers(3, 7)), int(rng.integers(3, 7))
        if rng.random() < .1:
            M, N = [(40, 3), (3, 40), (14, 14)][int(rng.integers(3))]
        X, Y = dr.src_grid(rng, M=M, N=N)
        if min(X.shape) < 3:
            continue
        if geo.ang(geo.vec(X[0], Y[0]), geo.vec(X[-1], Y[-1])).min() < 1e-6 or \
           geo.ang(geo.vec(X[:, 0], Y[:, 0]), geo.vec(X[:, -1], Y[:, -1])).min() < 1e-6:
            continue                                    # closes on itself
        todo.append((X, Y))
    gens = tlc.generate(ctx, 'GenRefine', [conf(X) for X, Y in todo])
    evs, info = [], []
    for (X, Y), gen in zip(todo, gens):
        G, xG = lib_grid(X, Y, gen)
        ni, nj = X.shape[0] - 1, X.shape[1] - 1
        keep = rng.random() < .4                 # tiles cut with all their values, or as made by the library
        if keep and rng.random() < .5:
            for f in NAMES:
                if f not in ('XG', 'YG'):
                    G[f] = rng.standard_normal(G[f].shape) * 1e3
                    if rng.random() < .4:
                        G[f] = np.where(rng.random(G[f].shape) < .2, rng.choice([np.nan, np.inf, -np.inf, 1e308], size=G[f].shape), G[f])
        px, py = cut_up(rng, ni, nj)
        cuts = [[0, c] for c in px[1:-1]] + [[1, c] for c in py[1:-1]]
        d = tempfile.mkdtemp(prefix='cut')
        det = dict(X=X, Y=Y, px=px, py=py, keep=keep)
        try:
            p = lambda n: os.path.join(d, n)
            tok.put(p('G'), G, ni, nj)
            finals = []
            for order in range(2):
                evs.append(dict(ev='reset')); info.append(None)
                evs.append(dict(ev='put', path='G', ni=ni, nj=nj, words=T.file(p('G')))); info.append(None)
                tiles = {}
                for a in range(len(px) - 1):
                    for b in range(len(py) - 1):
                        t = tile(G, px[a], px[a + 1], py[b], py[b + 1], keep)
                        nm = 't%d%d%d' % (order, a, b)
                        r = (px[a], px[a + 1], py[b], py[b + 1])
                        tok.put(p(nm), t, r[1] - r[0], r[3] - r[2])
                        tiles[r] = nm
                        evs.append(dict(ev='put', path=nm, ni=r[1] - r[0], nj=r[3] - r[2], words=T.file(p(nm)))); info.append(None)
                log = []
                k = 0
                while len(tiles) > 1:
                    cand = [(r, s, e) for r in tiles for s in tiles for e in 'NSEW' if adj(r, s) == e]
                    r, s, e = cand[int(rng.integers(0, len(cand)))]
                    log.append([r, s])
                    o = sg.call(m.addfringe.addfringe, tilea=p(tiles[r]), nia=r[1] - r[0], nja=r[3] - r[2],
                                tileb=p(tiles[s]), nib=s[1] - s[0], njb=s[3] - s[2])
                    fr = T.grid(o.value[2]) if o.kind == 'ok' else 0
                    o = sg.call(m.stitch.stitch, tilea=p(tiles[r]), nia=r[1] - r[0], nja=r[3] - r[2],
                                tileb=p(tiles[s]), nib=s[1] - s[0], njb=s[3] - s[2])
                    names = ['G'] + [x['path'] for x in evs[max(i for i, x in enumerate(evs) if x['ev'] == 'reset'):] if x['ev'] == 'put' and x['path'] != 'G']
                    ev = dict(ev='stitch', a=tiles[r], b=tiles[s], edge=e, kind=o.kind, fr=fr, nic=-1, njc=-1, res=0,
                              files={q: T.file(p(q)) for q in names})
                    if o.kind == 'ok':
                        g, nic, njc = o.value
                        ev.update(nic=int(nic), njc=int(njc), res=T.grid(g))
                    evs.append(ev); info.append(dict(det, log=log[:], outcome=repr(o)))
                    if o.kind != 'ok':
                        break
                    u = (min(r[0], s[0]), max(r[1], s[1]), min(r[2], s[2]), max(r[3], s[3]))
                    nm = 'j%d%d' % (order, k); k += 1
                    w = sg.call(m.gridio.write_mitgridfile, p(nm), g, nic, njc)
                    if w.kind != 'ok':
                        ctx.violation('join.write', dict(det, outcome=repr(w))); break
                    del tiles[r], tiles[s]
                    tiles[u] = nm
                    evs.append(dict(ev='put', path=nm, ni=u[1] - u[0], nj=u[3] - u[2], words=T.file(p(nm)))); info.append(None)
                else:
                    last = list(tiles.values())[0]
                    evs.append(dict(ev='final', path=last, of='G', cuts=cuts)); info.append(dict(det, log=log))
                    finals.append((np.fromfile(p(last), '>f8').astype(float), log))
                    ctx.count('%dx%d tiles' % (len(px) - 1, len(py) - 1))
            if len(finals) == 2:
                orders(ctx, G, xG, ni, nj, px, py, keep, finals, det)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.sample(dict(cuts=[e for e in evs if e['ev'] == 'final'][0]['cuts']))
    check(ctx, evs, info, prefixes)


def orders(ctx, G, xG, ni, nj, px, py, keep, finals, det):
    """two orders of joins must agree; entries straddling a cut may be 0.0 (known
    finding) or the grid's own value"""
    (a, la), (b, lb) = [(tok.decode(np.asarray(x, '>f8').tobytes(), ni, nj), l) for x, l in finals]
    for f in NAMES:
        cut = np.zeros(G[f].shape, bool)
        if f in ('DXC', 'DXV', 'RAZ', 'RAW'):
            cut[px[1:-1], :] = True
        if f in ('DYC', 'DYU', 'RAZ', 'RAS'):
            cut[:, py[1:-1]] = True
        same = np.isclose(a[f], b[f], rtol=1e-9, atol=1e-9, equal_nan=True)
        if np.any(~same & ~cut):
            ctx.violation('order', dict(det, field=f, first=la, second=lb))
        if keep:
            continue
        tol = 1e-9 * np.abs(G[f]) + 1e-5
        if f[0] == 'R':                 # the joined grid may be measured flat or round
            V = xG.V
            q = 4 * geo.quad_noise(V[:-1, :-1], V[1:, :-1], V[1:, 1:], V[:-1, 1:]) * geo.R ** 2
            tol = tol + 1e-5 * np.abs(G[f]) + np.array([[sum(q[t[1], t[2]] for t in el) for el in row] for row in xG.fields[f]])
        for v in (a[f], b[f]):
            if np.any(cut & ~((v == 0) | (np.abs(v - G[f]) <= tol))):
                ctx.violation('order.cut', dict(det, field=f, got=v, want=G[f], first=la, second=lb))
        if np.any(~same & cut):
            ctx.known('cut-zeros-depend-on-order', 'entries straddling a cut stay 0.0 unless the joined grid later serves as tile A')


def adj(a, b):
    if a[1] == b[0] and a[2:] == b[2:]:
        return 'E'
    if a[0] == b[1] and a[2:] == b[2:]:
        return 'W'
    if a[3] == b[2] and a[:2] == b[:2]:
        return 'N'
    if a[2] == b[3] and a[:2] == b[:2]:
        return 'S'


def tile(G, x0, x1, y0, y1, keep):
    t = {}
    ni, nj = x1 - x0, y1 - y0
    for f in NAMES:
        a = G[f][x0:x1 + tok.ni_del(f), y0:y1 + tok.nj_del(f)].copy()
        if not keep:
            L = LOC[f]
            zi = f in ('DXC', 'DXV', 'RAZ', 'RAW')          # reach over the west/east faces
            zj = f in ('DYC', 'DYU', 'RAZ', 'RAS')
            if zi:
                a[[0, -1], :] = 0
            if zj:
                a[:, [0, -1]] = 0
        t[f] = a
    return t
