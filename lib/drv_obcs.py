"""getobcs runs: results directories, grids and index vectors are generated, the
regridder is a stand-in whose every output value names the call and the point,
so that a word of a boundary file can be traced back to where it came from."""
import glob, hashlib, os, shutil, tempfile
import numpy as np
import sg, tlc, tok, geo, grids, drv_mds, drv_refine

VARS = ['T', 'S', 'Eta', 'W', 'U', 'UICE', 'V', 'VICE']
SIDES = {'N': 'OB_Jnorth', 'S': 'OB_Jsouth', 'E': 'OB_Ieast', 'W': 'OB_Iwest'}
EPS = 2.0 ** -20


class Calls:
    """what the stand-in regridder was asked"""

    runs = 0

    def __init__(self, T):
        self.T = T
        self.calls = []
        Calls.runs += 1
        self.base = (Calls.runs % 8000) << 12          # no two runs in a row write the same values

    def apply(self, reg, data):
        lead = data.shape[:-2]
        out = np.zeros(lead + reg.shape_out)
        i, j = np.meshgrid(*[np.arange(n) for n in reg.shape_out], indexing='ij')
        for k in np.ndindex(*lead):
            self.calls.append((reg, self.T.arr(np.array(data[k]))))
            out[k] = (self.base + len(self.calls)) * 2.0 ** 20 + i * 1024 + j + EPS
        return out

    def decode(self, x):
        y = x - EPS
        if not (y == y and y > 0 and y == int(y) and y < 2 ** 45):
            return [0, 0, 0]
        y = int(y)
        c, i, j = (y >> 20) - self.base, (y >> 10) & 1023, y & 1023
        return [c, i, j] if 1 <= c <= len(self.calls) else [0, 0, 0]


def near(lon, lat, v):
    if lon.shape != v.shape[:2] or not (np.isfinite(lon).all() and np.isfinite(lat).all()):
        return False
    return bool((geo.ang(geo.vec(lon, lat), v) < 1e-9).all())


def mids(g, trim):
    V = geo.vec(g['XG'], g['YG'])
    if trim:
        V = V[:-1, :-1]
    return dict(T=geo.vec(g['XC'], g['YC']), U=geo.slerp(V[:, :-1], V[:, 1:], .5), V=geo.slerp(V[:-1], V[1:], .5))


def kinds(lon, lat, m):
    return [k for k in 'TUV' if near(lon, lat, m[k])]


def a_grid(rng, ni, nj, parent=False):
    lon0, lat0 = rng.uniform(-170, 150), rng.uniform(-70, 40)
    d = float(rng.choice([4., 1., .2]))
    conv = str(rng.choice(['signed', '0to360', 'plain']))
    kind = str(rng.choice(['plain', 'plain', 'turned', 'dateline'] + (['globe', 'cap'] if parent else [])))
    if kind == 'globe':
        ni = max(ni, 4)
        lon = np.linspace(0, 360, ni + 1) - (180 if rng.random() < .5 else 0)
        lat = np.linspace(-90, 90, nj + 1) if rng.random() < .5 and nj > 1 else np.linspace(-60, 70, nj + 1)
        X, Y = np.repeat(lon[:, None], nj + 1, 1), np.repeat(lat[None], ni + 1, 0)
    elif kind == 'cap':
        ni = max(ni, 3)
        X, Y = np.repeat(np.linspace(-40, 100, ni + 1)[:, None], nj + 1, 1), np.repeat(np.linspace(80, 90, nj + 1)[None], ni + 1, 0)
    else:
        X, Y = grids.corners(rng, ni, nj, 178.7 if kind == 'dateline' else lon0, lat0, d, d, .2, conv if kind != 'dateline' else 'signed')
        if kind == 'turned':
            v = geo.vec(X, Y)
            c = v.reshape(-1, 3).mean(0)
            c /= np.linalg.norm(c)
            a = rng.uniform(0, 2 * np.pi)
            K = np.array([[0, -c[2], c[1]], [c[2], 0, -c[0]], [-c[1], c[0], 0]])
            X, Y = grids.lonlat(v @ (np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K).T)
            X = grids.conv_lon(X, conv)
    g = grids.grid_from_corners(X, Y, rng=rng)
    # centres need not be what the corners suggest
    V = geo.vec(X, Y)
    C = V[1:, 1:] + V[:-1, :-1] + V[1:, :-1] + V[:-1, 1:]
    lon, lat = grids.lonlat(C / np.linalg.norm(C, axis=-1, keepdims=True))
    g['XC'], g['YC'] = grids.conv_lon(lon + .01 * d * rng.random(lon.shape), conv), np.clip(lat + .01 * d * rng.random(lat.shape), -89.5, 89.5)
    return g, ni, nj, kind


class Res(drv_mds.Set):
    """an MDS set with given contents"""

    def __init__(self, rng, a):
        self.lead, (self.ny, self.nx) = list(a.shape[:-2]), a.shape[-2:]
        self.nrec, self.blank, self.flds, self.sim, self.oldkey = 1, set(), None, None, False
        self.num = int(rng.integers(0, 4)), int(rng.choice([1, 1, 9]))
        self.style = str(rng.choice(['global', 'even', 'uneven']))
        self.rects = [(i, n, []) for i, n in drv_mds.cut(rng, self.lead, self.ny, self.nx, self.style)]
        self.prec, self.fmt, self.dims, self.a = str(rng.choice(['float32', 'float64'])), 'b', list(a.shape), a

    def save(self, d, name):
        ts = [dict(i0=i, n=n, map=[], k=k, data=self.a[tuple(slice(p, p + q) for p, q in zip(i, n))].ravel().tolist())
              for k, (i, n, _) in enumerate(self.rects)]
        self.put(d, name, ts)


def digest(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), 'rb') as h:
                out[os.path.relpath(os.path.join(r, f), d)] = hashlib.md5(h.read()).hexdigest()
    return out


def vec(rng, L, A):
    u = rng.random()
    if u < .35:
        return None, []
    if u < .43:
        return [], []
    if u < .55:
        v = [0] * int(rng.choice([L, L, 1, L + 2]))             # any number of zeros
    elif u < .75:
        v = [int(rng.choice([1, -1, A, -A, max(1, A // 2)]))] * L
    else:
        v = [int(x) for x in rng.integers(1, A + 1, L)]
        v = [x if rng.random() < .6 else x - A - 1 for x in v]
        if rng.random() < .3:               # open in part: no cell is named in some rows
            v = [0 if rng.random() < .4 else x for x in v]
            if not any(v):
                v = [0] * L
    form = rng.random()
    return (np.array(v) if form < .5 else list(v) if form < .85 else tuple(v)), v


def results(rng, d, pm, pn):
    """a results directory; returns var -> [time][depth] -> matrix (x,y), and the steps in directory order"""
    nt = int(rng.choice([1, 1, 2, 3]))
    steps = [int(x) for x in rng.choice([0, 1, 7, 36, 99, 100, 720, 1000, 72000], nt, replace=False)]
    nd = int(rng.choice([1, 2, 3, 3, 5]))
    have = ['T'] + [v for v in VARS[1:] if rng.random() < .6]
    out = {}
    n = 1
    for v in have:
        twod = v in ('Eta', 'UICE', 'VICE') or rng.random() < .08
        one = rng.random() < .1
        k = 1 if twod or one else nd
        sx, sy = pm, pn
        if rng.random() < .15 and v in ('U', 'UICE'):
            sx += 1
        if rng.random() < .15 and v in ('V', 'VICE'):
            sy += 1
        out[v] = []
        for s in steps:
            a = (np.arange(n, n + k * sy * sx).reshape(k, sy, sx)).astype(float)
            n += a.size
            a[rng.random(a.shape) < .1] = 0.0
            Res(rng, a[0] if twod else a).save(d, '%s.%010d' % (v, s))
            out[v].append(a)
    for decoy in ('Ttave', 'pickup', 'THETA', 'Uvel'):
        if rng.random() < .2:
            Res(rng, np.ones((pn, pm))).save(d, '%s.%010d' % (decoy, 5))
    return out, steps


def case(m, rng, root, shared):
    """one run; shared: an output directory used before (or None)"""
    d = tempfile.mkdtemp(dir=root, prefix='run_7.')
    ni, nj = (int(x) for x in rng.choice([1, 1, 2, 3, 4, 5], 2))
    pm, pn = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    if shared and rng.random() < .7:
        ni, nj, pm, pn = shared['size']
    P, pm, pn, pk = a_grid(rng, pm, pn, True)
    R, ni, nj, rk = a_grid(rng, ni, nj)
    src = str(rng.choice(['mat', 'mat', 'file', 'res', 'trimmat']))
    trim = src in ('res', 'trimmat')
    run = os.path.join(d, 'run')
    os.makedirs(run)
    res, steps = results(rng, run, pm, pn)
    if trim:        # full-shape velocities come with full grids only
        for v in res:
            if any(a.shape[-2:] != (pn, pm) for a in res[v]):
                for f in glob.glob(os.path.join(run, v + '.*')):
                    os.remove(f)
                for q, s in enumerate(steps):
                    res[v][q] = res[v][q][:, :pn, :pm]
                    a = res[v][q]
                    Res(rng, a[0] if v in ('Eta', 'UICE', 'VICE') else a).save(run, '%s.%010d' % (v, s))
    has = dict(rdir=True, pfile=False, psize=False, pmat=False, pres=False, rfile=False, rsize=False, rmat=False)
    kw = dict(parent_resultsdir=run + ('/' if rng.random() < .2 else ''))
    need = ['XC', 'YC', 'XG', 'YG']
    G = {k: P[k] for k in (need if rng.random() < .3 else P)}
    if trim:
        G = {k: a.copy() for k, a in G.items()}
        for k in G:
            if tok.ni_del(k):
                G[k][-1] = 0
            if tok.nj_del(k):
                G[k][:, -1] = 0
    if src == 'file':
        fn = os.path.join(d, 'parent.mitgrid')
        tok.put(fn, P, pm, pn)
        kw.update(parent_mitgridfile=fn, ni_parent=pm, nj_parent=pn)
        has.update(pfile=True, psize=True)
    elif src == 'res':
        for k in need:
            Res(rng, P[k][:pm, :pn].T).save(run, k)
            s = np.float32(P[k][:pm, :pn]) if False else None
        has.update(pres=True)
    else:
        kw.update(parent_mitgrid_matrices=G)
        has.update(pmat=True)
    if rng.random() < .35:
        fn = os.path.join(d, 'region.mitgrid')
        tok.put(fn, R, ni, nj)
        kw.update(regional_mitgridfile=fn, ni_regional=ni, nj_regional=nj)
        has.update(rfile=True, rsize=True)
    else:
        kw.update(regional_mitgrid_matrices={k: R[k] for k in (need if rng.random() < .3 else R)})
        has.update(rmat=True)
    vecs = {}
    for s, k in SIDES.items():
        A, L = (nj, ni) if s in 'NS' else (ni, nj)
        a, vecs[s] = vec(rng, L, A)
        if a is not None or rng.random() < .2:
            kw[k] = a
    # something missing
    fault = ''
    if rng.random() < .2:
        fault = str(rng.choice(['rdir', 'psize', 'parent', 'rsize', 'region']))
        if fault == 'rdir':
            kw['parent_resultsdir'] = None if rng.random() < .5 else ''
            has['rdir'] = False
        elif fault == 'psize' and has['pfile']:
            kw[str(rng.choice(['ni_parent', 'nj_parent']))] = None
            has['psize'] = False
        elif fault == 'rsize' and has['rfile']:
            del kw[str(rng.choice(['ni_regional', 'nj_regional']))]
            has['rsize'] = False
        elif fault == 'parent' and not has['pres']:
            for k in ('parent_mitgridfile', 'parent_mitgrid_matrices'):
                kw.pop(k, None)
            has.update(pfile=False, psize=False, pmat=False)
        elif fault == 'region':
            for k in ('regional_mitgridfile', 'regional_mitgrid_matrices'):
                kw.pop(k, None)
            has.update(rfile=False, rsize=False, rmat=False)
        else:
            fault = ''
    # where to
    if shared and not fault:
        out = shared['out']
        kw['resultsdir'] = out
    elif rng.random() < .4 and has['rdir']:
        out = run + '_obcs'
        if rng.random() < .5:
            kw['resultsdir'] = None
    else:
        out = os.path.join(d, str(rng.choice(['o', 'a/b', 'OBCS.dir'])))
        kw['resultsdir'] = out
        if rng.random() < .4:
            os.makedirs(out)
            for f in ('OBNt', 'OBEs', 'OBWu', 'OBSeta', 'bilinear_%dx%d_%dx%d_tracer.nc' % (pm, pn, ni, nj)):
                if rng.random() < .6:
                    with open(os.path.join(out, f), 'wb') as h:
                        h.write(b'x' * int(rng.choice([1, 5000])))
    T = tok.Tok()
    C = Calls(T)
    sg.StubRegridder.log.clear()
    sg.StubRegridder.apply = lambda reg, data: C.apply(reg, data)
    before, old = digest(d), digest(out)
    before = {k: v for k, v in before.items() if not os.path.join(d, k).startswith(out + os.sep)}
    keep = {k: v.copy() for k, v in G.items()}
    keepR = {k: v.copy() for k, v in R.items()}
    with drv_mds.shuffled(rng):
        o = sg.call(m.getobcs.getobcs, verbose=bool(rng.random() < .15), strict=bool(rng.random() < .15), **kw)
    after, new = digest(d), digest(out)
    after = {k: v for k, v in after.items() if not os.path.join(d, k).startswith(out + os.sep)}
    clean = before == after and all(np.array_equal(keep[k], G[k]) for k in keep) and all(np.array_equal(keepR[k], R[k]) for k in keepR)
    for s, k in SIDES.items():
        if kw.get(k) is not None and [int(x) for x in kw[k]] != vecs[s]:
            clean = False
    regs = []
    log = list(sg.StubRegridder.log)
    mp, mr = mids(G if has['pmat'] else dict(P), trim), mids(R, False)
    if src == 'res':        # as precise as the files
        Q = {}
        for k in need:
            f = glob.glob(os.path.join(run, k + '*.meta'))[0]
            Q[k] = P[k].astype('f4').astype(float) if 'float32' in open(f).read() else P[k]
        mp = mids(Q, True)
    for g in log:
        plain = not any(v for k, v in g.kw.items() if k not in ('filename', 'weights', 'reuse_weights'))
        regs.append(dict(src=kinds(g.lon_in, g.lat_in, mp), dst=kinds(g.lon_out, g.lat_out, mr), srcshape=list(g.shape_in),
                         dstshape=list(g.shape_out), bilinear=g.method == 'bilinear', plain=plain, stale=bool(g.stale)))
    files, size = {}, {}
    for k in new:
        if k.startswith('OB') and new[k] != old.get(k):
            with open(os.path.join(out, k), 'rb') as h:
                b = h.read()
            size[k] = len(b)
            files[k] = [C.decode(float(x)) for x in np.frombuffer(b[:len(b) // 8 * 8], '>f8')] if len(b) < 200000 else []
    names = lambda q: [[k, v] for k, v in sorted(q.items()) if k.startswith('OB')]
    e = dict(ev='run', has=has, ni=ni, nj=nj, pm=pm, pn=pn, trim=trim, vecs=vecs, steps=steps,
             results={v: [[T.arr(x.T) for x in a] for a in ts] for v, ts in res.items()},
             regs=regs, calls=[dict(reg=1 + [q is g for q in log].index(True), data=t) for g, t in C.calls],
             files=files or {'': []}, size=size or {'': 0}, old=names(old), new=names(new), clean=clean, kind=o.kind, mro=o.mro)
    if not files:
        e['files'] = {}
    info = dict(size=[ni, nj], parent=[pm, pn, pk], region=rk, source=src, vecs=vecs, vars={v: len(ts[0]) for v, ts in res.items()},
                steps=steps, fault=fault, shared=bool(shared), got=repr(o), files=sorted(files), regs=regs)
    return e, info, dict(size=(ni, nj, pm, pn), out=out)


def runs(ctx, m, n):
    rng = ctx.np
    ev, info = [], []
    while len(ev) < n:
        root = tempfile.mkdtemp(prefix='obcs')
        try:
            sh = None
            for k in range(int(rng.choice([1, 1, 2, 3]))):
                e, i, sh2 = case(m, rng, root, sh)
                sh = sh2 if not i['fault'] else None
                ev.append(e)
                info.append(i)
                ctx.count(i['source'])
                ctx.count('parent ' + i['parent'][2])
                if i['fault']:
                    ctx.count('missing ' + i['fault'])
                if i['shared']:
                    ctx.count('same directory')
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return ev, info


def validate(ctx, ev, info, names, chunks=6):
    for at, cl in tlc.trace(ctx, 'TraceObcs', ev, chunks=chunks):
        for c in cl:
            if c in names or c == 'unevaluable':
                ctx.violation(c, info[at])
