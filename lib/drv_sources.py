"""The same corners supplied in every way a source can be supplied."""
import os, shutil, tempfile
import numpy as np
import sg, tok, tlc, grids, drv_refine as dr
from tok import NAMES


def write_csv(rng, fn, a):
    fmt = rng.choice(['repr', '.17g', '.18e', 'pad'])
    with open(fn, 'w') as f:
        for row in a:
            if fmt == 'repr':
                f.write(','.join(repr(float(v)) for v in row))
            elif fmt == 'pad':
                f.write(' , '.join('%.17g' % v for v in row))
            else:
                f.write(','.join(format(float(v), fmt) for v in row))
            f.write('\n')


def noise_grid(rng, X, Y):
    """a grid with these corners; everything else anything at all"""
    g = grids.grid_from_corners(X, Y, rng=rng)
    k = rng.integers(0, 4)
    for f in NAMES:
        if f in ('XG', 'YG'):
            continue
        if k == 1:
            g[f] = np.full(g[f].shape, np.nan)
        elif k == 2:
            g[f] = rng.standard_normal(g[f].shape) * 10.0 ** rng.integers(-5, 9)
        elif k == 3 and f != 'XC':
            g[f] = None
    return g


def run(ctx, m, ncases):
    rng = ctx.np
    T = tok.Tok()
    evs, info = [], []
    for c in range(ncases):
        big = rng.random() < .06
        case = dr.re_case(rng, ambiguous=1, small=True, degenerate=0, big=big)
        if rng.random() < .15:
            case['ls'], case['ks'] = 1, 1
        X, Y = np.array(case['X']), np.array(case['Y'])
        if X.size > 40 and c % 4 and not big:
            continue
        ni, nj = X.shape[0] - 1, X.shape[1] - 1
        par = dict(lon1=case['p1'][0], lat1=case['p1'][1], lon2=case['p2'][0], lat2=case['p2'][1],
                   lon_subscale=case['ls'], lat_subscale=case['ks'])
        p = [T.one(v) for v in par.values()]
        d = tempfile.mkdtemp(prefix='src')
        try:
            jobs = ['mats', 'mats', 'file', 'bin', 'csv', 'file', 'bin', 'mats', 'csv']
            rng.shuffle(jobs)
            if big:
                jobs = ['mats', 'csv', 'bin', 'file']
            if c % 3 == 0:
                jobs += [str(rng.choice(['file0', 'bin0', 'csv0', 'none', 'half', 'half2', 'filenone', 'empty']))]
            for k, j in enumerate(jobs):
                kw = dict(par)
                s = dict(src=j, ni=ni, nj=nj)
                if j == 'mats':
                    g = noise_grid(rng, X, Y)
                    lay = rng.integers(0, 5)
                    if lay == 1:
                        g['XG'], g['YG'] = np.asfortranarray(X), np.asfortranarray(Y)
                    elif lay == 2:
                        g['XG'], g['YG'] = X.T.copy().T, Y
                    elif lay == 3:
                        g['XG'], g['YG'] = X.astype('>f8'), Y.astype('>f8')
                    elif lay == 4:
                        g = {f: g[f] for f in ('YG', 'XC', 'XG')}
                    kw['mitgrid_matrices'] = g
                    if rng.random() < .4:
                        kw.update(ni=ni, nj=nj)
                    s.update(xr=T.arr(X), yr=T.arr(Y))
                elif j.startswith('file'):
                    fn = os.path.join(d, 'g%d%s' % (k, rng.choice(['.mitgrid', '.bin', '.csv', ''])))
                    g = noise_grid(rng, X, Y)
                    tok.put(fn, g, ni, nj)
                    if rng.random() < .5:       # dirty padding
                        w = np.fromfile(fn, '>f8')
                        import drv_file
                        pw = drv_file.pad_words(ni, nj)
                        for q in pw:
                            if rng.random() < .3:
                                w[q] = rng.choice([1.0, np.nan, -3.0])
                        w.tofile(fn)
                    kw.update(mitgridfile=fn, ni=ni, nj=nj)
                    s.update(words=T.file(fn))
                elif j.startswith('bin'):
                    ext = str(rng.choice(['.bin', '.dat', '', '.data', 'csv', '.csv.bin', '_csv']))
                    for n, a in (('xg_file', X), ('yg_file', Y)):
                        fn = os.path.join(d, '%s%d%s' % (n, k, ext))
                        np.ascontiguousarray(np.asarray(a, '>f8').T).tofile(fn)
                        kw[n] = fn
                    kw.update(ni=ni, nj=nj)
                    s.update(xw=T.file(kw['xg_file']), yw=T.file(kw['yg_file']))
                elif j.startswith('csv'):
                    for n, a in (('xg_file', X), ('yg_file', Y)):
                        fn = os.path.join(d, '%s%d.csv' % (n, k))
                        write_csv(rng, fn, a)
                        kw[n] = fn
                    kw.update(ni=ni, nj=nj)
                    s.update(xr=T.arr(X), yr=T.arr(Y))
                elif j == 'half':
                    fn = os.path.join(d, 'xg.bin')
                    np.ascontiguousarray(np.asarray(X, '>f8').T).tofile(fn)
                    kw.update(ni=ni, nj=nj, xg_file=fn)
                    s['src'] = 'none'
                elif j == 'half2':
                    fn = os.path.join(d, 'yg.bin')
                    np.ascontiguousarray(np.asarray(Y, '>f8').T).tofile(fn)
                    kw.update(ni=ni, nj=nj, yg_file=fn)
                    s['src'] = 'none'
                elif j == 'none':
                    kw.update(ni=ni, nj=nj)
                elif j == 'empty':
                    kw.update(ni=ni, nj=nj, mitgrid_matrices={}, mitgridfile='' if rng.random() < .5 else None)
                    s['src'] = 'none'
                if j[-1] == '0' or j == 'filenone':
                    s['src'] = j[:3] if j[0] != 'f' else 'file'
                    drop = [('ni',), ('nj',), ('ni', 'nj')][int(rng.integers(0, 3))]
                    for q in drop:
                        kw.pop(q)
                        s[q] = 0
                if rng.random() < .2:
                    kw['verbose'] = True
                o = sg.call(m.regrid.regrid, **kw)
                e = dict(s=s, par=p, kind=o.kind, value_error='ValueError' in o.mro, new=k == 0, result=0,
                         sure=len(case['nws']) == len(case['ses']) == 1)
                if o.kind == 'ok':
                    try:
                        g, gi, gj = o.value
                        e['result'] = dict(ni=int(gi), nj=int(gj), g=T.grid(g))
                    except Exception as ex:
                        ctx.violation('malformed result', dict(error=repr(ex)))
                        continue
                evs.append(e)
                info.append((j, repr(o), dr.brief(case)))
                ctx.count('%s %s' % (j, o.kind))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.sample(dict(s=evs[0]['s'], par=evs[0]['par'], kind=evs[0]['kind']))
    starts = [i for i, e in enumerate(evs) if e['new']]
    k = min(6, len(starts))
    cuts = [starts[len(starts) * i // k] for i in range(k)] + [len(evs)]

    def go(c):
        return [(cuts[c] + i, cl) for i, cl in tlc.trace(ctx, 'TraceSources', evs[cuts[c]:cuts[c + 1]])]
    for part in tlc.pmap(go, range(k)):
        for i, cl in part:
            ctx.violation(cl, dict(source=info[i][0], outcome=info[i][1], case=info[i][2]))
