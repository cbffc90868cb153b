"""Driver for the grid file properties: random histories of writes, reads,
damage and tool calls over a few paths, recorded as events for TraceMitFile."""
import os, shutil, tempfile
import numpy as np
import sg, tok, tlc, drv_mds, drv_obcs
from tok import NAMES

SPECIAL = [0.0, -0.0, float('nan'), float('inf'), float('-inf'), 5e-324, -2.2e-308, 1.7976931348623157e308,
           1.0, -1.0, 1e-300, 180.0, 360.0, 0.1, 3.0000000000000004, 123456789.123456789]
# not the NaN everybody has: the other sign, other payloads
NANS = [np.uint64(b).view(np.float64) for b in (0xfff8000000000000, 0x7ff8000000000abc, 0xfff80000deadbeef, 0x7fffffffffffffff)]
SIZES = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 3), (1, 7), (7, 1), (3, 5), (5, 5), (6, 4)]


def rand_vals(rng, shp):
    a = rng.standard_normal(shp) * 10.0 ** rng.integers(-3, 7)
    k = rng.random()
    if k < 0.5:
        m = rng.random(shp) < 0.3
        a[m] = rng.choice(SPECIAL + NANS, size=int(m.sum()))
    elif k < 0.6:
        a = np.arange(a.size, dtype=float).reshape(shp)
    return a


def layout(rng, a):
    k = int(rng.integers(0, 7))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:                      # strided view
        b = np.full((a.shape[0] * 2, a.shape[1] * 3), 7.0)
        b[::2, ::3] = a
        return b[::2, ::3]
    if k == 2:
        return a.astype('>f8')
    if k == 3:                      # reversed view
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if k == 4:                      # transposed view
        return np.ascontiguousarray(a.T).T
    return a


def rand_grid(rng, ni, nj, absent=0.1):
    g = {}
    for f in NAMES:
        if rng.random() < absent:
            g[f] = None
        else:
            g[f] = layout(rng, rand_vals(rng, tok.shape(f, ni, nj)))
    ks = list(NAMES)
    if rng.random() < 0.5:
        rng.shuffle(ks)
    return {k: g[k] for k in ks}


def observe(T, d, names):
    # everything that is in the directory, the harness's files above all
    names = set(names) | set(os.listdir(d))
    return {n: (T.file(os.path.join(d, n)) if os.path.isfile(os.path.join(d, n)) else []) for n in names
            if not os.path.isdir(os.path.join(d, n))}


def histories(ctx, m, nseq, nops, what):
    """what: weights of 'write','read','damage','tool'"""
    rng = ctx.np
    events, info = [], []
    T = tok.Tok(nans=True)
    for s in range(nseq):
        d = tempfile.mkdtemp(prefix='mgf')
        try:
            paths = ['p%d.mitgrid' % i for i in range(int(rng.integers(1, 4)))]
            events.append(dict(ev='reset')); info.append('reset')
            size = {}
            # start: some paths hold something already
            big = s % 9 == 0
            for p in paths:
                ni, nj = (SIZES + [(12, 9), (9, 14)])[int(rng.integers(0, len(SIZES) + (2 if big else 0)))]
                if rng.random() < 0.2:
                    words = rand_vals(rng, (int(rng.integers(0, 16 * (ni + 1) * (nj + 1) + 4)),))
                    b = words.astype('>f8').tobytes()
                else:
                    b = tok.encode(rand_grid(rng, ni, nj), ni, nj)
                    size[p] = (ni, nj)
                with open(os.path.join(d, p), 'wb') as f:
                    f.write(b)
                events.append(dict(ev='put', path=p, words=T.file(os.path.join(d, p)))); info.append('put')
            # somebody's other files, named much like these
            near = ['%s~', '%s.bak', '%s.tmp', '%s.part', '.%s.swp', '#%s#', '%s.new', '%s.old', '%s.1', 'tmp.mitgrid', 'tmp', 'out.mitgrid']
            others = [str(x).replace('%s', paths[0]) for x in rng.choice(near, int(rng.integers(0, 6)), replace=False)]
            for p in others:
                tok.put(os.path.join(d, p), rand_grid(rng, 1, 1), 1, 1)
                events.append(dict(ev='put', path=p, words=T.file(os.path.join(d, p)))); info.append('put')
            if rng.random() < .5:       # a file that is not there yet
                paths.append(str(rng.choice(['n.mitgrid', 'n', 'p0', 'p0.mitgrid.mitgrid', 'sub dir.x'])))
            for o in range(nops):
                op = rng.choice(['write', 'read', 'damage'], p=what)
                p = paths[int(rng.integers(0, len(paths)))]
                if op == 'read' and not os.path.exists(os.path.join(d, p)):
                    continue
                full = os.path.join(d, p)
                if op == 'write':
                    ni, nj = SIZES[int(rng.integers(0, len(SIZES)))]
                    g = rand_grid(rng, ni, nj)
                    e = dict(ev='write', path=p, ni=ni, nj=nj, grid=T.grid(g))
                    r = sg.call(m.gridio.write_mitgridfile, full, g, ni, nj,
                                **({} if rng.random() < .5 else {'verbose': bool(rng.random() < .5)}))
                    e.update(ok=r.kind == 'ok' and bool(r.value), argafter=T.grid(g), files=observe(T, d, []))
                    size[p] = (ni, nj)
                    del g, r
                elif op == 'read':
                    if p in size and rng.random() < 0.75:
                        ni, nj = size[p]
                    else:
                        ni, nj = SIZES[int(rng.integers(0, len(SIZES)))]
                    strict = bool(rng.random() < 0.5)
                    kw = {}
                    if strict or rng.random() < .5:
                        kw['strict'] = strict
                    if rng.random() < .3:
                        kw['verbose'] = True
                    r = sg.call(m.gridio.read_mitgridfile, full, ni, nj, **kw)
                    keys = r.kind == 'ok' and isinstance(r.value, dict) and sorted(r.value) == sorted(NAMES)
                    e = dict(ev='read', path=p, ni=ni, nj=nj, strict=strict, kind=r.kind,
                             runtime='RuntimeError' in r.mro, keys=keys,
                             result=T.grid(r.value) if keys else 0, files=observe(T, d, []))
                else:
                    if p not in size:
                        continue
                    ni, nj = size[p]
                    w = np.fromfile(full, '>f8')
                    if len(w) != 16 * (ni + 1) * (nj + 1):
                        continue
                    if rng.random() < .3:           # length: a few words or bytes missing or more
                        with open(full, 'rb') as f:
                            b = f.read()
                        k = int(rng.choice([1, 2, 3, 7, 8, 8, 8, 9, 16, 24, 8 * (ni + 1), 8 * (ni + 1) * (nj + 1)]))
                        if rng.random() < .75:
                            b = b[:max(0, len(b) - k)]
                            ctx.count('cut off')
                        else:
                            b = b + np.full(k // 8 + 1, rng.choice([0., 1., np.nan]), '>f8').tobytes()[:k]
                            ctx.count('extended')
                        with open(full, 'wb') as f:
                            f.write(b)
                        events.append(dict(ev='put', path=p, words=T.file(full)))
                        info.append((op, p))
                        continue
                    # hit padding (mostly) or data; one word
                    cand = pad_words(ni, nj)
                    k = int(cand[int(rng.integers(0, len(cand)))]) if rng.random() < .8 else int(rng.integers(0, len(w)))
                    w[k] = rng.choice([1.0, -0.0, float('nan'), 1e-300, -5.0, float('inf'), 0.0])
                    if rng.random() < .3:
                        q = [int(x) for x in rng.permutation(cand)[:2]]
                        if len(q) == 2:
                            w[q] = rng.choice([1.0, 5e-324, 1e300]) * np.array([1, -1])
                    w.tofile(full)
                    e = dict(ev='put', path=p, words=T.file(full))
                events.append(e)
                info.append((op, p))
                ctx.count(op)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return events, info


def lengths(ctx, m):
    """every kind of wrong length, each read at once"""
    rng = ctx.np
    T = tok.Tok(nans=True)
    events, info = [], []
    for s in range(ctx.n(6, 40)):
        ni, nj = (SIZES + [(12, 9), (9, 14)])[int(rng.integers(0, len(SIZES) + 2))]
        seg = 8 * (ni + 1) * (nj + 1)
        d = tempfile.mkdtemp(prefix='mgl')
        full = os.path.join(d, 'p.mitgrid')
        try:
            events.append(dict(ev='reset')); info.append('reset')
            good = tok.encode(rand_grid(rng, ni, nj), ni, nj)
            n, seg1 = len(good), 8 * ni * nj
            # files of a related shape: no fringe, one fringe, half, other types, swapped sizes
            alike = [x - n for x in (16 * seg1, 16 * 8 * ni * (nj + 1), 16 * 8 * (ni + 1) * nj, n // 2, n // 4, 17 * seg,
                                     16 * 8 * (ni + 2) * (nj + 2), 12 * seg, 14 * seg, 2 * n, 8 * 16, 128 * ni, 128 * nj,
                                     16 * (seg // 8 - 1) * 8) if x != n]
            for k in (-8, -1, -7, -9, -16, -int(rng.integers(2, 40)) * 8, -8 * (ni + 1), -8 * (nj + 1), -8 * ni - 8 * nj, -seg, -2 * seg - 8,
                      -15 * seg, -16 * seg, 3 - 16 * seg, 8, 3, 8 * (nj + 1), seg, 16 * seg, *alike, 0):
                b = good[:max(0, len(good) + k)] if k <= 0 else \
                    good + rng.choice([np.zeros(k // 8 + 1), rand_vals(rng, (k // 8 + 1,))]).astype('>f8').tobytes()[:k]
                with open(full, 'wb') as f:
                    f.write(b)
                events.append(dict(ev='put', path='p', words=T.file(full))); info.append('put')
                r = sg.call(m.gridio.read_mitgridfile, full, ni, nj)
                keys = r.kind == 'ok' and isinstance(r.value, dict) and sorted(r.value) == sorted(NAMES)
                events.append(dict(ev='read', path='p', ni=ni, nj=nj, strict=False, kind=r.kind, runtime='RuntimeError' in r.mro, keys=keys,
                                   result=T.grid(r.value) if keys else 0, files={'p': T.file(full)}))
                info.append(('length', ni, nj, k))
                ctx.count('wrong length')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return events, info


def big(ctx, m, sizes):
    """files larger than any buffer on the way: written, read, cut off, read again"""
    rng = ctx.np
    T = tok.Tok(nans=True)
    events, info = [], []
    for ni, nj in sizes:
        d = tempfile.mkdtemp(prefix='mgb')
        full = os.path.join(d, 'p.mitgrid')
        try:
            events.append(dict(ev='reset')); info.append('reset')
            # few distinct values, so that tokens stay cheap; every word still tells where it is
            vals = rng.standard_normal(997)
            g = {}
            for k, f in enumerate(NAMES):
                r, c = tok.shape(f, ni, nj)
                g[f] = layout(rng, vals[(np.arange(r * c) * 7 + k * 131) % 997].reshape(r, c))
            g[NAMES[int(rng.integers(0, 16))]] = None
            e = dict(ev='write', path='p.mitgrid', ni=ni, nj=nj, grid=T.grid(g))
            r = sg.call(m.gridio.write_mitgridfile, full, g, ni, nj)
            e.update(ok=r.kind == 'ok' and bool(r.value), argafter=T.grid(g), files=observe(T, d, []))
            events.append(e); info.append(('big', ni, nj))
            r = sg.call(m.gridio.read_mitgridfile, full, ni, nj)
            keys = r.kind == 'ok' and isinstance(r.value, dict) and sorted(r.value) == sorted(NAMES)
            events.append(dict(ev='read', path='p.mitgrid', ni=ni, nj=nj, strict=False, kind=r.kind, runtime='RuntimeError' in r.mro,
                               keys=keys, result=T.grid(r.value) if keys else 0, files=observe(T, d, [])))
            info.append(('big', ni, nj))
            ctx.count('big file')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return events, info


def pad_words(ni, nj):
    out = []
    for k, f in enumerate(NAMES):
        r, c = tok.shape(f, ni, nj)
        for j in range(nj + 1):
            for i in range(ni + 1):
                if i >= r or j >= c:
                    out.append(k * (ni + 1) * (nj + 1) + j * (ni + 1) + i)
    return out


def exhaustive_padding(ctx, m, sizes, tools=True):
    """every padding word of small grids in turn, each through read and the tools"""
    import grids
    rng = ctx.np
    T = tok.Tok(nans=True)
    events, info = [], []
    for (ni, nj) in sizes:
        ga, gb = grids.pair_east(m, ni, nj, rng)
        d = tempfile.mkdtemp(prefix='pad')
        try:
            events.append(dict(ev='reset')); info.append('reset')
            names = ['a.mitgrid', 'b.mitgrid']
            os.makedirs(os.path.join(d, 'run'))
            drv_obcs.Res(rng, np.ones((1, nj, ni))).save(os.path.join(d, 'run'), 'T.0000000001')
            sg.StubRegridder.apply = lambda reg, data: np.zeros(reg.shape_out)
            base = {'a.mitgrid': tok.encode(ga, ni, nj), 'b.mitgrid': tok.encode(gb, ni, nj)}
            for n in names:
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(base[n])
                events.append(dict(ev='put', path=n, words=T.file(os.path.join(d, n)))); info.append('put')
            pads = pad_words(ni, nj)
            step = 1 if len(pads) <= ctx.n(120, 400) else max(1, len(pads) // ctx.n(120, 400))
            targets = [None] + [(n, k) for k in pads[::step] for n in names]
            # several words at once, values that cancel: neighbours in file order
            # (mostly one padding row or column), same field, anywhere, all of them
            seg = (ni + 1) * (nj + 1)
            for f in range(16):
                mine = [k for k in pads if k // seg == f]
                lines = [[k for k in mine if (k % seg) % (ni + 1) == ni], [k for k in mine if (k % seg) // (ni + 1) == nj]]
                for line in lines:
                    if len(line) > 1:
                        q = rng.permutation(len(line))[:2]
                        targets.append((names[int(rng.integers(0, 2))], [line[int(q[0])], line[int(q[1])]]))
                        if rng.random() < .3:
                            targets.append((names[int(rng.integers(0, 2))], line[:len(line) // 2 * 2]))
            targets.append((names[0], [pads[0], pads[-1]]))
            targets.append((names[1], pads[:len(pads) // 2 * 2]))
            for tgt in targets:
                if tgt is not None:
                    n, k = tgt
                    w = np.frombuffer(base[n], '>f8').copy()
                    if isinstance(k, list):
                        x = float(rng.choice([1.0, 1e-300, 5e-324, 7.5, 1e300]))
                        w[k] = [x, -x] * (len(k) // 2)
                        ctx.count('padding words that cancel')
                    else:
                        w[k] = rng.choice([1.0, float('nan'), 1e-300, -5.0, -0.0, float('inf'), 5e-324])
                    w.tofile(os.path.join(d, n))
                    events.append(dict(ev='put', path=n, words=T.file(os.path.join(d, n)))); info.append('put')
                A, B = os.path.join(d, names[0]), os.path.join(d, names[1])
                both = [dict(path='a.mitgrid', ni=ni, nj=nj), dict(path='b.mitgrid', ni=ni, nj=nj)]
                one = both[:1] if tgt is None or tgt[0] == 'a.mitgrid' else both[1:]
                P = A if one[0]['path'] == 'a.mitgrid' else B
                g = ga if P is A else gb
                calls = [('read', one, lambda s: m.gridio.read_mitgridfile(P, ni, nj, strict=s))]
                if tools:
                    calls += [
                        ('regrid', one, lambda s: m.regrid.regrid(strict=s, mitgridfile=P, ni=ni, nj=nj,
                                 lon1=g['XG'][0, -1], lat1=g['YG'][0, -1], lon2=g['XG'][-1, 0], lat2=g['YG'][-1, 0],
                                 lon_subscale=1, lat_subscale=1)),
                        ('addfringe', both, lambda s: m.addfringe.addfringe(strict=s, tilea=A, nia=ni, nja=nj, tileb=B, nib=ni, njb=nj)),
                        ('stitch', both, lambda s: m.stitch.stitch(strict=s, tilea=A, nia=ni, nja=nj, tileb=B, nib=ni, njb=nj))]
                    if rng.random() < .5:
                        calls.append(('getobcs', both, lambda s: m.getobcs.getobcs(
                            strict=s, parent_mitgridfile=A, ni_parent=ni, nj_parent=nj, regional_mitgridfile=B, ni_regional=ni, nj_regional=nj,
                            parent_resultsdir=os.path.join(d, 'run'))))
                for name, inp, fn in calls:
                    for strict in (True, False):
                        if not strict and rng.random() < .6:
                            continue
                        r = sg.call(fn, strict)
                        events.append(dict(ev='tool', tool=name, inputs=inp, strict=strict, kind=r.kind,
                                           runtime='RuntimeError' in r.mro, files=observe(T, d, names)))
                        info.append((name, tgt, strict, repr(r)))
                        ctx.count('tool ' + name)
                if tgt is not None:
                    with open(os.path.join(d, tgt[0]), 'wb') as f:
                        f.write(base[tgt[0]])
                    events.append(dict(ev='put', path=tgt[0], words=T.file(os.path.join(d, tgt[0])))); info.append('put')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return events, info


def validate(ctx, events, info, prefixes, chunks=4):
    """cut at resets so that every chunk is self-contained"""
    starts = [i for i, e in enumerate(events) if e['ev'] == 'reset']
    k = min(chunks, len(starts))
    cuts = [starts[len(starts) * i // k] for i in range(k)] + [len(events)]

    def go(c):
        return [(cuts[c] + i, cl) for i, cl in tlc.trace(ctx, 'TraceMitFile', events[cuts[c]:cuts[c + 1]])]
    for part in tlc.pmap(go, range(k)):
        for i, clauses in part:
            cl = [c for c in clauses if c.startswith(prefixes + ('unevaluable',))]
            if cl:
                e = dict(events[i])
                for big in ('grid', 'argafter', 'result', 'files', 'words'):
                    e.pop(big, None)
                ctx.violation(cl, dict(event=e, info=info[i]))
