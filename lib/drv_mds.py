"""MDS file sets: written by the harness, read by the code under test, and the
other way round; recorded as events for TraceMds."""
import contextlib, glob, os, shutil, tempfile
import numpy as np
import sg, tlc, tok

PRE = {'b': '>', 'ieee-be': '>', '>': '>', 'l': '<', 'ieee-le': '<', '<': '<'}
SUF = {'float32': 'f4', 'float64': 'f8'}
NANCODE, BADCODE = -77777, -88888


def enc(a):
    """array -> flat list of ints"""
    a = np.asarray(a)
    out = []
    for x in a.ravel().tolist():
        if isinstance(x, float) and x != x:
            out.append(NANCODE)
        elif isinstance(x, (int, float)) and abs(x) < 1 << 30 and x == int(x):
            out.append(int(x))
        else:
            out.append(BADCODE)
    return out


@contextlib.contextmanager
def shuffled(rng):
    """files are found in an arbitrary order"""
    g, i = glob.glob, glob.iglob

    def shuf(*a, **k):
        r = sorted(i(*a, **k))
        return [r[q] for q in rng.permutation(len(r))]
    glob.glob = shuf
    glob.iglob = lambda *a, **k: iter(shuf(*a, **k))
    try:
        yield
    finally:
        glob.glob, glob.iglob = g, i


# --- cutting -----------------------------------------------------------------
def bounds(rng, n, parts):
    c = sorted(set(int(x) for x in rng.integers(0, n + 1, max(0, parts - 1))) - {0, n})
    return [0] + c + [n]


def even(n, k):
    return list(range(0, n + 1, n // k))


def cut(rng, lead, ny, nx, style, fine=False):
    """rectangles [(i0..), (n..)] of the array"""
    if style == 'global':
        return [([0] * len(lead) + [0, 0], list(lead) + [ny, nx])]
    if style == 'even':
        kx = [k for k in range(1, nx + 1) if nx % k == 0]
        ky = [k for k in range(1, ny + 1) if ny % k == 0]
        bx, by = even(nx, int(rng.choice(kx))), even(ny, int(rng.choice(ky)))
        if fine:
            bx, by = even(nx, nx), even(ny, ny)
    else:
        bx, by = bounds(rng, nx, int(rng.integers(1, 4))), bounds(rng, ny, int(rng.integers(1, 4)))
    bl = [[0, n] for n in lead]
    if style == 'leadcut' and lead:
        bl[0] = bounds(rng, lead[0], 2)
    out = []
    import itertools
    for combo in itertools.product(*[range(len(b) - 1) for b in bl + [by, bx]]):
        bs = bl + [by, bx]
        out.append(([b[c] for b, c in zip(bs, combo)], [b[c + 1] - b[c] for b, c in zip(bs, combo)]))
    return out


def digits12(rng):
    """a number of up to thirteen significant digits, as the files hold them"""
    if rng.random() < .06:
        return float('%.12E' % abs(rng.normal() * 10.0 ** float(rng.choice([-120, -99, -40, 60, 99, 120, 250]))))
    x = rng.normal() * 10.0 ** rng.integers(-3, 10) if rng.random() < .7 else rng.integers(0, 10 ** 6) * 3600.0 + .5
    return float('%.12E' % abs(x))


class Set:
    """one global array layout: dims, records, tile geometry"""

    def __init__(self, rng, maxlead=2, maps=True, big=False, twod=False, dims=None, deep=False, mosaic=False):
        self.lead = [] if twod else [int(x) for x in rng.integers(1, 4, int(rng.integers(0, maxlead + 1)))]
        self.nrec = 1 if twod else int(rng.choice([1, 1, 2, 3]))
        if deep:                                 # many levels and records
            self.lead = [int(x) for x in rng.integers(1, 13, int(rng.integers(1, 3)))]
            self.nrec = int(rng.integers(1, 13)) if np.prod(self.lead) < 30 else 2
            dims = (int(rng.integers(1, 3)), int(rng.integers(1, 4)))
        if mosaic:                               # many tiles
            dims = (int(rng.integers(4, 12)), int(rng.integers(5, 12)))
        style = 'even' if mosaic else rng.choice(['global', 'even', 'uneven', 'uneven', 'leadcut', 'faces', 'faces'] if maps else ['global', 'even', 'even', 'uneven'])
        if style == 'faces' and (dims is None):
            nf, s = int(rng.integers(1, 4)), int(rng.choice([1, 2, 2, 3, 4]))
            div = [k for k in range(1, s + 1) if s % k == 0]
            w, h = int(rng.choice(div)), int(rng.choice(div))
            lay = rng.choice(['line', 'wide', 'tall'])
            self.rects = []
            for f in range(nf):
                for b in range(s // h):
                    for a in range(s // w):
                        if lay == 'line':
                            self.rects.append(([0, f * s * s + b * h * s + a * w], [h, w], [s, 0]))
                        elif lay == 'wide':
                            self.rects.append(([b * h, f * s + a * w], [h, w], []))
                        else:
                            self.rects.append(([f * s + b * h, a * w], [h, w], [0, 1]))
            self.ny, self.nx = {'line': (1, nf * s * s), 'wide': (s, nf * s), 'tall': (nf * s, s)}[lay]
            if lay == 'wide' and rng.random() < .5:
                self.rects = [(i, n, [0, 1]) for i, n, _ in self.rects]
            self.rects = [([0] * len(self.lead) + i, self.lead + n, mp) for i, n, mp in self.rects]
            style = 'faces ' + str(lay)
        else:
            self.ny, self.nx = dims or (int(rng.integers(1, 7 if big else 5)), int(rng.integers(1, 8 if big else 6)))
            self.rects = [(i, n, []) for i, n in cut(rng, self.lead, self.ny, self.nx, style, mosaic)]
        self.style = str(style)
        order = rng.permutation(len(self.rects))
        self.rects = [self.rects[k] for k in order]
        # blank tiles (never the first: scanning for iterations looks for it)
        self.blank = set()
        if len(self.rects) > 1 and rng.random() < .4:
            self.blank = {int(k) for k in rng.choice(np.arange(1, len(self.rects)), int(rng.integers(1, len(self.rects))), replace=False)}
        self.prec = str(rng.choice(['float32', 'float64']))
        self.fmt = str(rng.choice(list(PRE)))
        self.dims = self.lead + [self.ny, self.nx]
        self.mapped = any(r[2] for r in self.rects)
        self.flds = ['F%d' % k for k in range(self.nrec)] if rng.random() < .4 else None
        self.sim = 'sim %d' % rng.integers(9) if rng.random() < .3 else None
        self.oldkey = rng.random() < .1
        # the two numbers in a tile's name
        self.num = int(rng.integers(0, 4)), int(rng.choice([1, 1, 9, 20])) if len(self.rects) < 40 else int(rng.choice([1, 7])) if len(self.rects) < 140 else 1
        # values that single precision cannot hold
        self.wide = self.prec == 'float64' and bool(rng.random() < .6)

    def tiles(self, rng, base):
        n = 0
        out = []
        if self.wide:
            base += 1 << 25
        for k, (i0, ext, mp) in enumerate(self.rects):
            if k in self.blank:
                continue
            q = self.nrec * int(np.prod(ext))
            out.append(dict(i0=i0, n=ext, map=mp, data=[base + x for x in range(n, n + q)], k=k))
            n += q
        return out

    def text(self, t, step=None, interval=None, rng=None, change=None):
        c = change or {}
        L = []
        if self.sim is not None or 'sim' in c:
            L.append(" simulation = { '%s' };" % c.get('sim', self.sim))
        dims = c.get('dims', self.dims)
        L.append(' nDims = [ %3d ];' % len(dims))
        L.append(' dimList = [')
        rows = []
        for d, i0, n in list(zip(dims, t['i0'], t['n']))[::-1]:
            rows.append(' %5d,%5d,%5d' % (d, i0 + 1, i0 + n))
        L.append(',\n'.join(rows))
        L.append(' ];')
        if t['map']:
            L.append(' map2glob = [ %5d,%5d ];' % tuple(t['map']))
        L.append(" %s = [ '%s' ];" % ('format' if self.oldkey else 'dataprec', c.get('prec', self.prec)))
        L.append(' nrecords = [ %5d ];' % c.get('nrec', self.nrec))
        if step is not None:
            L.append(' timeStepNumber = [ %10d ];' % step)
        if interval is not None:
            L.append(' timeInterval = [' + ''.join('%20.12E' % x for x in interval) + ' ];')
        fl = c.get('flds', self.flds)
        if fl is not None:
            L.append(' nFlds = [ %4d ];\n fldList = {\n' % len(fl) + ''.join(" '%-8s'" % f for f in fl) + '\n };')
        return '\n'.join(L) + '\n'

    def canon(self, change=None):
        c = change or {}
        return repr((c.get('sim', self.sim), c.get('dims', self.dims), c.get('prec', self.prec), c.get('nrec', self.nrec),
                     c.get('flds', self.flds)))

    def number(self, k):
        w, step = self.num
        k *= step
        return (k + 1, 1) if w == 0 else (1, k + 1) if w == 1 else (1 + k % w, 1 + k // w)

    def put(self, d, name, tiles, dirs=None, **kw):
        change = kw.pop('changes', {})
        for t in tiles:
            dd = d if dirs is None else os.path.join(d, dirs[t['k'] % len(dirs)])
            os.makedirs(dd, exist_ok=True)
            if len(self.rects) == 1 and self.style == 'global':
                fn = os.path.join(dd, name)
            else:
                fn = os.path.join(dd, '%s.%03d.%03d' % ((name,) + self.number(t['k'])))
            with open(fn + '.meta', 'w') as f:
                f.write(self.text(t, change=change.get(t['k']), **kw))
            np.array(t['data']).astype(PRE[self.fmt] + SUF[self.prec]).tofile(fn + '.data')


# --- reading ------------------------------------------------------------------
def read_case(ctx, rng, m, d, plain, nreq, maxlead=2, many=False, mode=None):
    """one directory with one or more iterations, several requests"""
    s = Set(rng, maxlead=1 if mode == 'mosaic' else maxlead, big=ctx.thorough, deep=mode == 'deep', mosaic=mode == 'mosaic')
    long = 10 if mode == 'deep' else 4
    nit = int(rng.choice([0, 1, 2, 3, 4], p=[.25, .25, .2, .15, .15]))          # 0: no iteration number
    if many:                                     # a long run
        s = Set(rng, maxlead=0, twod=True, dims=(1, int(rng.integers(1, 3))))
        s.blank, s.wide, nit = set(), False, int(rng.choice([101, 130]))
    nums = rng.choice(200, nit, replace=False)
    if nit and rng.random() < .5 and 0 not in nums:
        nums[0] = 0                              # from the very beginning
    nums = sorted(int(x) for x in nums * int(rng.choice([1, 36])))
    # iterations are found by their first tile
    fault = rng.choice(['none', 'none', 'none', 'conflict']) if len(s.rects) - len(s.blank) + nit > 1 else 'none'
    dirs = ['res_%d' % k for k in range(3)] if s.style != 'global' and rng.random() < .25 else None
    step, intv = rng.random() < .5, rng.random() < .4
    sets, metas, steps, intervals = [], [], [], []
    T = tok.Tok()
    changes_all = []
    base = 1000
    for q in range(max(1, nit)):
        t = s.tiles(rng, base)
        u = rng.random()
        for x in t:                              # zeros and negative values among them
            x['data'] = [0 if u < .08 or u < .16 and rng.random() < .4 else -y if u > .85 and rng.random() < .5 else y for y in x['data']]
        base += max(1000, s.nrec * int(np.prod(s.dims)))
        sets.append(t)
        ch = {}
        changes_all.append(ch)
    if fault == 'conflict':
        q = int(rng.integers(len(sets)))
        if sum(len(t) for t in sets) > 1:
            t = sets[q][int(rng.integers(len(sets[q])))]
            kind = rng.choice(['sim', 'prec', 'nrec', 'dims', 'flds'])
            changes_all[q][t['k']] = {'sim': dict(sim='other'), 'prec': dict(prec='float64' if s.prec == 'float32' else 'float32'),
                                      'nrec': dict(nrec=s.nrec + 1), 'dims': dict(dims=s.dims[:-1] + [s.dims[-1] + 1]),
                                      'flds': dict(flds=['ZZ'])}[str(kind)]
        else:
            fault = 'none'
    for q, t in enumerate(sets):
        name = 'T' if nit == 0 else 'T.%010d' % nums[q]
        st = (nums[q] if nit else 5) if step else None
        iv = [digits12(rng) for _ in range(int(rng.choice([1, 2])))] if intv else None
        steps.append([st] if st is not None else [])
        intervals.append([T.vec(iv)] if iv is not None else [])
        s.put(d, name, t, dirs, step=st, interval=iv, changes=changes_all[q])
        metas.append([s.canon(changes_all[q].get(x['k'])) for x in t])
    # other files, with names that begin or end alike
    if rng.random() < .5:
        s2 = Set(rng, maxlead=1)
        n2 = str(rng.choice(['Tave.%010d', 'pT.%010d', 'Tave', 'pT', 'T.0%010d', 'T.bak.%010d', 'T.001']))
        if '%' in n2:
            n2 %= int(rng.choice(nums or [5])) + int(rng.choice([0, 0, 9999]))
        s2.put(d, n2, s2.tiles(rng, 5000), dirs)
        if nit == 0 and rng.random() < .5:
            s2.put(d, 'T.%010d' % 5, s2.tiles(rng, 6000), dirs)
    pat = os.path.join(d, 'res_*/T' if dirs else 'T')
    ev, info = [], []
    for r in range(nreq):
        kw = {}
        e = dict(ev='read', dims=s.dims, nrec=s.nrec, sets=[[{k: t[k] for k in ('i0', 'n', 'map', 'data')} for t in x] for x in sets],
                 metas=metas, fill=0, rec=dict(all=True, scalar=False, list=[]), levs=[], levscalar=[], region=[], squeeze=True)
        # iterations
        args = [pat]
        if nit == 0:
            e['its'], e['itscalar'] = [1], True
            itnums = [-1]
            if rng.random() < .08:
                args = [pat + 'x']
                e['its'] = [0]
        else:
            form = rng.choice(['one', 'list', 'nan', 'inf', 'name'] if not plain else ['one', 'nan', 'list', 'name'])
            if form == 'one':
                k = int(rng.integers(nit))
                args.append(nums[k] if rng.random() < .7 else np.int64(nums[k]))
                e['its'], e['itscalar'], itnums = [k + 1], True, [nums[k]]
                if rng.random() < .08:
                    args[1] = nums[-1] + 1
                    e['its'] = [0]
            elif form == 'list':
                ks = [int(x) for x in rng.integers(0, nit, int(rng.integers(1, 7)))]
                lst = [nums[k] for k in ks]
                e['its'] = [k + 1 for k in ks]
                if rng.random() < .08:
                    lst[-1] = nums[-1] + 7
                    e['its'][-1] = 0
                args.append(lst if rng.random() < .7 else tuple(lst))
                e['itscalar'], itnums = False, lst
            elif form == 'nan':
                args.append(np.nan if rng.random() < .7 else float('nan'))
                e['its'], e['itscalar'], itnums = list(range(1, nit + 1)), False, nums
            elif form == 'inf':
                args.append(np.inf if rng.random() < .7 else float('inf'))
                e['its'], e['itscalar'], itnums = [nit], True, nums[-1:]
            else:
                k = int(rng.integers(nit))
                args = [pat + '.%010d' % nums[k]]
                e['its'], e['itscalar'], itnums = [k + 1], True, [-1]
        kw['machineformat'] = s.fmt
        if s.fmt == 'b' and rng.random() < .5:
            del kw['machineformat']
        # result type and fill
        dt = np.dtype(float)
        u = rng.random()
        if u < .2:
            kw['astype'], dt = None, np.dtype(PRE[s.fmt] + SUF[s.prec])
        elif u < .3 and not s.wide:
            kw['astype'] = np.float32
            dt = np.dtype(np.float32)
        elif u < .4:
            kw['astype'] = int
            dt = np.dtype(int)
        u = rng.random()
        if u < .3:
            kw['fill_value'] = e['fill'] = -99
        elif u < .5 and dt.kind == 'f':
            kw['fill_value'], e['fill'] = np.nan, NANCODE
        mm = rng.random()
        if mm < .4:
            kw['usememmap'] = True
        elif mm < .45:
            kw['mm'] = True
        if not plain:
            u = rng.random()
            if u < .3:
                k = int(rng.integers(-s.nrec, s.nrec))
                if rng.random() < .05:
                    k = s.nrec
                kw['rec'], e['rec'] = k if rng.random() < .7 else np.int64(k), dict(all=False, scalar=True, list=[k])
            elif u < .65:
                ks = [int(x) for x in rng.integers(-s.nrec, s.nrec, int(rng.integers(1, long)))]
                if rng.random() < .05:
                    ks[-1] = s.nrec + 1
                form = rng.choice(['list', 'array', 'range', 'tuple'])
                if form == 'range':
                    ks = list(range(int(rng.integers(0, s.nrec)), s.nrec))
                kw['rec'] = {'list': ks, 'array': np.array(ks), 'range': range(ks[0], s.nrec), 'tuple': tuple(ks)}[str(form)]
                e['rec'] = dict(all=False, scalar=False, list=ks)
            if s.lead and s.style != 'leadcut' and rng.random() < .6:
                nl = int(rng.integers(1, len(s.lead) + 1))
                lv, sc, arg = [], [], []
                for q in range(nl):
                    n = s.lead[q]
                    if rng.random() < .4:
                        k = int(rng.integers(n))
                        lv.append([k])
                        sc.append(True)
                        arg.append(k)
                    else:
                        ks = [int(x) for x in rng.integers(0, n, int(rng.integers(1, long)))]
                        lv.append(ks)
                        sc.append(False)
                        arg.append(ks if rng.random() < .6 else np.array(ks))
                kw['lev'] = tuple(arg) if nl > 1 or rng.random() < .5 else arg[0]
                e['levs'], e['levscalar'] = lv, sc
            if rng.random() < (.5 if not s.mapped else .1):
                x = sorted(int(v) for v in rng.choice(s.nx + 1, 2, replace=False))
                y = sorted(int(v) for v in rng.choice(s.ny + 1, 2, replace=False))
                if rng.random() < .08:      # nothing of it
                    x = [int(rng.choice([0, x[0], x[1]]))] * 2
                if rng.random() < .08:
                    y = [int(rng.choice([0, y[0], y[1]]))] * 2
                reg = x + y
                for q, n in zip(range(4), (s.nx, s.nx, s.ny, s.ny)):
                    if reg[q] < n and rng.random() < .35 and reg[q] != 0 or (q % 2 == 0 and reg[q] == 0 and rng.random() < .2):
                        reg[q] -= n
                kw['region'] = tuple(reg) if rng.random() < .6 else list(reg)
                e['region'] = reg
            if rng.random() < .35:
                kw['squeeze'] = e['squeeze'] = False
        if fault == 'conflict':
            # a changed file read on its own is simply another array
            used = [(k, x) for k in e['its'] if k for x in metas[k - 1]]
            if len({x for _, x in used}) == 1 and used[0][1] != s.canon():
                continue
        has = rng.random() < .5
        if has:
            kw['returnmeta'] = True
        with shuffled(rng):
            o = sg.call(m.mds.rdmds, *args, **kw)
        v, got = o.value, None
        kind = o.kind
        if kind == 'ok' and has:
            try:
                v, its, meta = o.value
                got = dict(has=True, its=[int(x) for x in its], dimlist=list(meta['dimlist']), nrecords=list(meta['nrecords']),
                           steps=list(meta.get('timestepnumber', [])),
                           intervals2=[T.vec(y) for y in meta.get('timeinterval', [])])
            except Exception as ex:
                kind = 'malformed'
        if kind == 'ok' and not (isinstance(v, np.ndarray) and v.dtype == dt):
            kind = 'wrong type'
        e.update(kind=kind, mro=o.mro, shape=list(v.shape) if kind == 'ok' else [], data=enc(v) if kind == 'ok' else [],
                 got=got or dict(has=False, its=[], dimlist=[], nrecords=[], steps=[], intervals2=[]), itnums=[int(x) for x in itnums],
                 steps=[x for k in e['its'] if k for x in steps[k - 1]], intervals2=[x for k in e['its'] if k for x in intervals[k - 1]])
        ev.append(e)
        info.append(dict(style=s.style, dims=s.dims, nrec=s.nrec, tiles=[(t['i0'], t['n'], t['map']) for t in sets[0]],
                         args=[os.path.relpath(args[0], d)] + args[1:], kw={k: repr(x) for k, x in kw.items()}, fault=str(fault), got=repr(o), shape=e['shape']))
        ctx.count(s.style)
        if kw.get('usememmap') or kw.get('mm'):
            ctx.count('memmap')
        if fault == 'conflict':
            ctx.count('conflict')
        if 0 in e['its']:
            ctx.count('missing')
    return ev, info


def reads(ctx, m, cases, nreq, plain):
    ev, info = [], []
    for c in range(cases):
        d = tempfile.mkdtemp(prefix='mds')
        try:
            many = c % (cases // 2) == 7
            mode = 'deep' if c % 8 == 5 else 'mosaic' if c % 45 == 20 else None
            a, b = read_case(ctx, ctx.np, m, d, plain, 3 if many else nreq, many=many, mode=mode)
            if mode:
                ctx.count(mode)
            ev += a
            info += b
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return ev, info


# --- writing ------------------------------------------------------------------
def writes(ctx, m, cases):
    rng = ctx.np
    ev, info = [], []
    for c in range(cases):
        T = tok.Tok()
        rank = int(rng.choice([2, 2, 3, 3, 4, 5]))
        shape = [int(x) for x in rng.integers(1, 5, rank)]
        if rng.random() < .03:
            shape = [2, 10000] if rng.random() < .5 else [10001, 1]
            rank = 2
        many = rng.random() < .07
        if many:                        # many records
            shape, rank = [int(rng.choice([130, 256, 300, 520])), 1, int(rng.integers(1, 3))], 3
            if rng.random() < .4:
                shape, rank = [2, 70, 1, 2], 4
        big = max(shape) > 100
        a = (rng.integers(0, 9, shape) * 1.0 if big or rng.random() < .3 else rng.normal(size=shape) * 10.0 ** rng.integers(-5, 6))
        if rng.random() < .2:
            a.ravel()[rng.integers(a.size)] = rng.choice([np.nan, np.inf, -0.0, 1e300 if rng.random() < .5 else 5e-324])
        lay = rng.choice(['C', 'F', 'T', 'f4', 'int', 'strided'])
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'T':
            a = a.T
            shape = list(a.shape)
        elif lay == 'f4':
            with np.errstate(all='ignore'):
                a = a.astype('f4')
        elif lay == 'int':
            a = rng.integers(-1000, 1000, shape)
        elif lay == 'strided':
            w = np.zeros([2 * n for n in shape])
            w[tuple(slice(1, None, 2) for _ in shape)] = a
            a = w[tuple(slice(1, None, 2) for _ in shape)]
        kw = {}
        prec = 'float32'
        if rng.random() < .6:
            prec = kw['dataprec'] = str(rng.choice(['float32', 'float64']))
        badprec = rng.random() < .03
        if badprec:
            kw['dataprec'] = str(rng.choice(['real*8', 'float16', 'f8', 'int32']))
        fmt = 'b'
        if rng.random() < .5:
            fmt = kw['machineformat'] = str(rng.choice(list(PRE)))
        nd, nr, dl = [], [], []
        if rng.random() < .4 or many:
            nd = [int(rng.integers(2, rank + 1)) if not many or rng.random() < .3 else 2]
            if rng.random() < .1:
                nd = [int(rng.choice([0, -1, rank + 1, rank + 3]))]
        if rng.random() < .4:
            k = nd[0] if nd and 0 < nd[0] <= rank else int(rng.integers(2, rank + 1))
            nr = [int(np.prod(shape[:rank - k]))]
            if rng.random() < .2:
                nr = [nr[0] + int(rng.choice([-1, 1, 2]))]
            if nr[0] < 1:
                nr = []
        if rng.random() < .25:
            k = nd[0] if nd else None
            if k is None:
                k = min(3, rank) if not nr else next((q for q in range(rank, 0, -1) if int(np.prod(shape[:rank - q])) >= nr[0]), rank)
            dl = [int(x) for x in shape[::-1][:max(k, 1)]]
            u = rng.random()
            if u < .2:
                dl = dl[::-1]
            elif u < .3:
                dl = dl[:-1]
            elif u < .4:
                dl[0] += 1
        # the reader needs at least two dimensions
        want_nd = nd[0] if nd else (min(3, rank) if not nr else None)
        if want_nd is None:
            q = next((q for q in range(0, rank + 1) if int(np.prod(shape[:q])) >= nr[0]), rank + 1)
            want_nd = rank - q
            if int(np.prod(shape[:min(q, rank)])) != nr[0]:
                want_nd = 2         # refused anyway
            elif want_nd < 2:
                nr, want_nd = [], min(3, rank)
                dl = []
        if want_nd == 1:
            nd = []
        if nd:
            kw['ndims'] = nd[0] if rng.random() < .8 else list(nd)
        if nr:
            kw['nrecords'] = nr[0] if rng.random() < .8 else list(nr)
        if dl:
            kw['dimlist'] = list(dl) if rng.random() < .7 else tuple(dl)
        itr, t2, dt2 = [], [], []
        halves = rng.random() < .5      # times in halves, or any time without a time step
        code = (lambda x: int(2 * x) if 2 * x == int(2 * x) else BADCODE) if halves else T.one
        if rng.random() < .5:
            itr = [int(rng.choice([0, 1, 36, 72000, 1234567]))]
            kw['itr'] = itr[0]
        u = rng.random()
        if not halves:
            t = [digits12(rng) for _ in range(int(rng.choice([0, 1, 1, 2])))]
            t2 = [T.one(x) for x in t]
            if t:
                kw['times'] = t[0] if len(t) == 1 and rng.random() < .6 else t if rng.random() < .6 else np.array(t)
        elif u < .3:
            t2 = [int(rng.integers(0, 10 ** 6))]
            kw['times'] = t2[0] / 2 if rng.random() < .6 else [t2[0] / 2]
        elif u < .5:
            t2 = sorted(int(x) for x in rng.integers(0, 10 ** 6, 2))
            kw['times'] = [x / 2 for x in t2] if rng.random() < .6 else np.array(t2) / 2
        if halves and rng.random() < .3 and (itr or t2):
            dt2 = [int(rng.integers(1, 2000))]
            if itr and not t2 and itr[0] > 10 ** 5:
                dt2 = [1]
            kw['deltat'] = dt2[0] / 2 if rng.random() < .7 else [dt2[0] / 2]
        flds, sim = [], []
        if rng.random() < .45:
            n = int(rng.choice([1, 2, 5, 20, 21, 40, 43]))
            flds = [''.join(rng.choice(list('ABCxyz_019'), int(rng.integers(1, 9)))) for _ in range(n)]
            if rng.random() < .1:
                flds[0] = 'LONGERNAME' * 2
            kw['fields'] = list(flds) if rng.random() < .7 else tuple(flds)
        if rng.random() < .4:
            sim = [str(rng.choice(['run 7', 'x', 'global ocean, cs32', "it's", 'a//b', 'p[1]', 'k = 3; q', '1.5e3', 'a}b', '  lead', ' both ', 'a  b', 'x ']))]
            kw['simulation'] = sim[0] if rng.random() < .8 else list(sim)
        with np.errstate(all='ignore'):
            stored = a.astype(PRE[fmt] + SUF[prec]).astype(float)
        words = T.vec(stored)
        d = tempfile.mkdtemp(prefix='mdw')
        try:
            before = a.copy()
            old = {}
            if rng.random() < .35 and not badprec:             # files of that name are there already
                cand = {'W'} | {'W.%010d' % i for i in itr} | ({'W.%010d' % (t2[-1] // dt2[0])} if t2 and dt2 else set())
                k = int(rng.integers(0, 3))
                if k == 2:
                    for q in cand:
                        for ext in ('.data', '.meta'):
                            with open(os.path.join(d, q + ext), 'wb') as f:
                                f.write(bytes(rng.integers(32, 120, int(rng.integers(0, 4000)), dtype=np.uint8)))
                else:
                    w = np.full((2,) * int(rng.integers(1, 5)) if k else tuple(shape) + (2,), 7.25)
                    k2 = {q: kw[q] for q in ('itr', 'times', 'deltat', 'fields') if q in kw}
                    sg.call(m.mds.wrmds, os.path.join(d, 'W'), w, dataprec='float64', simulation='an earlier run of the model', **k2)
                for q in os.listdir(d):
                    with open(os.path.join(d, q), 'rb') as f:
                        old[q] = f.read()
                ctx.count('overwritten')
            with np.errstate(all='ignore'):
                o = sg.call(m.mds.wrmds, os.path.join(d, 'W'), a, **kw)
            files = []
            for q in sorted(os.listdir(d)):
                with open(os.path.join(d, q), 'rb') as f:
                    if q not in old or f.read() != old[q]:
                        files.append(q)
            # the step number the specification expects appears in the name
            step = []
            metas = [f for f in files if f.endswith('.meta')]
            if len(metas) == 1 and metas[0] != 'W.meta':
                try:
                    assert len(metas[0]) == len('W.0000000000.meta')
                    step = [int(metas[0][2:12])]
                except Exception:
                    step = [-1]
            name = 'W' + ('.%010d' % step[0] if step else '')
            e = dict(ev='write', shape=shape, words=words, ndims=nd, nrecords=nr, dimlist=dl, itr=itr, times2=t2, dt2=dt2, badprec=bool(badprec),
                     simulation=[x.rstrip() for x in sim], fields=flds, dataprec=prec, kind=o.kind, files=files, wantfiles=sorted([name + '.meta', name + '.data']),
                     step=step, wrote=[], backkind='none', back=[], backshape=[],
                     meta=dict(ndims=[], nrecords=[], dimlist=[], dataprec=[], fields=[], nflds=[], simulation=[], step=[], times2=[]))
            if o.kind == 'ok' and os.path.exists(os.path.join(d, name + '.data')):
                with open(os.path.join(d, name + '.data'), 'rb') as f:
                    b = f.read()
                w = int(SUF[prec][1])
                e['wrote'] = T.vec(np.frombuffer(b, PRE[fmt] + SUF[prec]).astype(float)) if len(b) % w == 0 else [-8]
                bk = sg.call(m.mds.rdmds, os.path.join(d, 'W'), *(step or [-1]), machineformat=fmt, returnmeta=True, usememmap=bool(rng.random() < .3))
                e['backkind'] = bk.kind
                if bk.kind == 'ok':
                    try:
                        v, _, meta = bk.value
                        e['back'], e['backshape'] = T.vec(v), list(v.shape)
                        tm = meta.get('timeinterval', [])
                        e['meta'] = dict(ndims=list(meta['ndims']), nrecords=list(meta['nrecords']), dimlist=list(meta['dimlist']),
                                         dataprec=list(meta['dataprec']), fields=list(meta.get('fldlist', [])), nflds=list(meta.get('nflds', [])),
                                         simulation=list(meta.get('simulation', [])), step=list(meta.get('timestepnumber', [])),
                                         times2=[[code(x) for x in y] for y in tm])
                    except Exception as ex:
                        e['backkind'] = 'malformed'
            same = np.array_equal(before, a, equal_nan=before.dtype.kind == 'f')
            if not same:
                e['kind'] = 'changed the array'
            ev.append(e)
            info.append(dict(shape=shape, kw={k: repr(x) for k, x in kw.items()}, layout=str(lay), got=repr(o), files=files, meta=e['meta'], back=e['backkind']))
            ctx.count('rank %d' % rank)
            if o.kind == 'err':
                ctx.count('refused')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return ev, info


# --- model output to grid --------------------------------------------------------
def conversions(ctx, m, cases):
    rng = ctx.np
    ev, info = [], []
    for c in range(cases):
        ny, nx = (int(rng.integers(1, 6)), int(rng.integers(1, 6))) if rng.random() < .9 else (int(rng.integers(3, 31)), int(rng.integers(3, 31)))
        d = tempfile.mkdtemp(prefix='m2m')
        try:
            grid = {}
            p = rng.choice([0, .3, .9, 1.0], p=[.05, .25, .3, .4])
            fmt = None
            for k, f in enumerate(tok.NAMES):
                grid[f] = []
                if rng.random() >= p:
                    continue
                s = Set(rng, maps=False, twod=True, dims=(ny, nx))
                s.fmt = 'b'
                t = s.tiles(rng, 100 * (k + 1))
                u = rng.random()
                for q in t:                                    # fields of zeros, or with some
                    q['data'] = [0 if u < .12 or u < .3 and rng.random() < .4 else -x if u > .85 and rng.random() < .5 else x for x in q['data']]
                s.put(d, f, t)
                grid[f] = dict(dims=s.dims, nrec=1, tiles=[{q: x[q] for q in ('i0', 'n', 'map', 'data')} for x in t])
                ctx.count(s.style)
            # other files of a run directory
            s = Set(rng, maps=False, dims=(ny, nx))
            s.put(d, 'T.0000000000', s.tiles(rng, 9000))
            for q in range(int(rng.choice([0, 1, 3]))):
                s2 = Set(rng, maps=False, twod=True, dims=(ny, nx))
                s2.fmt = 'b'
                n2 = str(rng.choice(['hFacC', '%sold', '%s.old', 'old%s', '%s.0000000036', '%s_2', '%s2'])).replace('%s', str(rng.choice(tok.NAMES)))
                s2.put(d, n2, s2.tiles(rng, 8000 + 100 * q))
            snap = {q: open(os.path.join(d, q), 'rb').read() for q in os.listdir(d)}
            arg = d + ('/' if rng.random() < .4 else '')
            kw = {'verbose': True} if rng.random() < .2 else {}
            with shuffled(rng):
                if rng.random() < .2:
                    cwd = os.getcwd()
                    os.chdir(d)
                    try:
                        o = sg.call(m.mds2mitgrid.mds2mitgrid, **kw)
                    finally:
                        os.chdir(cwd)
                else:
                    o = sg.call(m.mds2mitgrid.mds2mitgrid, arg, **kw)
            e = dict(ev='conv', grid=grid, kind=o.kind, keys=False, none={f: False for f in tok.NAMES}, out={f: [] for f in tok.NAMES}, ni=-1, nj=-1,
                     filessame=snap == {q: open(os.path.join(d, q), 'rb').read() for q in os.listdir(d)})
            if o.kind == 'ok':
                try:
                    g, ni, nj = o.value
                    e.update(ni=int(ni), nj=int(nj), keys=set(g) == set(tok.NAMES))
                    for f in tok.NAMES:
                        v = g.get(f)
                        e['none'][f] = v is None
                        if v is not None:
                            v = np.asarray(v)
                            e['out'][f] = [enc(r) for r in v] if v.ndim == 2 else [[BADCODE]]
                except Exception:
                    e['kind'] = 'malformed'
            ev.append(e)
            info.append(dict(ny=ny, nx=nx, present=[f for f in grid if grid[f]], got=repr(o)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return ev, info


def validate(ctx, ev, info, clauses, chunks=6):
    for at, cl in tlc.trace(ctx, 'TraceMds', ev, chunks=chunks):
        for c in cl:
            if c.startswith(clauses) or c == 'unevaluable':
                ctx.violation(c, info[at])
