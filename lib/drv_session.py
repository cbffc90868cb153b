"""Sessions: long histories of operations in one process, with the user
overwriting objects and files in between; see Session.tla."""
import gc, hashlib, locale, os, pickle, random, shutil, signal, struct, sys, tempfile, threading, traceback, warnings
import numpy as np
import sg, tlc, tok, grids, drv_refine, drv_match, drv_obcs, drv_mds


# --- what a value is ----------------------------------------------------------
def sha(b):
    return hashlib.sha1(b).hexdigest()[:12]


def canon(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('ao', x.shape, [canon(v) for v in x.ravel()])
        return ('a', x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ('n', x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return ('d', sorted((repr(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(v) for v in x])
    return ('r', repr(x))


def dig(x):
    return sha(repr(canon(x)).encode())


def tree():
    out = {}

    def go(d):
        for e in os.scandir(d or '.'):
            if e.is_dir(follow_symlinks=False):
                go(d + e.name + '/')
            else:
                fd = os.open(e.path, os.O_RDONLY)
                try:
                    out[d + e.name] = sha(os.read(fd, 1 << 26))
                finally:
                    os.close(fd)
    go('')
    return out


def copy_files(names, dirs, dst):
    os.makedirs(dst, exist_ok=True)
    for d in dirs:
        os.makedirs(os.path.join(dst, d), exist_ok=True)
    for p in names:
        with open(p, 'rb') as f, open(os.path.join(dst, p), 'wb') as g:
            g.write(f.read())


def settings():
    return dict(cwd=os.getcwd(), np_err=repr(np.geterr()), np_print=repr(sorted(np.get_printoptions().items(), key=str)),
                np_random=sha(np.random.get_state()[1].tobytes() + repr(np.random.get_state()[2:]).encode()), random=sha(repr(random.getstate()).encode()),
                env=sha(repr(sorted(os.environ.items())).encode()), path=repr(sys.path), argv=repr(sys.argv),
                umask='%o' % umask(), files=str(len(os.listdir('/proc/self/fd'))), bufsize=str(np.getbufsize()),
                warnings=repr(warnings.filters), locale=locale.setlocale(locale.LC_ALL), recursion=str(sys.getrecursionlimit()),
                threads=str(threading.active_count()), signals=repr([signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)]))


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


# --- the operations -------------------------------------------------------------
def perform(m, op, P, arrays, verbose):
    """op with plain parameters P and the caller's arrays; relative paths"""
    import pyproj
    kw = dict(verbose=True) if verbose else {}
    if op == 'mkgrid':
        return m.mkgrid.mkgrid(**P, **kw)
    if op == 'regrid':
        P = dict(P)
        if arrays:
            P['mitgrid_matrices'] = arrays
        return m.regrid.regrid(**P, **kw)
    if op in ('addfringe', 'stitch'):
        return getattr(getattr(m, op), op)(**P, **kw)
    if op == 'matchedges':
        return m.matchedges.matchedges(arrays['aXG'], arrays['aYG'], arrays['bXG'], arrays['bYG'], pyproj.Geod(ellps='sphere'), **kw)
    if op == 'nearest':
        return m.util.nearest(P['lon'], P['lat'], arrays['X'], arrays['Y'], pyproj.Geod(ellps='sphere'))
    if op == 'cart':
        return m.util.lonlat2cart(arrays['X'], arrays['Y'])
    if op == 'areas':
        return getattr(m.util, P['fn'])(arrays['cart'])
    if op == 'compute':
        X, Y = arrays['X'], arrays['Y']
        g = pyproj.Geod(ellps='sphere')
        b = (1, X.shape[0] - 2, 1, X.shape[1] - 2)
        if P['fn'] == 'edges':
            return m.computegrid.edges(X, Y, *b, g, **kw)
        if P['fn'] == 'areas':
            ex, ey = m.computegrid.edges(X, Y, *b, g)
            return m.computegrid.areas(X, Y, ex, ey, g, **kw)
        return m.computegrid.tomitgrid(X.copy(), Y.copy(), 0, b[0], b[1], b[1] + 1, 0, b[2], b[3], b[3] + 1, g, **kw)
    if op == 'fill':
        X, Y = arrays['X'], arrays['Y']
        return m.computegrid.fill(X, Y, 1, X.shape[0] - 2, 1, X.shape[1] - 2, P['ls'], P['ks'], pyproj.Geod(ellps='sphere'), verbose)
    if op == 'read':
        return m.gridio.read_mitgridfile(P['file'], P['ni'], P['nj'], P['strict'], verbose)
    if op == 'write':
        return m.gridio.write_mitgridfile(P['file'], arrays, P['ni'], P['nj'], verbose)
    if op == 'rdmds':
        itrs = dict(nan=np.nan, inf=np.inf).get(P['itrs'], P['itrs']) if isinstance(P['itrs'], str) else P['itrs']
        kw = dict(P['kw'], **{k: v for k, v in arrays.items() if k in ('rec', 'region')})
        if 'lev0' in arrays:
            kw['lev'] = tuple(arrays[k] for k in ('lev0', 'lev1') if k in arrays)
        return m.mds.rdmds(P['name'], arrays.get('itrs', itrs), **kw)
    if op == 'wrmds':
        return m.mds.wrmds(P['name'], **arrays, **P['kw'])
    if op == 'parsemeta':
        return m.mds.parsemeta(P['file'])
    if op == 'convert':
        return m.mds2mitgrid.mds2mitgrid(P['dir'], **kw)
    if op == 'getobcs':
        P = dict(P, **{k: v for k, v in arrays.items() if '.' not in k})
        for who in ('parent', 'regional'):
            g = {k[len(who) + 1:]: v for k, v in arrays.items() if k.startswith(who + '.')}
            if g:
                P[who + '_mitgrid_matrices'] = g
        return m.getobcs.getobcs(**P, **kw)
    if op == 'command':
        old = sys.argv
        sys.argv = ['sg' + P['tool']] + P['argv'] + (['-v'] if verbose else [])
        try:
            return getattr(m, P['tool']).main()
        finally:
            sys.argv = old
    raise KeyError(op)


def apply(reg, data):
    return np.add.outer(reg.lon_out[:, 0], reg.lat_out[0]) + np.asarray(data, float).reshape(data.shape[:-2] + (-1,)).sum(-1)[..., None, None]


def answer(m, op, P, arrays, verbose, writes):
    """(kind, exception, value, digest); current directory is the session's"""
    sg.StubRegridder.apply = staticmethod(apply)
    for p in tree():
        if under(p, writes):
            os.utime(p, (1, 1))                 # to know what was written from what was lying there
    o = sg.call(perform, m, op, P, arrays, verbose)
    out = sorted((p, h) for p, h in tree().items() if under(p, writes) and os.stat(p).st_mtime != 1
                 and (op != 'getobcs' or os.path.basename(p).startswith('OB')))
    if o.kind == 'ok':
        r = sha(repr((o.kind, canon(o.value), out)).encode())
    else:
        # what a failing command leaves in its output is another property's
        r = '%s %s' % (o.kind, o.exc)
    return o, r


def under(p, writes):
    return any(p == w or (w.endswith('/') and p.startswith(w)) for w in writes)


# --- a process that has done nothing else -----------------------------------------
class Fresh:
    def __init__(self, m):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(w1)
                os.close(r2)
                self.serve(m, r1, w2)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    @staticmethod
    def send(fd, x):
        b = pickle.dumps(x)
        b = struct.pack('>q', len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    @staticmethod
    def recv(fd):
        def take(n):
            b = b''
            while len(b) < n:
                c = os.read(fd, n - len(b))
                if not c:
                    raise EOFError
                b += c
            return b
        return pickle.loads(take(struct.unpack('>q', take(8))[0]))

    def serve(self, m, r, w):
        while True:
            try:
                q = self.recv(r)
            except EOFError:
                return
            pr, pw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(pr)
                    os.chdir(q[0])
                    self.send(pw, answer(m, *q[1:])[1])
                except BaseException:
                    os._exit(1)
                os._exit(0)
            os.close(pw)
            try:
                a = self.recv(pr)
            except EOFError:
                a = 'no answer'
            os.close(pr)
            os.waitpid(pid, 0)
            self.send(w, a)

    def ask(self, *q):
        self.send(self.w, q)
        return self.recv(self.r)

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


# --- one session ------------------------------------------------------------------
class Session:
    def __init__(s, m, rng, fresh, steps):
        s.m, s.rng, s.fresh = m, rng, fresh
        s.held = {}                 # name -> object
        s.count = 0
        s.steps, s.log = [], []
        s.ops, s.past = [], []
        s.groups = []               # names received or made together, oldest first
        s.content = {}              # path -> contents seen
        s.d = os.path.realpath(tempfile.mkdtemp(prefix='ses'))
        s.want = steps

    # objects
    def hold(s, x, prefix, out):
        """every matrix and container of x gets a name"""
        if isinstance(x, (np.ndarray, list, dict)):
            s.count += 1
            n = '%s%d' % (prefix, s.count)
            s.held[n] = x
            out.append(n)
        if isinstance(x, dict):
            for v in x.values():
                s.hold(v, prefix, out)
        elif isinstance(x, (list, tuple)):
            for v in x:
                if isinstance(v, (np.ndarray, list, dict, tuple)):
                    s.hold(v, prefix, out)

    def shallow(s, x):
        """digest of the object itself: containers by what they contain, not its contents"""
        if isinstance(x, np.ndarray):
            return dig(x)
        ref = lambda v: 'id%d' % id(v) if isinstance(v, (np.ndarray, list, dict, tuple)) else repr(v)
        if isinstance(x, dict):
            return sha(repr(sorted((repr(k), ref(v)) for k, v in x.items())).encode())
        return sha(repr([ref(v) for v in x]).encode())

    def heap(s):
        return {n: s.shallow(x) for n, x in s.held.items()}

    def pad(s, q):
        return dict(q, **{'.': '-'})

    def state(s):
        return dict(heap=s.pad(s.heap()), disk=s.pad(tree()))

    def arg(s, a):
        """an argument of ours, in one of the plain layouts"""
        a = np.array(a)
        return np.asfortranarray(a) if s.rng.random() < .3 else np.ascontiguousarray(a)

    # the world
    def world(s):
        rng = s.rng
        c = drv_refine.re_case(rng, small=True, ambiguous=0, degenerate=.05)
        if rng.random() < .15:                         # a larger grid, and some of it
            for _ in range(40):
                b = drv_refine.re_case(rng, ambiguous=0, degenerate=0, big=True)
                if 120 < b['X'].size < 700 and abs(b['nw'][0] - b['se'][0]) * abs(b['nw'][1] - b['se'][1]) <= 40:
                    c = b
                    break
        X, Y = c['X'], c['Y']
        s.case, s.g = c, grids.grid_from_corners(X, Y, rng=rng)
        s.gn = (X.shape[0] - 1, X.shape[1] - 1)
        tok.put('g.mitgrid', s.g, *s.gn)
        np.savetxt('x.csv', X, delimiter=',', fmt='%.17g')
        np.savetxt('y.csv', Y, delimiter=',', fmt='%.17g')
        X.T.astype('>f8').tofile('x.bin')
        Y.T.astype('>f8').tofile('y.bin')
        p = drv_match.pair(rng, 'adjoin')
        s.tiles = {}
        for t in 'ab':
            X, Y = p[t.upper()]
            n = X.shape[0] - 1, X.shape[1] - 1
            g = grids.grid_from_corners(X, Y, rng=rng)
            for f in tok.NAMES:
                if f not in ('XG', 'YG') and rng.random() < .6:
                    g[f][0], g[f][-1], g[f][:, 0], g[f][:, -1] = 0, 0, 0, 0
            s.tiles[t] = (X, Y, n, g)
            tok.put(t + '.mitgrid', g, *n)
        p = drv_match.pair(rng, str(rng.choice(['far', 'gap', 'near', 'turned'])))
        for t in 'ab':
            s.tiles['far' + t] = p[t.upper()]
        os.mkdir('res')
        s.names = []
        for v in ['T', 'Q'][:int(rng.integers(1, 3))]:
            q = drv_mds.Set(rng, maps=bool(rng.random() < .3), deep=bool(rng.random() < .1))
            q.fmt = 'b'
            its = [int(x) for x in rng.choice([0, 7, 36, 100, 72000], int(rng.integers(1, 4)), replace=False)]
            for k, it in enumerate(its):
                q.put('res', '%s.%010d' % (v, it), q.tiles(rng, 1000 * (k + 1)), step=it)
            s.names.append((v, q, its))
        os.mkdir('gr')
        ny, nx = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        for k, f in enumerate(tok.NAMES):
            if rng.random() < .4:
                q = drv_mds.Set(rng, maps=False, twod=True, dims=(ny, nx))
                q.fmt = 'b'
                q.put('gr', f, q.tiles(rng, 100 * (k + 1)))
        os.mkdir('run')
        s.P, s.pm, s.pn, _ = drv_obcs.a_grid(rng, int(rng.integers(2, 5)), int(rng.integers(2, 5)), True)
        s.R, s.rm, s.rn, _ = drv_obcs.a_grid(rng, int(rng.integers(1, 5)), int(rng.integers(1, 5)))
        tok.put('p.mitgrid', s.P, s.pm, s.pn)
        tok.put('r.mitgrid', s.R, s.rm, s.rn)
        drv_obcs.results(rng, 'run', s.pm, s.pn)
        if rng.random() < .6:                          # the parent's grid among the results, or half of it
            for f in ('XC', 'YC', 'XG', 'YG')[int(rng.random() < .3):]:
                drv_obcs.Res(rng, s.P[f][:s.pm, :s.pn].T).save('run', f)
        with open('text.meta', 'w') as f:
            f.write(plain_meta(rng))
        for p in tree():
            with open(p, 'rb') as f:
                s.content[p] = [f.read()]

    # a call: (op, P, arrays, reads, writes)
    def fresh_op(s):
        rng = s.rng
        op = str(rng.choice(['mkgrid', 'regrid', 'regrid', 'regrid', 'addfringe', 'stitch', 'matchedges', 'nearest', 'cart', 'areas',
                             'compute', 'fill', 'read', 'read', 'write', 'write', 'rdmds', 'rdmds', 'rdmds', 'wrmds', 'parsemeta', 'convert', 'getobcs', 'getobcs', 'command']))
        A, P, R, W = {}, {}, [], []
        wrong = rng.random() < .15
        if op == 'mkgrid':
            c = drv_refine.mk_case(rng, small=True)
            P = dict(lon1=c['p1'][0], lat1=c['p1'][1], lon2=c['p2'][0], lat2=c['p2'][1], lon_subscale=c['ls'], lat_subscale=c['ks'])
            if wrong:
                P['lon_subscale'] = None
        elif op == 'regrid':
            c = s.case
            P = dict(lon1=c['p1'][0], lat1=c['p1'][1], lon2=c['p2'][0], lat2=c['p2'][1],
                     lon_subscale=int(rng.integers(1, 4)), lat_subscale=int(rng.integers(1, 4)))
            src = str(rng.choice(['file', 'csv', 'bin', 'mat', 'mat']))
            if src == 'mat':
                A = {f: s.arg(s.g[f]) for f in tok.NAMES}
                if wrong:
                    del A[str(rng.choice(['XG', 'YG']))]
                elif rng.random() < .3:
                    A = {f: A[f] for f in ('XG', 'YG', 'XC', 'YC')} if rng.random() < .5 else {f: A[f] if f in ('XG', 'YG') else None for f in A}
            else:
                P.update(ni=s.gn[0] + (int(rng.choice([-1, 1, 50])) if wrong else 0), nj=s.gn[1])
                if src == 'file':
                    P.update(mitgridfile='g.mitgrid', strict=bool(rng.random() < .3))
                else:
                    P.update(xg_file='x.' + src, yg_file='y.' + src)
                R = ['g.mitgrid'] if src == 'file' else ['x.' + src, 'y.' + src]
        elif op in ('addfringe', 'stitch'):
            P = s.tile_args(wrong)
            P['strict'] = bool(rng.random() < .3)
            R = ['a.mitgrid', 'b.mitgrid']
        elif op == 'matchedges':
            w = 'far' if rng.random() < .4 else ''
            for t in 'ab':
                A[t + 'XG'], A[t + 'YG'] = s.arg(s.tiles[w + t][0]), s.arg(s.tiles[w + t][1])
            if wrong:
                A['bXG'] = s.arg(A['bXG'] + 50.)
        elif op in ('nearest', 'cart'):
            A = dict(X=s.arg(s.case['X']), Y=s.arg(s.case['Y']))
            if op == 'nearest':
                P = dict(lon=s.case['p1'][0], lat=s.case['p1'][1])
            elif wrong:
                A['Y'] = s.arg(A['Y'][:1])
        elif op == 'areas':
            V = drv_refine.geo.vec(s.case['X'], s.case['Y'])
            if wrong or rng.random() < .2:                         # corners that are missing
                V[tuple(rng.integers(0, V.shape[:2]))] = np.nan
            A, P = dict(cart=s.arg(V)), dict(fn=str(rng.choice(['squad_uarea', 'pquad_uarea'])))
        elif op == 'compute':
            nx, ny = 2 * int(rng.integers(1, 3)), 2 * int(rng.integers(1, 3))
            X, Y = np.zeros((nx + 3, ny + 3)), np.zeros((nx + 3, ny + 3))
            X[1:-1, 1:-1], Y[1:-1, 1:-1] = grids.corners(rng, nx, ny, rng.uniform(-170, 150), rng.uniform(-60, 50), .5, .5, .1)
            A, P = dict(X=s.arg(X), Y=s.arg(Y)), dict(fn=str(rng.choice(['edges', 'areas', 'tomitgrid'])))
        elif op == 'fill':
            ls, ks = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            X, Y = np.zeros((2 * ls + 3, 2 * ks + 3)), np.zeros((2 * ls + 3, 2 * ks + 3))
            x, y = grids.corners(rng, 1, 1, rng.uniform(-170, 150), rng.uniform(-60, 50), 3., 3., .1)
            for i, a in ((1, 0), (-2, 1)):
                for j, b in ((1, 0), (-2, 1)):
                    X[i, j], Y[i, j] = x[a, b], y[a, b]
            A, P = dict(X=s.arg(X), Y=s.arg(Y)), dict(ls=ls, ks=ks)
        elif op == 'read':
            f, n = s.some_grid()
            P = dict(file=f, ni=n[0] + (int(rng.choice([-1, 1, 40])) if wrong else 0), nj=n[1], strict=bool(rng.random() < .4))
            if wrong and rng.random() < .3:
                P['file'] = 'nothing.mitgrid'
            R = [P['file']]
        elif op == 'write':
            n = s.gn
            prev = [g for g in s.past if isinstance(g, dict) and 'XG' in g and isinstance(g['XG'], np.ndarray) and g['XG'].ndim == 2] if rng.random() < .5 else []
            if prev:
                A = prev[int(rng.integers(0, len(prev)))]
                n = (A['XG'].shape[0] - 1, A['XG'].shape[1] - 1)
            else:
                A = {f: s.arg(s.g[f]) for f in tok.NAMES}
                if rng.random() < .3:
                    for f in tok.NAMES:
                        if rng.random() < .3:
                            A[f] = None
                if wrong:
                    A[str(rng.choice(tok.NAMES))] = s.arg(np.ones((1, 1)))
            f = str(rng.choice(['g.mitgrid', 'a.mitgrid', 'o1.mitgrid', 'o2.mitgrid'])) if n == s.gn else 'o3.mitgrid'
            if f == 'a.mitgrid':
                f = 'o2.mitgrid'
            P, W = dict(file=f, ni=n[0], nj=n[1]), [f]
        elif op == 'rdmds':
            v, q, its = s.names[int(rng.integers(0, len(s.names)))]
            kw = {}
            if rng.random() < .4:
                kw['usememmap'] = True
            if rng.random() < .3:
                kw['returnmeta'] = True
            if rng.random() < .3:
                kw['squeeze'] = False
            if rng.random() < .25:
                kw['rec'] = 0
            elif rng.random() < .4:
                A['rec'] = [int(x) for x in rng.integers(0, q.nrec, int(rng.integers(1, 4)))]
                if rng.random() < .3:
                    A['rec'] = np.array(A['rec'])
            if rng.random() < .2:
                kw['fill_value'] = -1
            if rng.random() < .2 and q.dims[0] > 1 and len(q.dims) > 2:
                kw['lev'] = [0]
            elif q.lead and rng.random() < .4:
                for k in range(int(rng.integers(1, len(q.lead) + 1))):
                    A['lev%d' % k] = [int(x) for x in rng.integers(0, q.lead[k], int(rng.integers(1, 4)))]
            if rng.random() < .3:
                kw['astype'] = 'float64' if rng.random() < .5 else None
            it = [None, 'nan', 'inf', its[0], its, [its[-1]] * 2][int(rng.integers(0, 6))]
            name = 'res/' + v
            if it is None:
                name, it = 'res/%s.%010d' % (v, its[0]), -1
            if wrong:
                it = int(rng.choice([5, 99999]))
            elif rng.random() < .15:                   # one whole file as it is
                A.clear()
                name, it = 'res/%s.%010d' % (v, its[0]), -1
                kw = dict(usememmap=bool(rng.random() < .7), astype=None if rng.random() < .7 else 'float64')
            if isinstance(it, list):
                A['itrs'], it = list(it), 'given'
            P, R = dict(name=name, itrs=it, kw=kw), [p for p in tree() if p.startswith('res/')]
        elif op == 'wrmds':
            a = s.arg(np.round(rng.standard_normal(tuple(rng.integers(1, 4, int(rng.integers(2, 4))))), 3).astype(str(rng.choice(['f8', 'f4']))))
            kw = dict(dataprec=str(rng.choice(['float32', 'float64'])))
            it = None
            if rng.random() < .5:
                it = kw['itr'] = int(rng.choice([0, 8, 1234]))
            if rng.random() < .3:
                kw['times'] = [1.5]
            if rng.random() < .3:
                kw['simulation'] = 'sim %d' % rng.integers(9)
            A = dict(arr=a)
            if rng.random() < .5:
                A['fields'] = [str(x) for x in rng.choice(['THETA', 'U', 'x_9', 'LONGERNAME'], int(rng.integers(1, 5)))]
            if 'times' in kw and rng.random() < .7:
                A['times'] = [kw.pop('times')[0]] * int(rng.integers(1, 3))
            if rng.random() < .3:
                A['dimlist'] = [int(x) for x in a.shape[::-1]]
            if wrong:
                kw['ndims'] = 7
            b = 'res/W%d' % rng.integers(0, 3) + ('' if it is None else '.%010d' % it)
            P, W = dict(name=b.split('.')[0], kw=kw), [b + '.meta', b + '.data']
        elif op == 'parsemeta':
            ms = [p for p in tree() if p.endswith('.meta')]
            f = 'text.meta' if rng.random() < .6 else str(rng.choice(ms))
            if wrong:
                f = 'no.meta'
            P, R = dict(file=f), [f]
        elif op == 'convert':
            P, R = dict(dir='gr' if not wrong else 'nowhere'), [p for p in tree() if p.startswith('gr/')]
        elif op == 'getobcs':
            P = dict(parent_mitgridfile='p.mitgrid', ni_parent=s.pm, nj_parent=s.pn, regional_mitgridfile='r.mitgrid', ni_regional=s.rm,
                     nj_regional=s.rn, parent_resultsdir='run', resultsdir=str(rng.choice(['ob1', 'ob2'])), strict=bool(rng.random() < .2))
            for side, k in drv_obcs.SIDES.items():
                L, a = (s.rn, s.rm) if side in 'NS' else (s.rm, s.rn)
                _, vec = drv_obcs.vec(rng, a, L)
                if vec:
                    P[k] = [int(x) for x in vec]
                    if rng.random() < .5:
                        A[k] = np.array(P.pop(k)) if rng.random() < .6 else P.pop(k)
            R = [p for p in tree() if p.startswith('run/')]
            for who, w, g in (('parent', 'p', s.P), ('regional', 'r', s.R)):
                u = rng.random()
                if u > .5:
                    R.append(w + '.mitgrid')
                    if wrong and who == 'parent':
                        P['ni_parent'] = s.pm + 30
                    continue
                for k in ('%s_mitgridfile', 'ni_%s', 'nj_%s'):
                    del P[k % who]
                if u < .3 or who == 'regional':
                    fs = ('XC', 'YC', 'XG', 'YG') if rng.random() < .6 else tok.NAMES
                    A.update({'%s.%s' % (who, f): s.arg(g[f]) for f in fs if not (wrong and f == 'YG')})
            W = [P['resultsdir'] + '/']
        else:
            tool = str(rng.choice(['regrid', 'addfringe', 'stitch', 'mkgrid']))
            out = str(rng.choice(['o1.mitgrid', 'o2.mitgrid']))
            if tool in ('addfringe', 'stitch'):
                v, R = s.tile_args(wrong), ['a.mitgrid', 'b.mitgrid']
            else:
                c = s.case
                v = dict(lon1=repr(c['p1'][0]), lat1=repr(c['p1'][1]), lon2=repr(c['p2'][0]), lat2=repr(c['p2'][1]), lon_subscale=2, lat_subscale=1)
                v = {k: ('%.20f' % float(x) if 'e' in str(x) else x) for k, x in v.items()}
                if tool == 'regrid':
                    v.update(mitgridfile='g.mitgrid', ni=s.gn[0] + (1 if wrong else 0), nj=s.gn[1])
                    R = ['g.mitgrid']
            if not (wrong and rng.random() < .4):
                v['outfile'] = out
            P, W = dict(tool=tool, argv=['--%s=%s' % (k, x) for k, x in v.items()]), [out]
        return op, P, A, R, W

    def tile_args(s, wrong):
        na, nb = s.tiles['a'][2], s.tiles['b'][2]
        P = dict(tilea='a.mitgrid', nia=na[0], nja=na[1], tileb='b.mitgrid', nib=nb[0], njb=nb[1])
        if wrong:
            k = str(s.rng.choice(['nia', 'njb', 'tileb']))
            P[k] = 'missing.mitgrid' if k == 'tileb' else P[k] + int(s.rng.choice([-1, 1, 60]))
        return P

    def some_grid(s):
        k = int(s.rng.integers(0, 5))
        return [('g.mitgrid', s.gn), ('a.mitgrid', s.tiles['a'][2]), ('b.mitgrid', s.tiles['b'][2]),
                ('p.mitgrid', (s.pm, s.pn)), ('o1.mitgrid', s.gn)][k]

    # steps
    def do_op(s, spec):
        op, P, A, R, W, names = spec
        rng = s.rng
        verbose = bool(rng.random() < .3) and op not in ('nearest', 'cart', 'areas', 'rdmds', 'wrmds', 'parsemeta')
        copy = tempfile.mkdtemp(prefix='sesref')
        try:
            t = tree()
            copy_files([p for p in t if p in R or under(p, W)], [q for q in os.listdir('.') if os.path.isdir(q)], copy)
            ref_args = {k: np.array(v, copy=True, order='K') if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v
                        for k, v in A.items()}
            writes = sorted(p for p in t if under(p, W)) + [w for w in W if not w.endswith('/')]
            old = settings()
            o, r = answer(s.m, op, P, A, verbose, W)
            now = settings()
            new = []
            if o.kind == 'ok':
                s.hold(o.value, op + '.', new)
                if new:
                    s.groups.append(new)
                gs = [x for x in (o.value if isinstance(o.value, tuple) else (o.value,)) if isinstance(x, dict)]
                s.past += gs
                s.past = s.past[-4:]
            if any(isinstance(s.held[n], np.memmap) for n in new):
                now['files'] = old['files']
            writes = sorted(set(writes) | {p for p in tree() if under(p, W)})
            ref = s.fresh.ask(copy, op, P, ref_args, bool(rng.random() < .3) and verbose, W)
        finally:
            shutil.rmtree(copy, ignore_errors=True)
        e = dict(do='op', op=op + ' ' + sha(repr(P).encode()) + ' ' + layout(A), objs=names, reads=R, writes=writes, kind=o.kind, res=r, ref=ref,
                 new=s.pad({n: s.shallow(s.held[n]) for n in new}), old=old, now=now, **s.state())
        s.add(e, '%s %s%s -> %s' % (op, repr(P)[:300], ' verbose' if verbose else '', o.kind if o.kind == 'ok' else o.exc))
        return o

    def add(s, e, text):
        s.steps.append(e)
        s.log.append(text)

    def new_op(s):
        op, P, A, R, W = s.fresh_op()
        names = []
        for k in sorted(A):
            if isinstance(A[k], (np.ndarray, list)):
                have = [n for n, x in s.held.items() if x is A[k]]
                if have:
                    names.append(have[0])
                else:
                    s.count += 1
                    n = 'arg%d' % s.count
                    s.held[n] = A[k]
                    names.append(n)
            else:
                names.append('none')
        mine = [n for n in names if n.startswith('arg')]
        if A and not any(x is A for x in s.held.values()):
            s.count += 1
            n = 'arg%d' % s.count
            s.held[n] = A                              # the dictionary itself
            mine.append(n)
        if mine:
            s.groups.append(mine)
        # the user's own objects appear on the heap (nothing else moves)
        s.add(dict(do='bring', objs=mine, **s.state()), 'arguments ' + op)
        spec = (op, P, A, R, W, names)
        s.ops.append(spec)
        s.do_op(spec)

    def again(s):
        """an operation asked before, on the same objects or on copies"""
        spec = s.ops[int(s.rng.integers(0, len(s.ops)))]
        op, P, A, R, W, names = spec
        if not all(n == 'none' or n in s.held for n in names):
            return s.new_op()
        if op in ('rdmds', 'convert', 'getobcs'):
            pre = dict(rdmds='res/', convert='gr/', getobcs='run/')[op]
            R = [p for p in R if not p.startswith(pre)] + [p for p in sorted(tree()) if p.startswith(pre)]
        s.do_op((op, P, A, R, W, names))

    def mutate(s):
        ns = [n for n, x in s.held.items() if (isinstance(x, np.ndarray) and x.flags.writeable and x.size) or (isinstance(x, list) and n[:3] != 'arg') or (isinstance(x, dict) and n[:3] != 'arg')]
        if not ns:
            return s.new_op()
        n = str(s.rng.choice(ns))
        x = s.held[n]
        if isinstance(x, list):
            x.append('scribble')
        elif isinstance(x, dict):
            x['scribble'] = s.count
        elif n.startswith('arg') and s.rng.random() < .7:
            u = s.rng.random()
            i = tuple(int(s.rng.integers(0, k)) for k in x.shape)
            if u < .3:                                  # the same numbers elsewhere
                x[...] = x[::-1].copy() if u < .15 else x.reshape(-1)[s.rng.permutation(x.size)].reshape(x.shape)
            elif x.dtype.kind in 'iu':
                x[i] = x.flat[int(s.rng.integers(0, x.size))]
            else:
                x[i] = x[i] * 1.001 + 1e-4
        else:
            with np.errstate(all='ignore'):
                x[...] = np.asarray(s.rng.integers(0, 60, x.shape) + .5).astype(x.dtype) if x.dtype.kind in 'fiu' else x
        s.add(dict(do='mutate', obj=n, **s.state()), 'overwrite ' + n)

    def put(s, among=()):
        rng = s.rng
        t = sorted(tree())
        p = str(rng.choice(t))
        among = [q for q in among if q in t]
        if among:
            p = str(rng.choice(among))
        elif rng.random() < .5:                          # something an operation has read
            used = [q for op in s.ops for q in op[3] if q in t]
            if used:
                p = str(rng.choice(used))
        with open(p, 'rb') as f:
            b = f.read()
        s.content.setdefault(p, [])
        if b not in s.content[p]:
            s.content[p].append(b)
        if len(s.content[p]) > 1 and rng.random() < .5:
            c = s.content[p][int(rng.integers(0, len(s.content[p])))]
        elif p.endswith('.meta'):
            if p == 'text.meta':
                c = plain_meta(rng).encode()
            else:
                c = b + b' // %d\n' % rng.integers(9)
        elif p.endswith('.csv'):
            L = [q.split(b',') for q in b.split(b'\n') if q]
            i = int(rng.integers(0, len(L)))
            j = int(rng.integers(0, len(L[i])))
            L[i][j] = b'%.15g' % (float(L[i][j]) + 1e-3)
            c = b'\n'.join(b','.join(q) for q in L) + b'\n'
        elif len(b) >= 8:
            w = np.frombuffer(b, '>f8' if len(b) % 8 == 0 else '>f4').copy()
            i = int(rng.integers(0, w.size))
            if rng.random() < .5:
                w[i] = w[i] * (1 + 2.0 ** -12) + 2.0 ** -10
            else:
                w[i] = w[int(rng.integers(0, w.size))]
            c = w.tobytes()
        else:
            c = b
        if c not in s.content[p]:
            s.content[p].append(c)
        st = os.stat(p)
        if len(c) == len(b):
            with open(p, 'r+b') as f:
                f.write(c)
        else:                                          # never shrink a file that may be mapped
            with open(p + '~', 'wb') as f:
                f.write(c)
            os.replace(p + '~', p)
        if rng.random() < .6:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        s.add(dict(do='put', paths=[p], **s.state()), 'rewrite ' + p)

    def more_files(s):
        """another step of results appears, or goes"""
        rng = s.rng
        v, q, its = s.names[int(rng.integers(0, len(s.names)))]
        t = sorted(tree())
        if len(its) > 1 and rng.random() < .4:
            it = its.pop(int(rng.integers(0, len(its))))
            ps = [p for p in t if p.startswith('res/%s.%010d.' % (v, it))]
            for p in ps:
                os.remove(p)
        else:
            it = int(rng.choice([3, 17, 555, 88888]))
            if it not in its:
                its.append(it)
            q.put('res', '%s.%010d' % (v, it), q.tiles(rng, int(rng.integers(1, 50)) * 1000), step=it)
            ps = [p for p in tree() if p.startswith('res/%s.%010d.' % (v, it))]
        s.add(dict(do='put', paths=ps, **s.state()), 'results of step %d' % it)

    def setting(s):
        """the user changes a setting of the process that is none of the library's business"""
        rng = s.rng
        k = int(rng.integers(0, 5))
        if k == 0:
            np.set_printoptions(precision=int(rng.integers(1, 17)), threshold=int(rng.choice([3, 1000])), suppress=bool(rng.random() < .5),
                                floatmode=str(rng.choice(['fixed', 'maxprec', 'unique'])), linewidth=int(rng.choice([30, 75])))
        elif k == 1:
            np.seterr(divide=str(rng.choice(['ignore', 'warn'])), invalid=str(rng.choice(['ignore', 'warn'])))
        elif k == 2:
            np.random.seed(int(rng.integers(0, 99)))
            random.seed(int(rng.integers(0, 99)))
        elif k == 3:
            warnings.simplefilter(str(rng.choice(['error', 'ignore'])), [UserWarning, FutureWarning][int(rng.integers(0, 2))])
        else:
            os.environ['SG_NOTHING'] = str(rng.integers(0, 99))
            np.setbufsize(int(rng.choice([1024, 8192])))
        s.add(dict(do='bring', objs=[], **s.state()), 'setting %d' % k)

    def drop(s):
        while len(s.groups) > 8:
            g = s.groups.pop(0)
            for n in g:
                s.held.pop(n, None)
            s.ops = [o for o in s.ops if not set(o[5]) & set(g)]
            if not s.ops:
                s.ops = []
            s.add(dict(do='drop', objs=g, **s.state()), 'forget')
            gc.collect(0)

    def run(s):
        cwd = os.getcwd()
        os.chdir(s.d)
        old = np.geterr(), np.get_printoptions(), np.getbufsize()
        warnings.resetwarnings()
        for w in (UserWarning, RuntimeWarning, DeprecationWarning, FutureWarning, SyntaxWarning, ResourceWarning):
            warnings.simplefilter('ignore', w)
        try:
            s.world()
            disk = s.pad(tree())
            while len(s.steps) < s.want:
                u = s.rng.random()
                if not s.ops or u < .3:
                    s.new_op()
                    if s.rng.random() < .2:            # what it has just read
                        R = s.ops[-1][3] if s.ops else []
                        if R and s.ops[-1][0] == 'rdmds':
                            R = [p for p in R if p.startswith(s.ops[-1][1]['name']) and p.endswith('.data')]
                        if R:
                            s.put(R)
                elif u < .62:
                    s.again()
                elif u < .8:
                    s.mutate()
                elif u < .95:
                    s.put()
                elif u < .98:
                    s.more_files()
                else:
                    s.setting()
                s.drop()
            return dict(disk=disk, steps=s.steps)
        finally:
            os.chdir(cwd)
            warnings.resetwarnings()
            warnings.simplefilter('ignore')
            np.seterr(**old[0])
            np.set_printoptions(**old[1])
            np.setbufsize(old[2])
            os.environ.pop('SG_NOTHING', None)
            shutil.rmtree(s.d, ignore_errors=True)


def layout(A):
    return ''.join('F' if isinstance(v, np.ndarray) and v.flags.f_contiguous and not v.flags.c_contiguous else 'C' if isinstance(v, np.ndarray) else '-'
                   for k, v in sorted(A.items())) + ','.join(sorted(A))


def plain_meta(rng):
    L = []
    for k in range(int(rng.integers(1, 4))):
        v = [str(int(x)) for x in rng.integers(-50, 50, int(rng.integers(1, 4)))]
        L.append(str(rng.choice(['k%d = [ %s ];', 'k%d = { %s };'])) % (k, ' , '.join("'w%s'" % x for x in v) if rng.random() < .4 else ' '.join(v) if len(v) == 1 else ' , '.join(v)))
    return str(rng.choice(['\n', ' '])).join(L) + '\n'


def some_runs(m, rng, n, steps):
    fresh = Fresh(m)
    try:
        ev, info = [], []
        for k in range(n):
            s = Session(m, rng, fresh, steps)
            ev.append(s.run())
            info.append(s.log)
        return ev, info
    finally:
        fresh.close()


def runs(ctx, m, n, steps, workers=6):
    """n sessions, shared out among processes"""
    seeds = ctx.np.integers(0, 2 ** 31, workers)
    jobs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for q, _ in jobs:
                    os.close(q)
                Fresh.send(w, some_runs(m, np.random.default_rng(seeds[k]), n // workers + (k < n % workers), steps))
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        os.close(w)
        jobs.append((r, pid))
    ev, info, lost = [], [], 0
    for r, pid in jobs:
        try:
            a, b = Fresh.recv(r)
            ev += a
            info += b
        except EOFError:
            lost += 1
        os.close(r)
        os.waitpid(pid, 0)
    if lost:
        raise RuntimeError('%d workers lost' % lost)
    for log in info:
        for t in log:
            w = t.split()
            ctx.count(w[0] if w[0] in ('overwrite', 'rewrite', 'results') else w[0] + ' ' + ('ok' if t.endswith('-> ok') else 'refused') if '->' in t else 'other')
    return ev, info


def validate(ctx, ev, info, names, chunks=6):
    for at, cl in tlc.trace(ctx, 'TraceSession', ev, chunks=chunks):
        for c in cl:
            if c == 'unevaluable':
                ctx.violation(c, dict(history=info[at][-12:]))
                continue
            k, name = c.split(':')
            if name in names:
                k = int(k) - 1
                s = ev[at]['steps'][k]
                d = dict(step=k, what=info[at][k], before=info[at][max(0, k - 12):k])
                if 'op' in s:
                    d.update(res=s['res'], ref=s['ref'], diff={q: (s['old'][q], s['now'][q]) for q in s['now'] if s['now'][q] != s['old'][q]})
                if k:
                    a, b = ev[at]['steps'][k - 1], s
                    d['changed'] = [x for x in b['heap'] if x in a['heap'] and a['heap'][x] != b['heap'][x]]
                    d['files'] = [x for x in set(a['disk']) | set(b['disk']) if a['disk'].get(x) != b['disk'].get(x)]
                ctx.violation(name, d)
