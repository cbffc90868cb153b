"""Access to the code under test: import from the current /repo tree, call
through a guard that turns every ending into an Outcome."""
import contextlib, importlib, io, os, signal, sys, types, warnings

REPO = os.environ.get('SG_REPO', '/repo')
sys.dont_write_bytecode = True
os.environ.setdefault('PROJ_NETWORK', 'OFF')
warnings.filterwarnings('ignore')

import numpy as np


class StubRegridder:
    """Stand-in for xesmf.Regridder (ESMF is not installed here).  It records
    what it was built from and 'interpolates' with a function that makes every
    (source field, target point) distinguishable."""
    log = []
    files = {}

    def __init__(self, ds_in, ds_out, method, **kw):
        self.lon_in = np.array(ds_in['lon'], float)
        self.lat_in = np.array(ds_in['lat'], float)
        self.lon_out = np.array(ds_out['lon'], float)
        self.lat_out = np.array(ds_out['lat'], float)
        self.method = method
        self.kw = dict(kw)
        fn = kw.get('filename') or kw.get('weights')
        # a re-used weight file replaces what would have been computed
        if kw.get('reuse_weights') or kw.get('weights') is not None:
            if fn is None or not os.path.exists(fn):
                raise FileNotFoundError('no weight file %s' % fn)
            old = StubRegridder.files.get(os.path.abspath(fn))
            self.weights = old if old is not None else 'foreign'
        else:
            self.weights = (self.lon_in.tobytes(), self.lat_in.tobytes(),
                            self.lon_out.tobytes(), self.lat_out.tobytes(), method)
            if fn is not None:
                with open(fn, 'wb') as f:
                    f.write(b'stub weights')
                StubRegridder.files[os.path.abspath(fn)] = self.weights
        self.stale = self.weights != (self.lon_in.tobytes(), self.lat_in.tobytes(),
                                      self.lon_out.tobytes(), self.lat_out.tobytes(), method)
        self.shape_in = self.lon_in.shape
        self.shape_out = self.lon_out.shape
        StubRegridder.log.append(self)
        self.calls = []

    def to_netcdf(self, filename=None):
        if filename:
            with open(filename, 'wb') as f:
                f.write(b'stub weights')
            StubRegridder.files[os.path.abspath(filename)] = self.weights
        return filename

    def __call__(self, data, **kw):
        data = np.array(data, float)
        if data.shape[-2:] != self.shape_in:
            raise ValueError('shape mismatch in regridder: %s vs %s' % (data.shape, self.shape_in))
        return StubRegridder.apply(self, data)

    apply = None


def _stub_xesmf():
    m = types.ModuleType('xesmf')
    m.Regridder = StubRegridder
    m.__version__ = '0.9.2'
    sys.modules['xesmf'] = m


def load():
    """import simplegrid from REPO"""
    if 'xesmf' not in sys.modules:
        _stub_xesmf()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sg = importlib.import_module('simplegrid')
    assert os.path.realpath(sg.__file__).startswith(os.path.realpath(REPO) + os.sep), sg.__file__
    mods = types.SimpleNamespace(sg=sg)
    for name in ('gridio', 'regrid', 'mkgrid', 'addfringe', 'stitch', 'matchedges', 'util',
                 'mds', 'mds2mitgrid', 'getobcs', 'config', 'mitgridfilefields', 'computegrid'):
        setattr(mods, name, importlib.import_module('simplegrid.' + name))
    return mods


class Hang(BaseException):
    pass


class Outcome:
    __slots__ = ('kind', 'value', 'exc', 'msg', 'out', 'err', 'mro')

    def __repr__(self):
        return 'Outcome(%s,%s,%s)' % (self.kind, self.exc, self.msg)


def call(fn, *a, timeout=20, **kw):
    """kind 'ok' | 'err' | 'hang'; exc = exception class name"""
    o = Outcome()
    o.value = o.exc = o.msg = None
    o.mro = []

    def onalarm(sig, frm):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    so, se = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            o.value = fn(*a, **kw)
        o.kind = 'ok'
    except Hang:
        o.kind, o.exc = 'hang', 'Hang'
    except BaseException as e:      # SystemExit included: commands end that way
        if isinstance(e, KeyboardInterrupt):
            raise
        o.kind, o.exc = 'err', type(e).__name__
        try:
            o.msg = str(e)[:200]
        except Exception:
            o.msg = '(message cannot be formatted)'
        o.mro = [c.__name__ for c in type(e).__mro__]
        if isinstance(e, SystemExit):
            o.value = e.code
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    o.out, o.err = so.getvalue(), se.getvalue()
    return o
