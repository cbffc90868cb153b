"""Doubles <-> integer tokens, one token per distinct 64-bit value (every NaN
is one token), so that TLC compares values exactly."""
import numpy as np

NAMES = ('XC', 'YC', 'DXF', 'DYF', 'RAC', 'XG', 'YG', 'DXV', 'DYU', 'RAZ', 'DXC', 'DYC', 'RAW', 'RAS', 'DXG', 'DYG')
_LOC = dict(zip(NAMES, 'TTTTTZZZZZUVUVVU'))


def ni_del(f):
    return 1 if _LOC[f] in 'ZU' else 0


def nj_del(f):
    return 1 if _LOC[f] in 'ZV' else 0


def shape(f, ni, nj):
    return ni + ni_del(f), nj + nj_del(f)


ZERO, NEGZERO, NAN = 0, 1, 2


NANS = 1000000000          # tokens of NaNs other than the usual one, where they are told apart


class Tok:
    def __init__(self, nans=False):
        self.map = {}
        self.rev = {}
        self.nans = nans

    def one(self, x):
        x = np.float64(x)
        if x != x and not self.nans:
            return NAN
        b = x.view(np.uint64).item()
        if x != x:
            if b == 0x7ff8000000000000:
                return NAN
            return self.map.setdefault(b, NANS + len(self.map))
        if b == 0:
            return ZERO
        if b == 1 << 63:
            return NEGZERO
        t = self.map.get(b)
        if t is None:
            t = 10 + len(self.map)
            self.map[b] = t
            self.rev[t] = float(x)
        return t

    def val(self, t):
        return {0: 0.0, 1: -0.0, 2: float('nan')}.get(t, self.rev.get(t))

    def arr(self, a):
        """matrix -> rows of tokens; anything else -> a token matrix no grid has"""
        if a is None:
            return []
        if not isinstance(a, np.ndarray) or a.ndim != 2 or a.dtype.kind not in 'fiu':
            return [[-9]]
        a = a.astype(np.float64)
        return [[self.one(x) for x in row] for row in a]

    def vec(self, a):
        return [self.one(x) for x in np.asarray(a, np.float64).ravel()]

    def grid(self, g):
        return {f: self.arr(g.get(f)) if hasattr(g, 'get') else [[-9]] for f in NAMES}

    def file(self, path):
        with open(path, 'rb') as f:
            b = f.read()
        r = len(b) % 8
        w = self.vec(np.frombuffer(b[:len(b) - r], '>f8'))
        return w + [-r] if r else w          # -r: r bytes that make no word


# --- an independent mitgrid codec, used only to build and look at inputs -----
def encode(g, ni, nj):
    out = np.zeros((16, nj + 1, ni + 1))
    for k, f in enumerate(NAMES):
        r, c = shape(f, ni, nj)
        a = np.full((r, c), np.nan) if g.get(f) is None else np.asarray(g[f], float)
        out[k, :c, :r] = a.T
    return out.astype('>f8').tobytes()


def decode(b, ni, nj):
    a = np.frombuffer(b, '>f8').astype(float).reshape(16, nj + 1, ni + 1)
    g = {}
    for k, f in enumerate(NAMES):
        r, c = shape(f, ni, nj)
        g[f] = a[k, :c, :r].T.copy()
    return g


def put(path, g, ni, nj):
    with open(path, 'wb') as f:
        f.write(encode(g, ni, nj))
