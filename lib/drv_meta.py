"""Metadata texts: token lists, rendered by the harness, parsed by the code."""
import os, tempfile
import numpy as np
import sg, tok

KEYS = ['nDims', 'dimList', 'map2glob', 'dataprec', 'nrecords', 'timeStepNumber', 'timeInterval', 'nFlds', 'fldList', 'simulation', 'missingValue', 'x', 'K_9']
INB = ['float32', 'float64', 'a', 'real', '1.5', 'x=y', 'p//q', '/*n*/', "don''t", '12', 'a.b', 'e', "a''b''c", "it''''s", "''"]
INC = ['THETA', 'SALT    ', 'my run', 'a, b', '1', 'http://x', 'p = [ 1 ];', 'ETAN', '', '   ', '/* no */', 'x]y', 'semi;colon', '  lead', ' both ']
COMMENTS = ['c', 'a comment', "don't", 'k = [ 1 ];', '[', '}', 'x // y', "'"]


class Text:
    def __init__(self, rng):
        self.rng = rng
        self.T = tok.Tok()

    def value(self, br):
        r = self.rng
        if br == '{':
            s = str(r.choice(INC))
            return ['str', s.rstrip(), "'%s'" % s]
        u = r.random()
        if u < .5:
            n = int(r.choice([0, 1, 2, 90, -3, 1023, 72000, 2147483]))
            f = ['%d', '%5d', '%d', '+%d' if n >= 0 else '%d', '%03d' if n >= 0 else '%d'][int(r.integers(5))]
            return ['int', str(n), (f % n).strip()]
        if u < .8:
            x = float(r.choice([0.0, 1.5, -2.25, 1e20, 3.14159265, -9.99e-3, 86400.0, 1e-300]))
            t = str(r.choice(['%.12E', '%r', '%.3f', '%e', '%.1f']) % x) if x != int(x) or r.random() < .7 else '%d.' % int(x)
            if r.random() < .4:                     # other ways of writing one
                m = str(r.choice(['1', '7', '25', '0', '1.5', '.5', '5.', '002.50']))
                e = str(r.choice(['E', 'e'])) + str(r.choice(['', '+', '-'])) + str(r.choice(['0', '5', '03', '12'])) if '.' not in m or r.random() < .6 else ''
                t = str(r.choice(['', '', '-', '+'])) + m + e
            x = float(t)
            return ['real', 't%d' % self.T.one(x), t]
        s = str(r.choice(INB))
        return ['str', s.replace("''", "'"), "'%s'" % s]

    def gap(self, need, nl=True):
        """blank tokens; at least one if need"""
        r, out = self.rng, []
        for _ in range(int(r.integers(1 if need else 0, 3))):
            u = r.random()
            if u < .65:
                out.append(['sp', '', ' ' * int(r.choice([1, 1, 2, 5])) if r.random() < .93 else str(r.choice(['\t', ' \t', '\t\t ']))])
            elif u < .7 and nl:        # a line of white space
                out += [['nl', '', '\n'], ['sp', '', str(r.choice(['\t', ' \t ', '\x0c', '   ']))], ['nl', '', '\n']]
            elif u < .85 and nl:
                if r.random() < .25:
                    c = str(r.choice(COMMENTS))
                    out += [['sp', '', ' '], ['line', '', '// ' + c]]
                out.append(['nl', '', '\n'])
            elif u < .93:
                out.append(['block', '', ' /* %s */ ' % r.choice(COMMENTS)])
            else:
                out.append(['sp', '', ' '])
        if need and not out:
            out.append(['sp', '', ' '])
        return out

    def entry(self, key):
        r = self.rng
        br = '[' if r.random() < .6 else '{'
        out = []
        if r.random() < .8:
            out.append(['sp', '', ' ' * int(r.choice([1, 1, 2, 4]))])
        if r.random() < .05:
            out.append(['block', '', ' /* %s */ ' % r.choice(COMMENTS)])
        out.append(['key', key, key])
        out += self.gap(False, False) + [['eq', '', '=']] + self.gap(False, False)
        out.append(['open', br, br])
        out += self.gap(br == '[' and r.random() < .8)
        n = int(r.choice([1, 1, 2, 3, 6, 9]))
        for q in range(n):
            if q:
                if br == '[' and r.random() < .7:
                    out += self.gap(False) if r.random() < .2 else []
                    out.append(['comma', '', ','])
                    out += self.gap(False)
                else:
                    out += self.gap(True)
            out.append(self.value(br))
        out += self.gap(False)
        out += [['close', ']' if br == '[' else '}', ']' if br == '[' else '}'], ['semi', '', ';']]
        if r.random() < .2:
            out.append(['sp', '', '  '])
        if r.random() < .1:
            out.append(['line', '', '// ' + str(r.choice(COMMENTS))])
        elif r.random() < .06:
            out.append(['block', '', ' /* %s */ ' % r.choice(COMMENTS)])
        out.append(['nl', '', '\n'])
        while r.random() < .15:
            if r.random() < .2:
                out += [['sp', '', str(r.choice(['\t', '  \t\t', '\x0c', '\t ']))], ['nl', '', '\n']]
                continue
            out += [['sp', '', '   ']] if r.random() < .4 else []
            if r.random() < .4:
                out.append(['line', '', '// ' + str(r.choice(COMMENTS))])
            elif r.random() < .3:
                out.append(['block', '', '/* %s */' % r.choice(COMMENTS)])
            out.append(['nl', '', '\n'])
        return out

    def wellformed(self):
        r = self.rng
        n = int(r.choice([0, 1, 2, 4, 7]))
        keys = [str(k) for k in r.choice(KEYS, n, replace=bool(r.random() < .1))]
        out = []
        for k in keys:
            out += self.entry(k)
        if out and r.random() < .15:
            out.pop()               # no newline at the end (or one blank line fewer)
        return out

    # --- faults ---
    def damage(self, ts):
        r = self.rng
        ts = [list(t) for t in ts]
        st = []                     # bracket each token sits in
        br = ''
        for t in ts:
            if t[0] == 'close':
                br = ''
            st.append(br)
            if t[0] == 'open':
                br = t[1]
        kind = str(r.choice(['del', 'del', 'empty', 'unquote', 'number', 'number', 'dup', 'swap', 'junk', 'junk', 'junk', 'join', 'inner']))
        pick = lambda kinds: [i for i, t in enumerate(ts) if t[0] in kinds]
        if kind == 'del':
            i = r.choice(pick(('eq', 'open', 'close', 'semi')) or [0])
            del ts[int(i)]
        elif kind == 'number':          # something like a number in the place of one
            c = [i for i in range(len(ts)) if st[i] == '[' and ts[i][0] in ('int', 'real')]
            if c:
                j = str(r.choice(['++5', '+-2', '5+', '--1', '1..5', '1.2.3', '1e', '1e+-3', '0x1F', '12abc', 'nan', '+', '-', '1e5e2', '+-1.5', '++.5',
                                  '0b1', '1L', '1+1', '5-', '2.5j', 'True', 'None', 'inf', '-inf', "5'", '1.5f', '1d0x', '.', '1*2', '1/2', '$5', '5%']))
                ts[int(r.choice(c))] = ['junk', '', j]
        elif kind == 'empty':           # nothing between the brackets
            c = pick(('open',))
            if c:
                i = int(r.choice(c))
                k = next((q for q in range(i, len(ts)) if ts[q][0] == 'close'), None)
                if k is not None:
                    ts[i + 1:k] = [['sp', '', ' ']] if r.random() < .5 else []
        elif kind == 'unquote':         # no quotes around the only string
            c = [i for i in range(len(ts)) if st[i] == '{' and ts[i][0] == 'str']
            if c:
                i = int(r.choice(c))
                a = next(q for q in range(i, -1, -1) if ts[q][0] == 'open')
                k = next((q for q in range(i, len(ts)) if ts[q][0] == 'close'), None)
                if k is not None and "'" not in ts[i][1]:
                    ts[a + 1:k] = [['sp', '', ' '], ['junk', '', ts[i][2].strip("'") or 'x'], ['sp', '', ' ']]
        elif kind == 'dup':
            c = pick(('eq', 'open', 'close', 'semi', 'comma', 'key'))
            if c:
                i = int(r.choice(c))
                ts[i + 1:i + 1] = ([['sp', '', ' ']] if ts[i][0] == 'key' or r.random() < .5 else []) + [list(ts[i])]
        elif kind == 'swap':
            c = pick(('open', 'close'))
            if c:
                i = int(r.choice(c))
                o = {'[': '{', '{': '[', ']': '}', '}': ']'}[ts[i][1]]
                ts[i] = [ts[i][0], o, o]
        elif kind == 'junk':
            j = str(r.choice(['@', 'foo', '12abc', "'abc", '1.2.3', '--1', '++5', '+-2', '5+', '1e+-3', '- 1', '1..5', 'e5', '1 e5', '..', ';', 'nan', '1e', '=', '/', '0x1F', '1,5e']))
            if r.random() < .4:         # unquoted or half quoted text first or last between braces
                first = bool(r.random() < .5)
                j = str(r.choice(['foo', '12', '@', '1.5', "a'"] if first else ['foo', '12', '@', '1.5', "'b"]))
                c = [i + 1 if first else i for i, t in enumerate(ts) if t[0] == ('open' if first else 'close') and t[1] in '{}']
            else:
                c = [i for i in range(len(ts)) if st[i] == '[' and ts[i][0] in ('int', 'real', 'str', 'close', 'sp')]
                c += [i + 1 for i, t in enumerate(ts) if t[0] == 'semi'] * 2 + [i + 1 for i, t in enumerate(ts) if t[0] == 'nl' and not st[i]]
            if c:
                i = int(r.choice(c))
                ts[i:i] = [['sp', '', ' '], ['junk', '', j], ['sp', '', ' ']]
        elif kind == 'join':        # two lines in one
            c = [i for i, t in enumerate(ts) if t[0] == 'nl' and not st[i] and i and ts[i - 1][0] == 'semi' and i + 1 < len(ts)]
            if c:
                i = int(r.choice(c))
                ts[i] = ['sp', '', ' ']
                while i + 1 < len(ts) and ts[i + 1][0] == 'sp':     # tabs only make lines of their own
                    i += 1
                    ts[i] = ['sp', '', ' ']
        else:                       # a line break between key, = and bracket
            c = [i for i, t in enumerate(ts) if t[0] in ('eq', 'open')]
            if c:
                i = int(r.choice(c))
                ts[i:i] = [['nl', '', '\n']]
        return kind, ts

    def truncate(self, ts):
        text = ''.join(t[2] for t in ts)
        if not text:
            return ts
        k = int(self.rng.integers(0, len(text)))
        out, n = [], 0
        for t in ts:
            if n + len(t[2]) <= k:
                out.append(t)
                n += len(t[2])
                continue
            part = t[2][:k - n]
            if part:
                if t[0] == 'key':
                    out.append(['key', part, part])
                elif t[0] == 'sp' or not part.strip():
                    out.append(['sp', '', part])
                elif t[0] == 'line' and len(part) > 1:
                    out.append(['line', '', part])
                elif t[0] == 'block' and part.rstrip().endswith('*/') and len(part.strip()) > 3:
                    out.append(['block', '', part])
                else:
                    out.append(['junk', '', part])
            break
        return out


def result(o, T):
    r = dict(kind=o.kind, mro=o.mro, dict=[])
    if o.kind == 'ok':
        try:
            for k, vs in o.value.items():
                row = []
                for v in vs:
                    if isinstance(v, str):
                        row.append(['str', v])
                    elif isinstance(v, (int, np.integer)) and not isinstance(v, bool):
                        row.append(['int', str(int(v))])
                    elif isinstance(v, (float, np.floating)):
                        row.append(['real', 't%d' % T.one(v)])
                    else:
                        row.append(['other', repr(v)])
                r['dict'].append([k, row])
        except Exception:
            r['kind'] = 'malformed'
    return r


def case(m, rng, d, n):
    x = Text(rng)
    ts = x.wellformed()
    u = rng.random()
    what = 'wellformed'
    if u < .3 and ts:
        what, ts = x.damage(ts)
    elif u < .5:
        what, ts = 'truncated', x.truncate(ts)
    text = ''.join(t[2] for t in ts)
    fn = os.path.join(d, 'm%d.meta' % n)
    # line ends of other systems are line ends
    with open(fn, 'w', newline='\r\n' if rng.random() < .1 else None) as f:
        f.write(text)
    res = [result(sg.call(m.mds.parsemeta, fn), x.T)]
    if rng.random() < .3:
        with open(fn) as f:
            res.append(result(sg.call(m.mds.parsemeta, f), x.T))
    os.remove(fn)
    return dict(ev='meta', toks=[[t[0], t[1]] for t in ts], res=res), dict(what=what, text=text, answers=res)
