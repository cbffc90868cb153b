"""Command lines for the five tools, run in process (main() with sys.argv) and,
for some, as processes of their own; compared with the function called with the
same values."""
import os, shutil, subprocess, sys, tempfile
import numpy as np
import sg, tlc, tok, grids, drv_refine, drv_match, drv_obcs

INTS = {'ni', 'nj', 'nia', 'nja', 'nib', 'njb', 'lon_subscale', 'lat_subscale', 'ni_parent', 'nj_parent', 'ni_regional', 'nj_regional'}
LISTS = {'OB_Jnorth', 'OB_Jsouth', 'OB_Ieast', 'OB_Iwest'}
FLOATS = {'lon1', 'lat1', 'lon2', 'lat2'}

PROC = '''
import sys
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import sg
sg.StubRegridder.apply = lambda reg, data: __import__('numpy').zeros(reg.shape_out)
sg.load()
import importlib
m = importlib.import_module('simplegrid.' + sys.argv[1])
sys.argv = ['sg' + sys.argv[1]] + sys.argv[2:]
sys.exit(m.main())
'''


def some_file(rng, d, name, g, ni, nj):
    p = os.path.join(d, name)
    tok.put(p, g, ni, nj)
    return p


def setup(m, rng, d):
    """files, and the option values of one command"""
    tool = str(rng.choice(['mkgrid', 'regrid', 'regrid', 'addfringe', 'stitch', 'getobcs']))
    v = {}
    if tool == 'mkgrid':
        c = drv_refine.mk_case(rng, small=True)
        (v['lon1'], v['lat1']), (v['lon2'], v['lat2']) = c['p1'], c['p2']
        v['lon_subscale'], v['lat_subscale'] = c['ls'], c['ks']
    elif tool == 'regrid':
        c = drv_refine.re_case(rng, small=True, ambiguous=0, degenerate=.12)
        X, Y = c['X'], c['Y']
        ni, nj = X.shape[0] - 1, X.shape[1] - 1
        src = str(rng.choice(['file', 'file', 'bin', 'csv']))
        g = grids.grid_from_corners(X, Y, rng=rng)
        if src == 'file':
            v['mitgridfile'] = some_file(rng, d, 'g.mitgrid', g, ni, nj)
        else:
            for k, a in (('xg_file', X), ('yg_file', Y)):
                p = os.path.join(d, k[:2] + ('.csv' if src == 'csv' else '.bin'))
                if src == 'csv':
                    np.savetxt(p, a, delimiter=',', fmt='%.17g')
                else:
                    a.T.astype('>f8').tofile(p)
                v[k] = p
        v.update(ni=ni, nj=nj, lon_subscale=c['ls'], lat_subscale=c['ks'])
        (v['lon1'], v['lat1']), (v['lon2'], v['lat2']) = c['p1'], c['p2']
    elif tool in ('addfringe', 'stitch'):
        p = drv_match.pair(rng, 'adjoin' if rng.random() < .85 else 'far')
        for t in 'ab':
            X, Y = p[t.upper()]
            ni, nj = X.shape[0] - 1, X.shape[1] - 1
            g = grids.grid_from_corners(X, Y, rng=rng)
            for f in tok.NAMES:             # entries to be computed are zero
                if f not in ('XG', 'YG') and rng.random() < .6:
                    g[f][0], g[f][-1], g[f][:, 0], g[f][:, -1] = 0, 0, 0, 0
            v['tile' + t] = some_file(rng, d, t + '.mitgrid', g, ni, nj)
            v['ni' + t], v['nj' + t] = ni, nj
    else:
        ni, nj = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        P, pm, pn, _ = drv_obcs.a_grid(rng, int(rng.integers(2, 5)), int(rng.integers(2, 5)), True)
        R, ni, nj, _ = drv_obcs.a_grid(rng, ni, nj)
        run = os.path.join(d, 'run')
        os.makedirs(run)
        drv_obcs.results(rng, run, pm, pn)
        v['parent_mitgridfile'] = some_file(rng, d, 'p.mitgrid', P, pm, pn)
        v['regional_mitgridfile'] = some_file(rng, d, 'r.mitgrid', R, ni, nj)
        v.update(ni_parent=pm, nj_parent=pn, ni_regional=ni, nj_regional=nj, parent_resultsdir=run)
        for s, k in drv_obcs.SIDES.items():
            A, L = (nj, ni) if s in 'NS' else (ni, nj)
            _, vec = drv_obcs.vec(rng, L, A)
            if vec:
                v[k] = vec
        if rng.random() < .6:
            v['resultsdir'] = os.path.join(d, 'obcs')
    if 'lon1' in v and rng.random() < .2:
        k = float(rng.choice([-360, 360, -720]))
        v['lon1'], v['lon2'] = v['lon1'] + k, v['lon2'] + k
    # damage
    fault = ''
    if rng.random() < .33:
        files = [k for k in v if k in ('mitgridfile', 'tilea', 'tileb', 'xg_file', 'yg_file', 'parent_mitgridfile', 'regional_mitgridfile')]
        if files:
            k = str(rng.choice(files))
            fault = str(rng.choice(['missing', 'short', 'dirty', 'dirty']))
            if fault == 'missing':
                os.remove(v[k])
            elif fault == 'short':
                with open(v[k], 'r+b') as f:
                    f.truncate(max(0, os.path.getsize(v[k]) - int(rng.choice([8, 80, 10 ** 6]))))
            elif not k.startswith(('xg', 'yg')):
                w = np.fromfile(v[k], '>f8')
                w[-1 - 16 * 0 - int(rng.integers(0, 1))] = 3.5           # DYG's padding corner
                w.tofile(v[k])
    if tool != 'mkgrid' and rng.random() < (.5 if fault == 'dirty' else .3):
        v['strict'] = True
    if rng.random() < .4:
        v['verbose'] = True
    if tool != 'getobcs':
        u = rng.random()
        out = os.path.join(d, 'out.mitgrid')
        if u < .15:
            same = [k for k in v if k in ('mitgridfile', 'tilea', 'tileb', 'xg_file')]
            if same:
                out = v[str(rng.choice(same))]
        elif u < .2:
            out = os.path.join(d, 'nowhere', 'out.mitgrid')
        elif u < .75:
            with open(out, 'wb') as f:
                f.write(bytes(rng.integers(0, 256, int(rng.choice([3, 800, 60000])), dtype=np.uint8)))
        v['outfile'] = out
    return tool, v, fault


def line(rng, tool, v, d, rel):
    """words of the command line, and their description"""
    opts = list(v)
    rng.shuffle(opts)
    argv, desc = [], []
    bad = rng.random() < .22
    victim = str(rng.choice(opts)) if bad else None
    how = str(rng.choice(['drop', 'drop', 'none', 'form', 'unknown', 'two'])) if bad else ''
    if victim in LISTS | {'strict', 'verbose', 'verbose', 'xg_file', 'yg_file', 'mitgridfile', 'resultsdir'} and how in ('drop', 'form', 'none'):
        how = 'unknown'
    if how == 'two' and victim in LISTS | {'strict', 'verbose'}:
        how = 'unknown'
    if how == 'form' and victim not in INTS | FLOATS:
        how = 'none'
    for o in opts:
        x = v[o]
        if o == victim and how == 'drop':
            continue
        if x is True:
            argv.append(str(rng.choice(['-' + o[0], '--' + o])))
            desc.append([o, 'flag'])
            continue
        if o in LISTS:
            argv += ['--' + o] + [str(k) for k in x]
            desc.append([o, 'ints'])
            continue
        if o in INTS:
            s, form = str(x), 'int'
        elif o in FLOATS:
            s, form = repr(float(x)), 'real'
            if 'e' in s:
                s = '%.25f' % x
        else:
            s, form = (os.path.relpath(x, d) if rel else x), 'word'
        if o == victim and how == 'none':
            argv.append('--' + o)
            desc.append([o, 'none'])
            argv.append('--verbose')        # so that nothing can be taken for the value
            desc.append(['verbose', 'flag'])
            continue
        if o == victim and how == 'form':
            s, form = ('2.5' if o in INTS else 'north'), ('real' if o in INTS else 'word')
        if rng.random() < .3:
            argv.append('--%s=%s' % (o, s))
        else:
            argv += ['--' + o, s]
        desc.append([o, form])
        if o == victim and how == 'two':
            argv.append('stray')
            desc[-1][1] = 'two'
    if how == 'unknown':
        argv += ['--bogus', '3']
        desc.append(['bogus', 'word'])
    return [str(a) for a in argv], desc, how


def api(m, tool, v, d):
    """the function itself, on the same values"""
    kw = {k: x for k, x in v.items() if k not in ('outfile', 'strict', 'verbose')}
    if tool != 'mkgrid':
        kw['strict'] = v.get('strict', False)
    kw['verbose'] = v.get('verbose', False)
    fn = getattr(getattr(m, tool), tool)
    if tool == 'getobcs':
        kw['resultsdir'] = os.path.join(d, 'api_obcs')
    cwd = os.getcwd()
    os.chdir(d)
    try:
        o = sg.call(fn, **kw)
    finally:
        os.chdir(cwd)
    r = dict(kind=o.kind, ni=0, nj=0, grid=0, talks=bool(o.out))
    return o, r


def spoken(text, d):
    return text.replace(os.path.realpath(d) + os.sep, '').replace(d + os.sep, '')


def one(m, rng, T, process):
    d = tempfile.mkdtemp(prefix='cmd')
    cwd = os.getcwd()
    try:
        tool, v, fault = setup(m, rng, d)
        rel = bool(rng.random() < .3)
        argv, desc, how = line(rng, tool, v, d, rel)
        sg.StubRegridder.apply = lambda reg, data: np.add.outer(reg.lon_out[:, 0], reg.lat_out[0]) + data.ravel() @ np.arange(1, data.size + 1)
        if process:
            sg.StubRegridder.apply = lambda reg, data: np.zeros(reg.shape_out)
        # what is the line worth: the harness calls the function with the values unless something was left out
        a = dict(kind='none', ni=0, nj=0, grid=0, talks=False)
        tree, said = {}, ''
        if not how:
            o, a = api(m, tool, v, d)
            said = o.out
            if o.kind == 'ok' and tool != 'getobcs':
                g = o.value
                if tool == 'addfringe':
                    a.update(ni=v['nia'], nj=v['nja'], grid=T.grid(g[2]))
                else:
                    a.update(ni=int(g[1]), nj=int(g[2]), grid=T.grid(g[0]))
            if tool == 'getobcs':
                tree = {k: x for k, x in drv_obcs.digest(os.path.join(d, 'api_obcs')).items() if k.startswith('OB')}
                shutil.rmtree(os.path.join(d, 'api_obcs'), ignore_errors=True)
        before = drv_obcs.digest(d)
        os.chdir(d)
        says = True
        if process:
            p = subprocess.run([sys.executable, '-c', PROC % os.path.dirname(os.path.abspath(__file__)), tool] + argv,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120,
                               env=dict(os.environ, SG_REPO=sg.REPO, PYTHONDONTWRITEBYTECODE='1'))
            cli = dict(kind='ok' if p.returncode == 0 else 'err', talks=bool(p.stdout))
            got = 'status %d %s' % (p.returncode, p.stderr[-200:])
        else:
            old = sys.argv
            sys.argv = ['sg' + tool] + argv
            try:
                o = sg.call(getattr(m, tool).main)
            finally:
                sys.argv = old
            kind = o.kind
            if o.kind == 'ok' and o.value not in (None, 0, False):
                kind = 'err'                                # sys.exit(main())
            if o.mro and 'SystemExit' in o.mro and o.value in (None, 0):
                kind = 'ok'
            cli = dict(kind=kind, talks=bool(o.out))
            # what the function says is part of what the command says
            says = tool == 'getobcs' or spoken(said, d) in spoken(o.out, d)
            got = repr(o)
        os.chdir(cwd)
        cli['says'] = bool(says)
        after = drv_obcs.digest(d)
        out = os.path.relpath(v['outfile'], d) if 'outfile' in v else ''
        words, clitree = [], {}
        if tool == 'getobcs':
            od = os.path.relpath(v.get('resultsdir') or v['parent_resultsdir'] + '_obcs', d)
            clitree = {os.path.relpath(k, od): x for k, x in after.items() if k.startswith(od + os.sep) and os.path.basename(k).startswith('OB')}
            if a['kind'] == 'ok':
                after = {k: x for k, x in after.items() if not k.startswith(od + os.sep)}
            else:
                after = {k: x for k, x in after.items() if not (k.startswith(od + os.sep) and not os.path.basename(k).startswith('OB'))}
        elif out in after and cli['kind'] == 'ok':
            words = T.file(os.path.join(d, out))
        writable = 'outfile' not in v or os.path.isdir(os.path.dirname(v['outfile']))
        pad = lambda q: dict(q, **{'.': ''})
        e = dict(ev='cmd', tool=tool, line=desc, writable=writable, before=pad(before), after=pad(after), api=a, cli=cli, out=out,
                 words=words, apitree=pad(tree), clitree=pad(clitree))
        return e, dict(tool=tool, argv=argv, fault=fault, how=how, api=a['kind'], got=got, process=process)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def runs(ctx, m, n, procs):
    rng = ctx.np
    T = tok.Tok()
    ev, info = [], []
    for k in range(n):
        e, i = one(m, rng, T, k < procs)
        ev.append(e)
        info.append(i)
        ctx.count(i['tool'])
        ctx.count('line ' + i['how'] if i['how'] else 'function ' + i['api'])
    return ev, info
