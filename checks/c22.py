"""Metadata texts against the automaton of Meta.tla."""
import shutil, tempfile
import sg, tlc, drv_meta


def run(ctx):
    m = sg.load()
    tlc.design(ctx, ('MCMeta', 'MCMeta_big.cfg') if ctx.thorough else 'MCMeta')
    d = tempfile.mkdtemp(prefix='meta')
    ev, info = [], []
    try:
        for n in range(ctx.n(2400, 20000)):
            e, i = drv_meta.case(m, ctx.np, d, n)
            ev.append(e)
            info.append(i)
            ctx.count(i['what'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.sample(next(i for i in info if i['what'] != 'wellformed'))
    for at, cl in tlc.trace(ctx, 'TraceMeta', ev, chunks=6):
        for c in cl:
            ctx.violation(c, info[at])
