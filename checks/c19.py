import sg, tlc, drv_mds


def run(ctx):
    m = sg.load()
    tlc.design(ctx, *(['MCFaces', ('MCMds', 'MCMds_big.cfg')] if ctx.thorough else ['MCFaces', 'MCMds']))
    ev, info = drv_mds.reads(ctx, m, ctx.n(140, 2500), 2, True)
    ctx.sample(dict(event=ev[0], call=info[0]))
    drv_mds.validate(ctx, ev, info, ('read.',))
