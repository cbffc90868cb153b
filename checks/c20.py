import sg, tlc, drv_mds


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCMds')
    ev, info = drv_mds.reads(ctx, m, ctx.n(140, 3000), 3, False)
    ctx.sample(dict(event=ev[0], call=info[0]))
    drv_mds.validate(ctx, ev, info, ('read.',))
