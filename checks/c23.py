import sg, tlc, drv_mds


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCStagger', 'MCFaces')
    ev, info = drv_mds.conversions(ctx, m, ctx.n(90, 1500))
    ctx.sample(info[0])
    drv_mds.validate(ctx, ev, info, ('conv.',))
