import sg, tlc, drv_mds


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCFold')
    ev, info = drv_mds.writes(ctx, m, ctx.n(400, 6000))
    ctx.sample(dict(event=ev[0], call=info[0]))
    drv_mds.validate(ctx, ev, info, ('write.', 'back.'))
