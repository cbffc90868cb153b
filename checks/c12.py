import sg, tlc, drv_match


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCMatch', 'MCFill')
    drv_match.run(ctx, m, ctx.n(400, 6000))
