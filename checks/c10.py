import sg, tlc, drv_sources


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCStagger', 'MCMitFile')
    drv_sources.run(ctx, m, ctx.n(70, 700))
