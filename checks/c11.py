import sg, tlc, drv_refine as d


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCFill', 'MCStagger')
    cases = d.mix(ctx, ctx.n(180, 1800), degenerate=0)
    d.run_cases(ctx, m, cases, [d.chk_lons], ())
