import sg, tlc, drv_refine as d


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCFill', 'MCStagger')
    cases = d.mix(ctx, ctx.n(150, 1500), degenerate=0, trans=.3)
    d.run_cases(ctx, m, cases, [d.chk_areas], ())
