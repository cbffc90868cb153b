import sg, tlc, drv_refine as d


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCStagger', 'MCFill', 'MCOrient')
    cases = d.mix(ctx, ctx.n(220, 2500), degenerate=.02)
    d.run_cases(ctx, m, cases, [], ('shapes', 'size', 'corners', 'ends'))
