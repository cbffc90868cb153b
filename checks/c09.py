import sg, tlc, drv_refine as d


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCOrient', 'Regrid')
    cases = d.mix(ctx, ctx.n(260, 3000), mk=.05, degenerate=.2, ambiguous=.8)
    d.run_cases(ctx, m, cases, [], ('ends', 'refuse', 'accept', 'only.ve', 'orient', 'size'))
