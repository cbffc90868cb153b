import sg, tlc, drv_file


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCStagger', 'MCMitFile')
    ev, info = drv_file.histories(ctx, m, ctx.n(36, 400), ctx.n(7, 14), [.8, .1, .1])
    ev3, info3 = drv_file.big(ctx, m, [(98, 84)] if not ctx.thorough else [(100, 81), (3, 2800), (300, 40), (270, 250)])
    ev, info = ev + ev3, info + info3
    ctx.sample([x for x in ev if x['ev'] == 'write'][0])
    drv_file.validate(ctx, ev, info, ('write',), chunks=6)
