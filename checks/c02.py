import sg, tlc, drv_file


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCStagger', 'MCMitFile')
    ev, info = drv_file.histories(ctx, m, ctx.n(36, 400), ctx.n(8, 14), [.3, .6, .1])
    ev2, info2 = drv_file.lengths(ctx, m)
    ev, info = ev + ev2, info + info2
    ev3, info3 = drv_file.big(ctx, m, [(91, 90)] if not ctx.thorough else [(100, 81), (3, 2800), (300, 40)])
    ev, info = ev + ev3, info + info3
    ctx.sample([x for x in ev if x['ev'] == 'read'][0])
    drv_file.validate(ctx, ev, info, ('read.short', 'read.keys', 'read.value', 'read.files', 'read.accept'), chunks=6)
