import sg, tlc, drv_file


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCStagger', 'MCMitFile')
    ev, info = drv_file.histories(ctx, m, ctx.n(20, 200), ctx.n(8, 14), [.1, .5, .4])
    drv_file.validate(ctx, ev, info, ('read.strict', 'read.accept'), chunks=6)
    sizes = [(1, 1), (2, 1), (1, 2), (2, 3)] if not ctx.thorough else [(1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2), (4, 3), (5, 5)]
    ev, info = drv_file.exhaustive_padding(ctx, m, sizes)
    ctx.sample([x for x in ev if x['ev'] == 'tool'][3])
    drv_file.validate(ctx, ev, info, ('tool.',), chunks=6)
