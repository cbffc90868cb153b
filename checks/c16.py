import sg, tlc, drv_tiles


def run(ctx):
    m = sg.load()
    tlc.design(ctx, ('MCTiles', 'MCTiles_zero.cfg'), ('MCTiles', 'MCTiles_computed.cfg'))
    drv_tiles.run_cuts(ctx, m, ctx.n(45, 500), ('stitch.', 'final.'))
