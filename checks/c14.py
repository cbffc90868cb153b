import sg, tlc, drv_tiles


def run(ctx):
    m = sg.load()
    tlc.design(ctx, ('MCTiles', 'MCTiles_computed.cfg'), 'MCStagger')
    drv_tiles.run_pairs(ctx, m, ctx.n(110, 1200), ('fringe.ok',), numeric=('cross',), stitch=False)
