"""Command lines against Command.tla."""
import sg, tlc, drv_cmd


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCCommand')
    ev, info = drv_cmd.runs(ctx, m, ctx.n(250, 4000), ctx.n(8, 150))
    ctx.sample(info[10])
    for at, cl in tlc.trace(ctx, 'TraceCommand', ev, chunks=ctx.n(6, 24)):
        for c in cl:
            ctx.violation(c, info[at])
