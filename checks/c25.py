"""Which boundary files are written, in what order (Obcs.tla)."""
import sg, tlc, drv_obcs


def run(ctx):
    m = sg.load()
    tlc.design(ctx, ('MCObcs', 'MCObcs_big.cfg') if ctx.thorough else 'MCObcs')
    ev, info = drv_obcs.runs(ctx, m, ctx.n(120, 2500))
    ctx.sample(dict(run={k: v for k, v in info[0].items() if k != 'regs'}))
    drv_obcs.validate(ctx, ev, info, ("runs", "set", "length", "order", "refused", "inputs", "others", "weights"), chunks=6 if not ctx.thorough else 24)
