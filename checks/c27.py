"""Sessions against Session.tla: arguments, files and earlier results stay."""
import sg, tlc, drv_session


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCSession', ('MCSession', 'MCSession_content.cfg'))
    tlc.refuted(ctx, ('MCSession', 'MCSession_shared.cfg'), ('MCSession', 'MCSession_inplace.cfg'), ('MCSession', 'MCSession_view.cfg'))
    ev, info = drv_session.runs(ctx, m, ctx.n(84, 600), ctx.n(90, 150))
    ctx.sample(info[0][:8])
    drv_session.validate(ctx, ev, info, ('objects', 'given', 'files', 'apart', 'detached', 'harness'), ctx.n(8, 60))
