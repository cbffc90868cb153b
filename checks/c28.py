"""Sessions against Session.tla: an answer depends on arguments and files only."""
import sg, tlc, drv_session


def run(ctx):
    m = sg.load()
    tlc.design(ctx, 'MCSession', ('MCSession', 'MCSession_content.cfg'))
    tlc.refuted(ctx, ('MCSession', 'MCSession_path.cfg'), ('MCSession', 'MCSession_stamp.cfg'))
    ev, info = drv_session.runs(ctx, m, ctx.n(84, 600), ctx.n(90, 150))
    ctx.sample(info[0][:8])
    drv_session.validate(ctx, ev, info, ('ends', 'same.answer', 'first.answer', 'settings', 'harness'), ctx.n(8, 60))
